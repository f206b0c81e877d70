// Package zlog stands in for the standard logger.
package zlog

import (
	"fmt"
	"strings"

	"robpike.io/ivy/zzsim/zos"
)

var prefix string

func SetFlags(int)       {}
func SetPrefix(s string) { prefix = s }

func out(s string) {
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	zos.Stderr.WriteString(prefix + s)
}

func Print(a ...any)                 { out(fmt.Sprint(a...)) }
func Println(a ...any)               { out(fmt.Sprintln(a...)) }
func Printf(format string, a ...any) { out(fmt.Sprintf(format, a...)) }
func Fatal(a ...any)                 { out(fmt.Sprint(a...)); zos.Exit(1) }
func Fatalln(a ...any)               { out(fmt.Sprintln(a...)); zos.Exit(1) }
func Fatalf(format string, a ...any) { out(fmt.Sprintf(format, a...)); zos.Exit(1) }
func Panic(a ...any)                 { s := fmt.Sprint(a...); out(s); panic(s) }
func Panicf(format string, a ...any) { s := fmt.Sprintf(format, a...); out(s); panic(s) }
