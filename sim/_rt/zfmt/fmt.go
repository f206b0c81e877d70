// Package zfmt stands in for the parts of fmt that use the standard streams.
package zfmt

import (
	"fmt"

	"robpike.io/ivy/zzsim/zos"
)

func Print(a ...any) (int, error)                 { return fmt.Fprint(zos.Stdout, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(zos.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(zos.Stdout, format, a...) }
func Scan(a ...any) (int, error)                  { return fmt.Fscan(zos.Stdin, a...) }
func Scanln(a ...any) (int, error)                { return fmt.Fscanln(zos.Stdin, a...) }
func Scanf(format string, a ...any) (int, error)  { return fmt.Fscanf(zos.Stdin, format, a...) }
