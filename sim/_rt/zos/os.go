// Package zos stands in for os.
package zos

import (
	"io"
	"io/fs"
	"os"

	"robpike.io/ivy/zzsim"
)

type File = zzsim.File

var (
	Stdin  = zzsim.Std(1)
	Stdout = zzsim.Std(2)
	Stderr = zzsim.Std(3)
)

func Exit(code int) { zzsim.Exit(code) }

func Open(name string) (*File, error) { return zzsim.OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return zzsim.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return zzsim.OpenFile(name, flag, perm)
}

func CreateTemp(dir, pattern string) (*File, error) { return zzsim.CreateTemp(dir, pattern) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (fs.FileInfo, error)        { return zzsim.Stat(name) }
func Lstat(name string) (fs.FileInfo, error)       { return zzsim.Stat(name) }
func Remove(name string) error                     { return zzsim.Remove(name) }
func Rename(from, to string) error                 { return zzsim.Rename(from, to) }
func Chmod(name string, m fs.FileMode) error       { return nil }
func Mkdir(name string, perm fs.FileMode) error    { return zzsim.Mkdir(name) }
func MkdirAll(name string, perm fs.FileMode) error { return zzsim.Mkdir(name) }
func Getwd() (string, error)                       { return "/work", nil }
func TempDir() string                              { return "/tmp" }
func Getpid() int                                  { return 4242 }
func Hostname() (string, error)                    { return "sim", nil }
