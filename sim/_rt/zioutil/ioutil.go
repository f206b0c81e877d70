// Package zioutil stands in for io/ioutil.
package zioutil

import (
	"io/fs"

	"robpike.io/ivy/zzsim/zos"
)

func ReadFile(name string) ([]byte, error) { return zos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return zos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*zos.File, error) { return zos.CreateTemp(dir, pattern) }
