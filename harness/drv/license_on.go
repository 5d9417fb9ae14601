//go:build !no_license
// +build !no_license

package main

import (
	"sort"

	"gopkg.in/src-d/go-license-detector.v2/licensedb"
	"gopkg.in/src-d/go-license-detector.v2/licensedb/filer"
)

type oneFile struct {
	name string
	buf  []byte
}

func (f *oneFile) ReadFile(path string) ([]byte, error) { return f.buf, nil }
func (f *oneFile) ReadDir(path string) ([]filer.File, error) {
	return []filer.File{{Name: f.name}}, nil
}
func (f *oneFile) Close() {}

// licenseNames returns the licenses that match best, and how well.
func licenseNames(path string, content []byte) (res []string, conf float32) {
	m, err := licensedb.Detect(&oneFile{path, content})
	if err != nil {
		return nil, 0
	}
	for k, v := range m {
		if v > conf {
			res, conf = nil, v
		}
		if v == conf {
			res = append(res, k)
		}
	}
	if conf < 0.85 {
		return nil, 0
	}
	sort.Strings(res)
	return
}
