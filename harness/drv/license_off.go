//go:build no_license
// +build no_license

package main

// license detection is not a part of the build with this tag
func licenseNames(path string, content []byte) ([]string, float32) { return nil, 0 }
