// Package dxcc serves a fixture instead of the downloaded prefix list.
package dxcc

import (
	"errors"
	orig "github.com/ftl/hamradio/dxcc"
)

// Load provides the prefixes; without it there are none available.
var Load func() (*orig.Prefixes, error)

var errOffline = errors.New("offline")

func LocalFilename() (string, error)            { return "/nonexistent/cty.dat", nil }
func Update(string, string) (bool, error)       { return false, errOffline }
func Download(string, string) error             { return errOffline }
func LoadRemote(string) (*orig.Prefixes, error) { return LoadLocal("") }
func LoadLocal(string) (*orig.Prefixes, error) {
	if Load == nil {
		return nil, errOffline
	}
	return Load()
}
func DefaultPrefixes(bool) (*orig.Prefixes, bool, error) {
	p, err := LoadLocal("")
	return p, false, err
}
