// Package scp serves a fixture instead of the downloaded callsign database.
package scp

import (
	"errors"
	orig "github.com/ftl/hamradio/scp"
)

// Load provides the database; without it there is none available.
var Load func() (*orig.Database, error)

var errOffline = errors.New("offline")

func LocalFilename() (string, error)            { return "/nonexistent/MASTER.SCP", nil }
func Update(string, string) (bool, error)       { return false, errOffline }
func Download(string, string) error             { return errOffline }
func LoadRemote(string) (*orig.Database, error) { return LoadLocal("") }
func LoadLocal(string) (*orig.Database, error) {
	if Load == nil {
		return nil, errOffline
	}
	return Load()
}
