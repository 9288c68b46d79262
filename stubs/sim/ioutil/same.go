//go:build go1.22

package ioutil

import real "io/ioutil"

// Taken over unchanged.
var (
	Discard   = real.Discard
	NopCloser = real.NopCloser
	ReadAll   = real.ReadAll
)
