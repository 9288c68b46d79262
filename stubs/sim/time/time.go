//go:build go1.22

// Package time has the clock of the simulated world.
package time

import "verif.local/sim/world"

func Now() Time             { return world.Current().Now() }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { world.Current().Sleep(d) }
