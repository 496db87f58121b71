//go:build race

package zz

import "runtime"

// RaceBuild: the race detector is on. The explorer's own synchronisation must
// not order the accesses of the code under test, so it is hidden from it.
const RaceBuild = true

// Hide keeps what follows from ordering anything.
func Hide() { runtime.RaceDisable() }

// Show ends Hide.
func Show() { runtime.RaceEnable() }
