//go:build !race

package zz

// RaceBuild: the race detector is off.
const RaceBuild = false

// Hide does nothing.
func Hide() {}

// Show does nothing.
func Show() {}
