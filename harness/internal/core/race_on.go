//go:build race

package core

// RaceEnabled says whether the race detector is compiled in.
const RaceEnabled = true
