//go:build race

package nd

import "runtime"

// Race tells that the program was built with -race.
const Race = true

func races() int { return runtime.RaceErrors() }
