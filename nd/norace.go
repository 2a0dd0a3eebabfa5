//go:build !race

package nd

// Race tells that the program was built with -race.
const Race = false

func races() int { return 0 }
