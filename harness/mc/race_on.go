//go:build race

package mc

// Race tells whether the harness was built with the race detector.
const Race = true
