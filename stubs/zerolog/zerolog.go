// Package zerolog is a stand-in: the repository only passes a no-op logger on.
package zerolog

// Logger is a no-op logger.
type Logger struct{}

// Nop returns a no-op logger.
func Nop() Logger { return Logger{} }
