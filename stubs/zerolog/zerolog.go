// Package zerolog is a stand-in.
package zerolog

// Logger does nothing.
type Logger struct{}

// Nop returns a disabled logger.
func Nop() Logger { return Logger{} }
