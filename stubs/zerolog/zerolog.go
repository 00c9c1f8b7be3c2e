// Package zerolog is a stand-in for github.com/rs/zerolog (compiles only).
package zerolog

// Logger is a stand-in.
type Logger struct{}

// Nop returns a disabled logger.
func Nop() Logger { return Logger{} }
