// Package model holds Go reference models that stand in for library functions during
// symbolic execution. Each is differential-tested natively against the library it replaces.
package model

// RuntimeError is the dynamic type of runtime panics under the engine.
type RuntimeError struct{ Msg string }

// Error implements error.
func (e RuntimeError) Error() string { return e.Msg }

// RuntimeError implements runtime.Error.
func (e RuntimeError) RuntimeError() {}
