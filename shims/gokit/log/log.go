// Package log is a stand-in for github.com/go-kit/kit/log.
package log

// Logger logs key/value pairs.
type Logger interface {
	Log(keyvals ...interface{}) error
}

type nop struct{}

func (nop) Log(...interface{}) error { return nil }

// NewNopLogger returns a logger that does nothing.
func NewNopLogger() Logger { return nop{} }
