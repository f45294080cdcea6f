// Package level is a stand-in for github.com/go-kit/kit/log/level.
package level

import "github.com/go-kit/kit/log"

// Error returns l.
func Error(l log.Logger) log.Logger { return l }
