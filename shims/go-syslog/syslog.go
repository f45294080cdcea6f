// Package syslog is a stand-in for github.com/influxdata/go-syslog v2: the
// interfaces of that release over the rfc5424 and rfc5425 machines of the
// cached v1.0.1, whose grammar they share.
package syslog

import (
	"io"
	"time"
)

// Message is a parsed syslog message.
type Message interface {
	Valid() bool
	Priority() *uint8
	Version() uint16
	Facility() *uint8
	Severity() *uint8
	FacilityMessage() *string
	FacilityLevel() *string
	SeverityMessage() *string
	SeverityLevel() *string
	SeverityShortLevel() *string
	Timestamp() *time.Time
	Hostname() *string
	ProcID() *string
	Appname() *string
	MsgID() *string
	Message() *string
	StructuredData() *map[string]map[string]string
}

// Result is what a parser hands to its listener for every message.
type Result struct {
	Message Message
	Error   error
}

// ParserListener receives results as they are parsed.
type ParserListener func(*Result)

// Parser parses a stream of messages.
type Parser interface {
	Parse(r io.Reader)
	WithListener(ParserListener)
}
