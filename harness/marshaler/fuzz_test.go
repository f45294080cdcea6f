package marshaler_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC09_RoundTrip(f *testing.F) { vh.Fuzz(f, TestC09_RoundTrip) }
func FuzzC10_Document(f *testing.F)  { vh.Fuzz(f, TestC10_Document) }
func FuzzC11_AnyBytes(f *testing.F)  { vh.Fuzz(f, TestC11_AnyBytes) }
func FuzzC11_Streams(f *testing.F)   { vh.Fuzz(f, TestC11_Streams) }
