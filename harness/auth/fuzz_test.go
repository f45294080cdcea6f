package auth_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC36_Tokens(f *testing.F)  { vh.Fuzz(f, TestC36_Tokens) }
func FuzzC37_History(f *testing.F) { vh.Fuzz(f, TestC37_History) }
func FuzzC38_Lines(f *testing.F)   { vh.Fuzz(f, TestC38_Lines) }
