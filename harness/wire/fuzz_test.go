package wire_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC45_Messages(f *testing.F) { vh.Fuzz(f, TestC45_Messages) }
