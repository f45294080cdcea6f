package blackbox_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC13_Reliability(f *testing.F) { vh.Fuzz(f, TestC13_Reliability) }
