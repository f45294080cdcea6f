package datareader_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC15_Read(f *testing.F) { vh.Fuzz(f, TestC15_Read) }
