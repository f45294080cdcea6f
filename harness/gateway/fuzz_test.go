package gateway_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC04_Read(f *testing.F)        { vh.Fuzz(f, TestC04_Read) }
func FuzzC05_PromQL(f *testing.F)      { vh.Fuzz(f, TestC05_PromQL) }
func FuzzC12_BadRequests(f *testing.F) { vh.Fuzz(f, TestC12_BadRequests) }
func FuzzC42_Names(f *testing.F)       { vh.Fuzz(f, TestC42_Names) }
