package promql_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC31_Select(f *testing.F)  { vh.Fuzz(f, TestC31_Select) }
func FuzzC32_Names(f *testing.F)   { vh.Fuzz(f, TestC32_Names) }
func FuzzC33_Sources(f *testing.F) { vh.Fuzz(f, TestC33_Sources) }
func FuzzC34_Times(f *testing.F)   { vh.Fuzz(f, TestC34_Times) }
func FuzzC34_Steps(f *testing.F)   { vh.Fuzz(f, TestC34_Steps) }
