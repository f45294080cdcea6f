package store_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC17_Reads(f *testing.F)      { vh.Fuzz(f, TestC17_Reads) }
func FuzzC18_Eviction(f *testing.F)   { vh.Fuzz(f, TestC18_Eviction) }
func FuzzC19_Meta(f *testing.F)       { vh.Fuzz(f, TestC19_Meta) }
func FuzzC21_Consultant(f *testing.F) { vh.Fuzz(f, TestC21_Consultant) }
