package routing_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC22_Read(f *testing.F)    { vh.Fuzz(f, TestC22_Read) }
func FuzzC23_Table(f *testing.F)   { vh.Fuzz(f, TestC23_Table) }
func FuzzC24_Ingress(f *testing.F) { vh.Fuzz(f, TestC24_Ingress) }
func FuzzC25_Read(f *testing.F)    { vh.Fuzz(f, TestC25_Read) }
func FuzzC27_Ranges(f *testing.F)  { vh.Fuzz(f, TestC27_Ranges) }
