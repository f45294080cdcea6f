package client_test

import (
	"testing"

	"code.cloudfoundry.org/log-cache/verif/vh"
)

// The searches of the thorough tier that coverage guides.

func FuzzC01_BoundedWalk(f *testing.F) { vh.Fuzz(f, TestC01_BoundedWalk) }
func FuzzC01_LiveWalk(f *testing.F)    { vh.Fuzz(f, TestC01_LiveWalk) }
func FuzzC02_WalkFollowsBackoffVisitorAndContext(f *testing.F) {
	vh.Fuzz(f, TestC02_WalkFollowsBackoffVisitorAndContext)
}
func FuzzC03_Window(f *testing.F)  { vh.Fuzz(f, TestC03_Window) }
func FuzzC06_Answers(f *testing.F) { vh.Fuzz(f, TestC06_Answers) }
func FuzzC07_Path(f *testing.F)    { vh.Fuzz(f, TestC07_Path) }
