package goast

import "testing"

func TestVerifSearch(t *testing.T) {
	vEdits(vRand(), []string{"InsertNext", "InsertPrev", "ReplaceNext", "ReplacePrev"}, true)
}
