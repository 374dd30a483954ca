package goast

import "testing"

func TestVerifSearch(t *testing.T) {
	vEdits(vRand(), []string{"TakeNext", "TakePrev", "RemoveNext", "RemovePrev", "Isolate"}, true)
}
