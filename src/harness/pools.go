package main

import (
	"strings"
	_ "unsafe"

	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

// The tensor library keeps unused tensors in a channel.
//
//go:linkname densePool gorgonia.org/tensor.densePool
var densePool chan *tensor.Dense

// resetPools makes the pool what it is in a new process, or in one that has
// been running for long.
func resetPools(room int) {
	for {
		select {
		case <-densePool:
			continue
		default:
		}
		break
	}
	if room > 0 {
		ts := make([]*tensor.Dense, cap(densePool)-room)
		for i := range ts {
			ts[i] = tensor.New(tensor.Of(tensor.Float64), tensor.WithShape(1))
		}
		for _, t := range ts {
			tensor.ReturnTensor(t)
		}
	}
}

// poolBlocked reports whether a goroutine hangs in the tensor library because
// two goroutines gave tensors back at the same time and there was room for one.
func poolBlocked(res *sim.Result) bool {
	for _, l := range res.Left {
		if strings.Contains(l, "[chan send at gorgonia.org/tensor.ReturnTensor]") {
			return true
		}
	}
	return false
}
