package main

import "runtime/metrics"

var memSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

func heapMB() uint64 {
	metrics.Read(memSample)
	return memSample[0].Value.Uint64() >> 20
}
