package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// selftest proves determinism on a sample: every process is executed twice and
// every run of it once more alone in a fresh process; all hashes must agree.
func selftest(ids []string) int {
	defer cleanRunDir()
	all := len(ids) == 0
	if all {
		variant = "device" // has every property but one
	}
	for _, id := range ids {
		if v := variantOf(id); v != "" {
			variant = v
		}
	}
	bins[false] = buildHarness(false)
	info := loadInfo()
	race := false
	for _, p := range info {
		race = race || p.Race
	}
	if race {
		bins[true] = buildHarness(true)
	}
	if len(ids) == 0 {
		for id := range info {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	bad := 0
	for _, id := range ids {
		var mu sync.Mutex
		var wg sync.WaitGroup
		runs, same, alone, aloneSame := 0, 0, 0, 0
		sem := make(chan bool, workers())
		for i := 0; i < 24; i++ {
			wg.Add(1)
			sem <- true
			go func(i int) {
				defer func() { <-sem; wg.Done() }()
				j := job{prop: id, seed: jobSeed(77, id, i), n: 8, only: -1, tier: "quick", race: info[id].Race && i%4 == 3}
				if info[id].Cold && i%3 == 1 {
					j.cold, j.n = true, 1
				}
				a, b := runJob(j), runJob(j)
				if a.agg == nil || b.agg == nil {
					mu.Lock()
					fmt.Printf("%s: process %d failed: %s %v\n", id, i, a.err+b.err, a.crash)
					bad++
					mu.Unlock()
					return
				}
				mu.Lock()
				runs += a.agg.Runs
				if strings.Join(a.agg.Hashes, ",") == strings.Join(b.agg.Hashes, ",") {
					same += a.agg.Runs
				} else {
					fmt.Printf("%s: process seed %d differs\n", id, j.seed)
				}
				mu.Unlock()
				for k := 0; k < a.agg.Runs; k += 3 {
					o := j
					o.only = k
					c := runJob(o)
					mu.Lock()
					alone++
					if c.agg != nil && len(c.agg.MainHashes) == 1 && c.agg.MainHashes[0] == a.agg.MainHashes[k] {
						aloneSame++
					}
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
		fmt.Printf("%s: %d/%d runs identical when the process is repeated, %d/%d identical alone in a fresh process\n", id, same, runs, aloneSame, alone)
		if same != runs {
			bad++
		}
	}
	if bad > 0 {
		return 3
	}
	if all {
		return selftest([]string{"C26"})
	}
	return 0
}
