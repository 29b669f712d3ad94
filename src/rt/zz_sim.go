// Deterministic simulation support, compiled into package runtime through
// "go build -overlay". Nothing in here is active until simStart is called.
//
// While a simulation is on, exactly one P exists and every goroutine started
// (transitively) from the simulation root is scheduled by simPick. All
// nondeterministic outcomes are produced by simChoose, so one configuration
// (seed or recorded choice list) gives exactly one execution.

package runtime

import (
	"internal/abi"
	"unsafe"
)

const (
	simKSched   = 0 // which runnable goroutine runs next
	simKPreempt = 1 // preempt the running goroutine at a yield point
	simKSelect  = 2 // order in which ready select cases are considered
	simKMap     = 3 // map iteration order
	simKPool    = 4 // which object sync.Pool.Get hands out
	simKTimer   = 5 // let the next timer expire although goroutines are runnable
	simKClock   = 6 // wall clock faults
	simKUser    = 7 // first kind available to the harness
	simNKinds   = 24
)

const simMaxRunq = 1 << 14

// simConfig mirrors sim.Config in the harness (same layout).
type simConfig struct {
	seed      uint64
	replay    bool
	schedMode uint8 // 0 fifo+prob, 1 uniform random, 2 priorities
	prob      [simNKinds]uint32
	maxPicks  uint64
	maxYields uint64
	ncpu      int64
	tick      int64 // simulated ns that pass at every scheduling decision
	wallStep  int64 // wall clock granularity
	wallBase  int64
	pctDepth  int64
	pctLen    int64

	// recorded choices: entries kind<<56 | step<<20 | value, sorted per kind
	script    *uint64
	scriptLen int64
	scriptIdx [simNKinds + 1]int64

	// log of non-default choices
	logBuf *uint64
	logCap int64

	// event tail ring (goroutine id, kind) for traces
	evBuf *uint64
	evCap int64
}

type simStats struct {
	status    int64 // 1 quiescent, 2 pick budget, 3 yield budget
	picks     uint64
	switches  uint64
	yields    uint64
	preempts  uint64
	maxRun    uint64
	gs        uint64
	alive     int64
	simTime   int64
	logLen    int64
	logDrop   int64
	evLen     int64
	hash      uint64
	schedHash uint64
	timersFwd uint64
	poolGets  uint64
	poolReuse uint64
	poolNew   uint64
	mapIters  uint64
	mapPerms  uint64
	selects   uint64
	clockJump uint64
	counts    [simNKinds]uint64
	nonzero   [simNKinds]uint64
}

var (
	simOn       bool
	simEpoch    uint64
	simCfg      *simConfig
	simSt       *simStats
	simMainG    guintptr
	simMainWait bool
	simRng      uint64
	simRandRng  uint64
	simRunq     [simMaxRunq]guintptr
	simRunqN    int
	simNextPre  uint64
	simNow      int64
	simWallOff  int64
	simLastG    uint64
	simCursor   [simNKinds]int64
	simStop     bool
	simPctNext  [64]uint64
	simPctLow   int64
)

const simMonoBase = int64(1) << 50

//go:nosplit
func simMix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simNext() uint64 {
	simRng += 0x9e3779b97f4a7c15
	return simMix(simRng)
}

//go:nosplit
func simRand() uint64 {
	simRandRng += 0x9e3779b97f4a7c15
	return simMix(simRandRng)
}

//go:nosplit
func simAt(p *uint64, i int64) *uint64 {
	return (*uint64)(add(unsafe.Pointer(p), uintptr(i)*8))
}

//go:nosplit
func simHash(a uint64) {
	h := simSt.hash
	h ^= a
	h *= 0x100000001b3
	h ^= h >> 29
	simSt.hash = h
}

// simEvent appends to the event ring; it never affects the execution.
//
//go:nosplit
func simEvent(a uint64) {
	simHash(a)
	if simCfg.evCap > 0 {
		*simAt(simCfg.evBuf, simSt.evLen%simCfg.evCap) = a
	}
	simSt.evLen++
}

//go:nosplit
func simLog(kind uint64, step uint64, v uint64) {
	if simSt.logLen < simCfg.logCap {
		*simAt(simCfg.logBuf, simSt.logLen) = kind<<56 | (step&(1<<36-1))<<20 | v&(1<<20-1)
		simSt.logLen++
	} else {
		simSt.logDrop++
	}
}

// simScripted returns the recorded value for (kind, step), 0 if none.
//
//go:nosplit
func simScripted(kind int, step uint64) uint64 {
	for simCursor[kind] < simCfg.scriptIdx[kind+1] {
		e := *simAt(simCfg.script, simCursor[kind])
		s := e >> 20 & (1<<36 - 1)
		if s > step {
			return 0
		}
		simCursor[kind]++
		if s == step {
			return e & (1<<20 - 1)
		}
	}
	return 0
}

// simCalm reports that half of the budget or of the log is used up. From then on goroutines
// run in turn and uninterrupted for long, so that whatever can end does.
//
//go:nosplit
func simCalm() bool {
	return simSt.picks >= simCfg.maxPicks/2 || simSt.yields >= simCfg.maxYields/2 || simSt.logLen >= simCfg.logCap/2
}

// simChoose makes a choice in [0,n). 0 is the default (fault-free, in-order)
// outcome.
//
//go:nosplit
func simChoose(kind int, n uint32) uint32 {
	step := simSt.counts[kind]
	simSt.counts[kind]++
	if n <= 1 {
		return 0
	}
	var v uint32
	if simCfg.replay {
		v = uint32(simScripted(kind, step)) % n
	} else if simSt.logLen < simCfg.logCap/8*7 {
		r := simNext()
		if uint32(r&0xffff) < simCfg.prob[kind] && !(simCalm() && (kind == simKSched || kind == simKTimer || kind == simKClock)) {
			v = 1 + uint32((r>>32)*uint64(n-1)>>32)
		}
	}
	if v != 0 {
		simSt.nonzero[kind]++
		simLog(uint64(kind), step, uint64(v))
	}
	simHash(uint64(kind)<<56 | uint64(v))
	return v
}

func simArmPreempt() {
	if simCfg.replay {
		simNextPre = ^uint64(0)
		if simCursor[simKPreempt] < simCfg.scriptIdx[simKPreempt+1] {
			e := *simAt(simCfg.script, simCursor[simKPreempt])
			simCursor[simKPreempt]++
			simNextPre = e >> 20 & (1<<36 - 1)
		}
		return
	}
	p := simCfg.prob[simKPreempt] // per 2^20 yields
	if p == 0 {
		simNextPre = ^uint64(0)
		return
	}
	if simCalm() {
		simNextPre = simSt.yields + 20000
		return
	}
	mean := uint64(1<<20) / uint64(p)
	if mean < 1 {
		mean = 1
	}
	// uniform on [1, 2*mean], close enough to geometric for search purposes
	simNextPre = simSt.yields + 1 + simNext()%(2*mean)
}

func simStart(cfg *simConfig, st *simStats) {
	if simOn {
		throw("simStart: already on")
	}
	if gomaxprocs != 1 {
		throw("simStart: needs GOMAXPROCS=1")
	}
	simCfg = cfg
	simSt = st
	*st = simStats{}
	st.hash = 0xcbf29ce484222325
	st.schedHash = 0xcbf29ce484222325
	simEpoch++
	simRng = simMix(cfg.seed ^ 0x5bf03635)
	simRandRng = simMix(cfg.seed ^ 0x77aa1234)
	simRunqN = 0
	simNow = simMonoBase
	simWallOff = cfg.wallBase - simMonoBase
	simLastG = 0
	for i := range simCursor {
		simCursor[i] = cfg.scriptIdx[i]
	}
	simStop = false
	simPctLow = 0
	for i := range simPctNext {
		simPctNext[i] = 0
	}
	if cfg.schedMode == 2 && !cfg.replay {
		for i := int64(0); i < cfg.pctDepth && i < int64(len(simPctNext)); i++ {
			simPctNext[i] = 1 + simNext()%uint64(cfg.pctLen)
		}
	}
	simMainG.set(getg())
	simArmPreempt()
	simOn = true
}

// simWait parks the harness goroutine until the simulation is quiescent or a
// budget is exhausted.
func simWait() {
	simMainWait = true
	gopark(nil, nil, waitReasonSelectNoCases, traceBlockGeneric, 1)
}

func simFinish() {
	simOn = false
	simSt.simTime = simNow - simMonoBase
	simMainG = 0
}

//go:nosplit
func simOwns(gp *g) bool {
	return gp.simEpoch == simEpoch && simOn
}

// simEnqueue takes over queueing of simulated goroutines. Reports whether it did.
//
//go:nosplit
//go:nowritebarrierrec
func simEnqueue(gp *g) bool {
	if gp.simEpoch == 0 {
		return false
	}
	if gp.simEpoch != simEpoch || !simOn {
		// A leftover of an earlier simulation became runnable. It stays
		// off every queue: it must never run again.
		return true
	}
	if simRunqN >= simMaxRunq {
		throw("simEnqueue: too many runnable goroutines")
	}
	simRunq[simRunqN].set(gp)
	simRunqN++
	return true
}

func simWakeMain(status int64) *g {
	if !simMainWait {
		return nil
	}
	simMainWait = false
	simStop = true
	simSt.status = status
	gp := simMainG.ptr()
	casgstatus(gp, _Gwaiting, _Grunnable)
	return gp
}

func simPick(pp *p) (gp *g, again bool) {
	if simStop {
		return nil, false
	}
	if simSt.picks >= simCfg.maxPicks {
		return simWakeMain(2), false
	}
	if simSt.yields >= simCfg.maxYields {
		return simWakeMain(3), false
	}
	if simRunqN == 0 {
		if when := pp.timers.wakeTime(); when != 0 {
			if when > simNow {
				simNow = when
			} else {
				simNow++
			}
			simSt.timersFwd++
			return nil, true
		}
		return simWakeMain(1), false
	}
	simSt.picks++
	simNow += simCfg.tick
	if when := pp.timers.wakeTime(); when > simNow {
		if simChoose(simKTimer, 2) != 0 {
			simNow = when
			return nil, true
		}
	}
	if simCfg.prob[simKClock] != 0 || simCfg.replay {
		if v := simChoose(simKClock, 8); v != 0 {
			simSt.clockJump++
			switch v {
			case 1:
				simWallOff -= 3600 * 1000000000
			case 2:
				simWallOff += 3600 * 1000000000
			case 3:
				simWallOff -= 1000
			case 4:
				simWallOff -= 1000000
			case 5:
				simWallOff += 1
			case 6:
				simWallOff -= 1
			case 7:
				simWallOff += 50000000
			}
		}
	}
	n := simRunqN
	if uint64(n) > simSt.maxRun {
		simSt.maxRun = uint64(n)
	}
	idx := 0
	if n > 1 {
		switch {
		case simCfg.replay || simCfg.schedMode == 0:
			idx = int(simChoose(simKSched, uint32(n)))
		default:
			step := simSt.counts[simKSched]
			simSt.counts[simKSched]++
			if simCalm() {
				idx = 0
			} else if simCfg.schedMode == 1 {
				idx = int(simNext() % uint64(n))
			} else {
				var best uint64
				for i := 0; i < n; i++ {
					if p := simRunq[i].ptr().simPrio; i == 0 || p > best {
						best, idx = p, i
					}
				}
				for i := int64(0); i < simCfg.pctDepth; i++ {
					if simPctNext[i] == step+1 {
						// demote the current best below everything else
						simPctLow++
						simRunq[idx].ptr().simPrio = uint64(1<<20) - uint64(simPctLow)
					}
				}
			}
			if idx != 0 {
				simSt.nonzero[simKSched]++
				simLog(simKSched, step, uint64(idx))
			}
		}
	}
	gp = simRunq[idx].ptr()
	for i := idx; i < n-1; i++ {
		simRunq[i] = simRunq[i+1]
	}
	simRunqN--
	if gp.simid != simLastG {
		simSt.switches++
		simSt.schedHash = (simSt.schedHash ^ gp.simid ^ simSt.yields<<20) * 0x100000001b3
	}
	simLastG = gp.simid
	simEvent(1<<60 | gp.simid<<32 | simSt.yields&0xffffffff)
	return gp, false
}

// simNewG numbers a new goroutine created by callergp.
//
//go:nosplit
func simNewG(newg, callergp *g) {
	newg.simEpoch = 0
	newg.simid = 0
	if !simOn {
		return
	}
	if callergp.simEpoch == simEpoch || callergp == simMainG.ptr() {
		newg.simEpoch = simEpoch
		simSt.gs++
		newg.simid = simSt.gs
		newg.simPrio = 1<<32 + simNext()>>32
		simSt.alive++
	}
}

//go:nosplit
func simGDead(gp *g) {
	if gp.simEpoch != 0 && gp.simEpoch == simEpoch && simOn {
		simSt.alive--
		simEvent(2<<60 | gp.simid)
	}
	gp.simEpoch = 0
}

// simYield is a potential context switch.
//
//go:nosplit
func simYield() {
	if !simOn {
		return
	}
	simYieldSlow()
}

//go:nosplit
func simYieldSlow() {
	gp := getg()
	if gp.simEpoch != simEpoch || gp.m.curg != gp {
		return
	}
	simSt.yields++
	if simSt.yields < simNextPre {
		if simSt.yields < simCfg.maxYields {
			return
		}
	} else {
		mcall(simPreempt_m)
		return
	}
	mcall(goschedguarded_m)
}

func simPreempt_m(gp *g) {
	if !canPreemptM(gp.m) {
		gogo(&gp.sched) // never return; retry at the next yield point
	}
	simLog(simKPreempt, simSt.yields, 1)
	simSt.preempts++
	simSt.nonzero[simKPreempt]++
	simArmPreempt()
	goschedImpl(gp, false)
}

// simTimeNow is the simulated clock.
//
//go:nosplit
func simTimeNow() (sec int64, nsec int32, mono int64, ok bool) {
	if !simOn || getg().m.curg == nil || getg().m.curg.simEpoch != simEpoch {
		return 0, 0, 0, false
	}
	w := simNow + simWallOff
	if simCfg.wallStep > 1 {
		w -= w % simCfg.wallStep
	}
	return w / 1000000000, int32(w % 1000000000), simNow, true
}

func simSetWall(delta int64) {
	simWallOff += delta
}

// simSleepSteps etc. are built in the harness on top of simYield.

type simGInfo struct {
	id      uint64
	gopc    uintptr
	startpc uintptr
	status  uint32
	reason  uint8
	at      [12]uintptr // innermost frames
}

// simLeft lists simulated goroutines of the current epoch that still exist.
func simLeft(buf *simGInfo, max int) int {
	n := 0
	forEachG(func(gp *g) {
		if gp.simEpoch == simEpoch && readgstatus(gp)&^_Gscan != _Gdead && n < max {
			e := (*simGInfo)(add(unsafe.Pointer(buf), uintptr(n)*unsafe.Sizeof(simGInfo{})))
			e.id = gp.simid
			e.gopc = gp.gopc
			e.startpc = gp.startpc
			e.status = readgstatus(gp)
			e.reason = uint8(gp.waitreason)
			for i := range e.at {
				e.at[i] = 0
			}
			if st := readgstatus(gp); st == _Gwaiting || st == _Grunnable {
				tracebackPCsOf(gp, e.at[:])
			}
			n++
		}
	})
	return n
}

// tracebackPCsOf collects the frames of a goroutine that is not running.
func tracebackPCsOf(gp *g, pcs []uintptr) {
	systemstack(func() {
		var u unwinder
		i := 0
		for u.init(gp, unwindSilentErrors); u.valid() && i < len(pcs); u.next() {
			pcs[i] = u.frame.pc
			i++
		}
	})
}

func simWaitReason(r uint8) string { return waitReason(r).String() }

//go:nosplit
func simIsOn() bool { return simOn && getg().m.curg != nil && getg().m.curg.simEpoch == simEpoch }

//go:nosplit
func simGid() uint64 { return getg().m.curg.simid }

//go:nosplit
func simEpochNow() uint64 { return simEpoch }

// simUserChoose is simChoose for harness and overlaid library code.
//
//go:nosplit
func simUserChoose(kind int, n uint32) uint32 {
	if !simIsOn() {
		return 0
	}
	return simChoose(kind, n)
}

//go:nosplit
func simUserEvent(a uint64) {
	if simIsOn() {
		simEvent(3<<60 | a&(1<<60-1))
	}
}

//go:nosplit
func simSteps() (picks, yields uint64) { return simSt.picks, simSt.yields }

//go:nosplit
func simClock() int64 { return simNow - simMonoBase }

func simPoolStat(reuse bool) {
	simSt.poolGets++
	if reuse {
		simSt.poolReuse++
	} else {
		simSt.poolNew++
	}
}

// ---- map iteration ----

type simIter struct {
	ptrs []unsafe.Pointer
	pos  int
	n    int // entries when the table was last looked at
}

const simIterB = 255

// simMapKeys copies the keys that are not known yet, in canonical order.
func simMapKeys(t *maptype, h *hmap, known []unsafe.Pointer) []unsafe.Pointer {
	n := h.count
	var ps []unsafe.Pointer
	if n == 0 {
		return nil
	}
	ks := t.Key.Size_
	var tmp hiter
	simMapIterPlain = true
	mapiterinit(t, h, &tmp)
	ps = make([]unsafe.Pointer, 0, n)
	buf := newarray(t.Key, n)
outer:
	for ; tmp.key != nil && len(ps) < n; mapiternext(&tmp) {
		for _, k := range known {
			if t.Key.Equal(k, tmp.key) {
				continue outer
			}
		}
		p := add(buf, uintptr(len(ps))*ks)
		typedmemmove(t.Key, p, tmp.key)
		ps = append(ps, p)
	}
	simMapIterPlain = false
	k := t.Key.Kind_ & abi.KindMask
	if k == abi.Pointer || k == abi.UnsafePointer || k == abi.Chan {
		for i := 1; i < len(ps); i++ {
			x := ps[i]
			xv := *(*uintptr)(x)
			j := i - 1
			for j >= 0 && *(*uintptr)(ps[j]) > xv {
				ps[j+1] = ps[j]
				j--
			}
			ps[j+1] = x
		}
	}
	if k == abi.String {
		// strings made from addresses hash differently in every process
		for i := 1; i < len(ps); i++ {
			x := ps[i]
			xv := *(*string)(x)
			j := i - 1
			for j >= 0 && *(*string)(ps[j]) > xv {
				ps[j+1] = ps[j]
				j--
			}
			ps[j+1] = x
		}
	}
	return ps
}

func simShuffle(ps []unsafe.Pointer, v uint64) {
	r := v * 0x9e3779b97f4a7c15
	for i := len(ps) - 1; i > 0; i-- {
		r += 0x9e3779b97f4a7c15
		j := int(simMix(r) % uint64(i+1))
		ps[i], ps[j] = ps[j], ps[i]
	}
}

// simMapIter replaces the iteration order of one range over a map by a
// canonical order (by address for pointer keys, by content for strings, table
// order otherwise)
// permuted by a recorded choice. Reports whether it took over.
func simMapIter(t *maptype, h *hmap, it *hiter) bool {
	if !simIsOn() || !t.ReflexiveKey() || h.flags&hashWriting != 0 {
		return false
	}
	si := new(simIter)
	si.ptrs = simMapKeys(t, h, nil)
	si.n = len(si.ptrs)
	simSt.mapIters++
	if len(si.ptrs) > 1 {
		if v := simChoose(simKMap, 1<<16); v != 0 {
			simSt.mapPerms++
			simShuffle(si.ptrs, uint64(v))
		}
	}
	it.h = h
	it.B = simIterB
	it.buckets = unsafe.Pointer(si)
	simMapNext(it)
	return true
}

var simMapIterPlain bool

func simMapNext(it *hiter) {
	si := (*simIter)(it.buckets)
	for {
		if si.pos >= len(si.ptrs) {
			// entries added meanwhile may be visited or not
			if it.h.count <= si.n || it.h.count > 512 || !simIsOn() {
				break
			}
			si.n = it.h.count
			v := uint64(simChoose(simKMap, 1<<16))
			if v == 0 {
				break
			}
			more := simMapKeys(it.t, it.h, si.ptrs)
			simShuffle(more, v)
			for _, k := range more {
				if v = simMix(v); v&3 != 0 {
					si.ptrs = append(si.ptrs, k)
				}
			}
			continue
		}
		k := si.ptrs[si.pos]
		si.pos++
		rk, re := mapaccessK(it.t, it.h, k)
		if rk == nil {
			continue
		}
		it.key = rk
		it.elem = re
		return
	}
	it.key = nil
	it.elem = nil
}

// ---- sync.Pool ----

type simPool struct {
	epoch uint64
	q     []any
}

// simPoolPut keeps x for an arbitrary later Get.
func simPoolPut(pp unsafe.Pointer, x any) {
	p := (*simPool)(pp)
	if p.epoch != simEpoch {
		p.epoch = simEpoch
		p.q = nil
	}
	n := len(p.q)
	if n == cap(p.q) {
		// no append or copy: they report to the race detector
		q := make([]any, n, 2*n+16)
		for i := range q {
			q[i] = p.q[i]
		}
		p.q = q
	}
	if n < 4096 {
		p.q = p.q[:n+1]
		p.q[n] = x
	}
}

// simPoolGet returns any of the objects put before, or nil.
func simPoolGet(pp unsafe.Pointer) any {
	p := (*simPool)(pp)
	if p.epoch != simEpoch || len(p.q) == 0 {
		simPoolStat(false)
		return nil
	}
	n := len(p.q)
	v := int(simChoose(simKPool, uint32(n+1)))
	if v == n {
		simPoolStat(false)
		return nil
	}
	simPoolStat(true)
	i := n - 1 - v
	x := p.q[i]
	for ; i < n-1; i++ {
		p.q[i] = p.q[i+1]
	}
	p.q[n-1] = nil
	p.q = p.q[:n-1]
	return x
}

// ---- exported to the harness and to instrumented code ----

// ZZY is a potential context switch; the source instrumenter puts one in front
// of every statement of the code under test.
func ZZY() {
	if simOn {
		simYieldSlow()
	}
}

func ZZStart(cfg, st unsafe.Pointer)         { simStart((*simConfig)(cfg), (*simStats)(st)) }
func ZZWait()                                { simWait() }
func ZZFinish()                              { simFinish() }
func ZZLeft(buf unsafe.Pointer, max int) int { return simLeft((*simGInfo)(buf), max) }
func ZZWaitReason(r uint8) string            { return simWaitReason(r) }
func ZZChoose(kind int, n uint32) uint32     { return simUserChoose(kind, n) }
func ZZEvent(a uint64)                       { simUserEvent(a) }
func ZZSetWall(d int64)                      { simSetWall(d) }
func ZZSteps() (picks, yields uint64)        { return simSteps() }
func ZZClock() int64                         { return simClock() }
func ZZOn() bool                             { return simIsOn() }
func ZZGid() uint64                          { return simGid() }

// Hash codes that are made to coincide: one in 65536/zzHashP is moved to one of
// zzHashK codes. Which ones depends on nothing but the code and the seed.
var zzHashSeed, zzHashP, zzHashK uint64

func ZZCollide(seed, p, k uint64) { zzHashSeed, zzHashP, zzHashK = seed, p, k }

func ZZHash(h uint32) uint32 {
	if zzHashP == 0 {
		return h
	}
	x := uint64(h) ^ zzHashSeed
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	x ^= x >> 31
	if x&0xffff >= zzHashP {
		return h
	}
	return 0x5eed0000 + uint32((x>>32)%zzHashK)
}
