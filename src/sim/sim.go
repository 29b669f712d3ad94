// Package sim is the harness side of the deterministic simulation built into
// the patched Go runtime. See zz_sim.go for the runtime side.
package sim

import (
	"runtime"
	"strings"
	"unsafe"
)

// Choice kinds; they mirror the constants in the runtime.
const (
	KSched   = 0
	KPreempt = 1
	KSelect  = 2
	KMap     = 3
	KPool    = 4
	KTimer   = 5
	KClock   = 6
	KFault   = 7  // inject a fault here?
	KWhen    = 8  // how long to wait before an asynchronous event
	KIO      = 9  // outcome of a simulated write
	KDevice  = 10 // simulated batched BLAS device behaviour
	KStall   = 11 // consumer stalls
	KGrad    = 12 // gradient source failures
	NKinds   = 24
)

var KindNames = [NKinds]string{"sched", "preempt", "select", "maporder", "poolpick", "timer", "clock", "fault", "when", "io", "device", "stall", "grad"}

// Config has the same layout as runtime.simConfig.
type Config struct {
	Seed      uint64
	Replay    bool
	SchedMode uint8
	Prob      [NKinds]uint32
	MaxPicks  uint64
	MaxYields uint64
	NCPU      int64
	Tick      int64
	WallStep  int64
	WallBase  int64
	PctDepth  int64
	PctLen    int64

	script    *uint64
	scriptLen int64
	scriptIdx [NKinds + 1]int64

	logBuf *uint64
	logCap int64

	evBuf *uint64
	evCap int64
}

// Stats has the same layout as runtime.simStats.
type Stats struct {
	Status    int64
	Picks     uint64
	Switches  uint64
	Yields    uint64
	Preempts  uint64
	MaxRun    uint64
	Gs        uint64
	Alive     int64
	SimTime   int64
	LogLen    int64
	LogDrop   int64
	EvLen     int64
	Hash      uint64
	SchedHash uint64
	TimersFwd uint64
	PoolGets  uint64
	PoolReuse uint64
	PoolNew   uint64
	MapIters  uint64
	MapPerms  uint64
	Selects   uint64
	ClockJump uint64
	Counts    [NKinds]uint64
	Nonzero   [NKinds]uint64
}

const (
	Quiescent   = 1
	PickBudget  = 2
	YieldBudget = 3
)

// GInfo has the same layout as runtime.simGInfo.
type GInfo struct {
	ID      uint64
	gopc    uintptr
	startpc uintptr
	status  uint32
	reason  uint8
	at      [12]uintptr
}

// Y is a potential context switch.
func Y() { runtime.ZZY() }

// On reports whether the caller runs inside a simulation.
func On() bool { return runtime.ZZOn() }

// Gid is the simulation-local number of the running goroutine.
func Gid() uint64 { return runtime.ZZGid() }

// Script is a recorded list of non-default choices.
type Script []uint64

func Entry(kind int, step, v uint64) uint64 { return uint64(kind)<<56 | step<<20 | v }
func EntryKind(e uint64) int                { return int(e >> 56) }
func EntryStep(e uint64) uint64             { return e >> 20 & (1<<36 - 1) }
func EntryVal(e uint64) uint64              { return e & (1<<20 - 1) }

// Buffers are the memory regions the runtime logs into.
type Buffers struct {
	Stats *Stats
	Log   []uint64
	Ev    []uint64
}

// Result of one simulation.
type Result struct {
	*Stats
	Log  []uint64
	Ev   []uint64
	Left []string
}

// Run executes body as the root goroutine of a simulation and returns when no
// simulated goroutine can make progress any more (or a budget is exhausted).
func Run(cfg *Config, script Script, b *Buffers, body func()) *Result {
	var sorted []uint64
	if cfg.Replay {
		for k := 0; k < NKinds; k++ {
			cfg.scriptIdx[k] = int64(len(sorted))
			for _, e := range script {
				if EntryKind(e) == k {
					sorted = append(sorted, e)
				}
			}
		}
		cfg.scriptIdx[NKinds] = int64(len(sorted))
		if len(sorted) > 0 {
			cfg.script = &sorted[0]
		}
		cfg.scriptLen = int64(len(sorted))
	}
	if len(b.Log) > 0 {
		cfg.logBuf = &b.Log[0]
		cfg.logCap = int64(len(b.Log))
	}
	if len(b.Ev) > 0 {
		cfg.evBuf = &b.Ev[0]
		cfg.evCap = int64(len(b.Ev))
	}
	runtime.ZZStart(unsafe.Pointer(cfg), unsafe.Pointer(b.Stats))
	go body()
	runtime.ZZWait()
	runtime.ZZFinish()
	st := b.Stats
	r := &Result{Stats: st, Log: b.Log[:st.LogLen]}
	if n := st.EvLen; n <= int64(len(b.Ev)) {
		r.Ev = b.Ev[:n]
	} else {
		r.Ev = b.Ev
	}
	if st.Alive > 0 {
		buf := make([]GInfo, 64)
		n := runtime.ZZLeft(unsafe.Pointer(&buf[0]), len(buf))
		for _, g := range buf[:n] {
			f := runtime.FuncForPC(g.startpc)
			name := "?"
			if f != nil {
				name = f.Name()
			}
			cname, line := "?", 0
			if f := runtime.FuncForPC(g.gopc - 1); f != nil {
				cname = f.Name()
				_, line = f.FileLine(g.gopc - 1)
			}
			_ = line
			at := ""
			for _, pc := range g.at {
				if pc == 0 {
					break
				}
				if f := runtime.FuncForPC(pc - 1); f != nil && !strings.HasPrefix(f.Name(), "runtime.") && !strings.HasPrefix(f.Name(), "sync.") && !strings.HasPrefix(f.Name(), "internal/") {
					at = " at " + f.Name()
					break
				}
			}
			r.Left = append(r.Left, name+" started by "+cname+" ["+runtime.ZZWaitReason(g.reason)+at+"]")
		}
	}
	runtime.KeepAlive(sorted)
	return r
}

// Choose makes a recorded choice in [0,n); 0 is the default.
func Choose(kind, n int) int { return int(runtime.ZZChoose(kind, uint32(n))) }

// Event adds a to the execution's event log (for determinism comparison).
func Event(a uint64) { runtime.ZZEvent(a) }

// JumpWall moves the simulated wall clock.
func JumpWall(d int64) { runtime.ZZSetWall(d) }

func Steps() (picks, yields uint64) { return runtime.ZZSteps() }
func Clock() int64                  { return runtime.ZZClock() }

// Collide makes hash codes of expressions coincide: p of 65536 are moved to
// one of k codes.
func Collide(seed, p, k uint64) { runtime.ZZCollide(seed, p, k) }
