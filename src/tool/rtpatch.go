package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A patch replaces old (which must occur exactly n times, default 1) by new in
// a file of the Go distribution. The patched copies are only used through
// "go build -overlay"; the distribution itself is never modified.
type patch struct {
	file     string
	old, new string
	n        int
}

var rtPatches = []patch{
	{file: "runtime/runtime2.go", old: "\tgcAssistBytes int64\n}", new: "\tgcAssistBytes int64\n\n\tsimEpoch uint64\n\tsimid    uint64\n\tsimPrio  uint64\n}"},

	{file: "runtime/proc.go", old: "func runqput(pp *p, gp *g, next bool) {\n", new: "func runqput(pp *p, gp *g, next bool) {\n\tif simEnqueue(gp) {\n\t\treturn\n\t}\n"},
	{file: "runtime/proc.go", old: "func globrunqput(gp *g) {\n", new: "func globrunqput(gp *g) {\n\tif simEnqueue(gp) {\n\t\treturn\n\t}\n"},
	{file: "runtime/proc.go", old: "\t// Poll network.\n\t// This netpoll is only an optimization before", new: "\tif simOn {\n\t\tgp, again := simPick(pp)\n\t\tif again {\n\t\t\tgoto top\n\t\t}\n\t\tif gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Poll network.\n\t// This netpoll is only an optimization before"},
	{file: "runtime/proc.go", old: "\tnewg.startpc = fn.fn\n\tif isSystemGoroutine(newg, false) {", new: "\tnewg.startpc = fn.fn\n\tsimNewG(newg, callergp)\n\tif isSystemGoroutine(newg, false) {"},
	{file: "runtime/proc.go", old: "\t\tif mainStarted {\n\t\t\twakep()\n\t\t}\n\t})\n}\n\n// Create a new g in state", new: "\t\tif mainStarted {\n\t\t\twakep()\n\t\t}\n\t})\n\tsimYield()\n}\n\n// Create a new g in state"},
	{file: "runtime/proc.go", old: "\tcasgstatus(gp, _Grunning, _Gdead)\n\tgcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n\tif isSystemGoroutine", new: "\tcasgstatus(gp, _Grunning, _Gdead)\n\tsimGDead(gp)\n\tgcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n\tif isSystemGoroutine"},
	{file: "runtime/proc.go", old: "func retake(now int64) uint32 {\n", new: "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n"},
	{file: "runtime/proc.go", old: "func LockOSThread() {\n", new: "func LockOSThread() {\n\tif simIsOn() {\n\t\treturn\n\t}\n"},
	{file: "runtime/proc.go", old: "func UnlockOSThread() {\n", new: "func UnlockOSThread() {\n\tif simIsOn() {\n\t\treturn\n\t}\n"},

	// No monitor thread: what it hands off depends on real time, and the threads
	// it makes the runtime start move heap addresses.
	{file: "runtime/proc.go", old: "const haveSysmon = GOARCH != \"wasm\"\n", new: "const haveSysmon = false\n"},

	{file: "runtime/time_nofake.go", old: "\treturn nanotime1()\n", new: "\tif simOn && getg().m.p != 0 {\n\t\treturn simNow\n\t}\n\treturn nanotime1()\n"},

	{file: "runtime/rand.go", old: "\tglobalRand.state.Init(*seed)\n", new: "\t*seed = [32]byte{1, 2, 3, 4}\n\tglobalRand.state.Init(*seed)\n"},
	{file: "runtime/rand.go", old: "func rand32() uint32 {\n", new: "func rand32() uint32 {\n\tif simIsOn() {\n\t\treturn 0\n\t}\n"},
	{file: "runtime/rand.go", old: "func rand() uint64 {\n", new: "func rand() uint64 {\n\tif simOn && simIsOn() {\n\t\treturn simRand()\n\t}\n"},

	{file: "runtime/map.go", old: "h.hash0 = uint32(rand())", new: "h.hash0 = rand32()", n: 4},
	{file: "runtime/map_fast32.go", old: "h.hash0 = uint32(rand())", new: "h.hash0 = rand32()"},
	{file: "runtime/map_fast64.go", old: "h.hash0 = uint32(rand())", new: "h.hash0 = rand32()"},
	{file: "runtime/map_faststr.go", old: "h.hash0 = uint32(rand())", new: "h.hash0 = rand32()"},
	{file: "runtime/map.go", old: "\tif unsafe.Sizeof(hiter{})/goarch.PtrSize != 12 {", new: "\tif simOn && !simMapIterPlain && simMapIter(t, h, it) {\n\t\treturn\n\t}\n\n\tif unsafe.Sizeof(hiter{})/goarch.PtrSize != 12 {"},
	{file: "runtime/map.go", old: "\tr := uintptr(rand())\n\tit.startBucket", new: "\tr := uintptr(rand())\n\tif simOn {\n\t\tr = 0\n\t}\n\tit.startBucket"},
	{file: "runtime/map.go", old: "\tif h.flags&hashWriting != 0 {\n\t\tfatal(\"concurrent map iteration and map write\")\n\t}\n\tt := it.t\n", new: "\tif h.flags&hashWriting != 0 {\n\t\tfatal(\"concurrent map iteration and map write\")\n\t}\n\tif it.B == simIterB {\n\t\tsimMapNext(it)\n\t\treturn\n\t}\n\tt := it.t\n"},

	{file: "runtime/select.go", old: "\t// generate permuted order\n\tnorder := 0\n", new: "\tvar simPerm uint32\n\tsimSel := simOn && simIsOn()\n\tif simSel {\n\t\tsimYield()\n\t\tsimSt.selects++\n\t\tif ncases > 1 {\n\t\t\tsimPerm = simChoose(simKSelect, 1<<10)\n\t\t}\n\t}\n\n\t// generate permuted order\n\tnorder := 0\n"},
	{file: "runtime/select.go", old: "\t\tj := cheaprandn(uint32(norder + 1))\n", new: "\t\tj := uint32(norder)\n\t\tif !simSel {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t} else if simPerm != 0 {\n\t\t\tj = uint32(simMix(uint64(simPerm)*0x9e3779b97f4a7c15+uint64(norder)) % uint64(norder+1))\n\t\t}\n"},

	{file: "runtime/chan.go", old: "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", new: "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tsimYield()\n"},
	{file: "runtime/chan.go", old: "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", new: "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tsimYield()\n"},
	{file: "runtime/chan.go", old: "func closechan(c *hchan) {\n", new: "func closechan(c *hchan) {\n\tsimYield()\n"},

	{file: "runtime/stack.go", old: "if gcphase == _GCoff && s.allocCount == 0 {", new: "if false && gcphase == _GCoff && s.allocCount == 0 {"},
	{file: "runtime/stack.go", old: "\t\tif gcphase == _GCoff {\n\t\t\t// Free the stack immediately", new: "\t\tif false && gcphase == _GCoff {\n\t\t\t// Free the stack immediately"},

	{file: "runtime/debug.go", old: "func GOMAXPROCS(n int) int {\n", new: "func GOMAXPROCS(n int) int {\n\tif simOn && simIsOn() && simCfg.ncpu > 0 {\n\t\treturn int(simCfg.ncpu)\n\t}\n"},
	{file: "runtime/debug.go", old: "func NumCPU() int {\n", new: "func NumCPU() int {\n\tif simOn && simIsOn() && simCfg.ncpu > 0 {\n\t\treturn int(simCfg.ncpu)\n\t}\n"},

	{file: "time/time.go", old: "\tsec, nsec, mono := now()\n\tmono -= startNano\n", new: "\tsec, nsec, mono, ok := simTimeNow()\n\tif !ok {\n\t\tsec, nsec, mono = now()\n\t}\n\tmono -= startNano\n"},
	{file: "time/time.go", old: "// Provided by package runtime.\nfunc now() (sec int64, nsec int32, mono int64)\n", new: "// Provided by package runtime.\nfunc now() (sec int64, nsec int32, mono int64)\n\n//go:linkname simTimeNow runtime.simTimeNow\nfunc simTimeNow() (sec int64, nsec int32, mono int64, ok bool)\n"},

	{file: "sync/pool.go", old: "\tNew func() any\n}", new: "\tNew func() any\n\n\tsim struct {\n\t\tepoch uint64\n\t\tq     []any\n\t}\n}\n\n//go:linkname simIsOn runtime.simIsOn\nfunc simIsOn() bool\n\n//go:linkname simPoolPut runtime.simPoolPut\nfunc simPoolPut(p unsafe.Pointer, x any)\n\n//go:linkname simPoolGet runtime.simPoolGet\nfunc simPoolGet(p unsafe.Pointer) any\n"},
	{file: "sync/pool.go", old: "\tif x == nil {\n\t\treturn\n\t}\n\tif race.Enabled {\n", new: "\tif x == nil {\n\t\treturn\n\t}\n\tif simIsOn() {\n\t\tif race.Enabled {\n\t\t\trace.ReleaseMerge(poolRaceAddr(x))\n\t\t}\n\t\tsimPoolPut(unsafe.Pointer(&p.sim), x)\n\t\treturn\n\t}\n\tif race.Enabled {\n"},
	{file: "sync/pool.go", old: "func (p *Pool) Get() any {\n", new: "func (p *Pool) Get() any {\n\tif simIsOn() {\n\t\tx := simPoolGet(unsafe.Pointer(&p.sim))\n\t\tif x == nil {\n\t\t\tif p.New != nil {\n\t\t\t\tx = p.New()\n\t\t\t}\n\t\t} else if race.Enabled {\n\t\t\trace.Acquire(poolRaceAddr(x))\n\t\t}\n\t\treturn x\n\t}\n"},

	{file: "os/file.go", old: "func (f *File) Read(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n", new: "func (f *File) Read(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n\tif ZZRead != nil {\n\t\tk, e := ZZRead(f.name, len(b))\n\t\tif e != nil {\n\t\t\treturn 0, f.wrapErr(\"read\", e)\n\t\t}\n\t\tb = b[:k]\n\t\tdefer func() { ZZDone(f.name, n) }()\n\t}\n"},
	{file: "os/file.go", old: "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\ttestlog.Open(name)\n", new: "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\ttestlog.Open(name)\n\tif ZZOpen != nil {\n\t\tif e := ZZOpen(name); e != nil {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: e}\n\t\t}\n\t}\n"},
	{file: "os/file.go", old: "\tf.appendMode = flag&O_APPEND != 0\n", new: "\tf.appendMode = flag&O_APPEND != 0\n\tif ZZOpened != nil {\n\t\tZZOpened(f)\n\t}\n"},
	{file: "os/file.go", old: "// ReadAt reads len(b) bytes from the File starting", new: "// ZZOpen, ZZOpened, ZZRead and ZZDone stand between programs and the disk in a\n// simulation: an open or a read may be made to fail or to deliver less.\nvar (\n\tZZOpen   func(name string) error\n\tZZOpened func(f *File)\n\tZZRead func(name string, n int) (int, error)\n\tZZDone func(name string, n int)\n)\n\n// ReadAt reads len(b) bytes from the File starting"},
}

// patchRuntime writes patched copies of the Go distribution files into dir and
// returns the overlay entries.
func patchRuntime(goroot, simFile, dir string) (map[string]string, error) {
	content := map[string]string{}
	for _, p := range rtPatches {
		src, ok := content[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				return nil, err
			}
			src = string(b)
		}
		n := p.n
		if n == 0 {
			n = 1
		}
		if got := strings.Count(src, p.old); got != n {
			return nil, fmt.Errorf("runtime patch does not apply: %s: %q occurs %d times, want %d", p.file, p.old, got, n)
		}
		content[p.file] = strings.ReplaceAll(src, p.old, p.new)
	}
	repl := map[string]string{}
	for f, s := range content {
		out := filepath.Join(dir, strings.ReplaceAll(f, "/", "_"))
		if err := writeIfChanged(out, []byte(s)); err != nil {
			return nil, err
		}
		repl[filepath.Join(goroot, "src", f)] = out
	}
	repl[filepath.Join(goroot, "src/runtime/zz_sim.go")] = simFile
	return repl, nil
}
