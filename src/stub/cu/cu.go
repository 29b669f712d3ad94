// Package cu imitates the part of gorgonia.org/cu that the CUDA engine uses.
//
// The device is bookkeeping: contexts, allocations, modules and library handles
// are counted, so that the harness can tell what is still held and what was
// released twice. Every call that can fail on a real device asks Fault first.
package cu

import (
	"errors"
	"fmt"
	"sync"
	"unsafe"
)

// Fault decides whether a call of the device fails. It is set by the harness.
var Fault func(op string) bool

// Pause is called where a real device call would take time.
var Pause func()

// OutOfMemory is the device's refusal to allocate.
var OutOfMemory = errors.New("cu: OutOfMemory")

// ErrDevice is any other failure.
var ErrDevice = errors.New("cu: LaunchFailed")

var state struct {
	sync.Mutex
	contexts, modules, blas, dnn int
	next                         uintptr
	mem                          map[DevicePtr]int64
	bad                          []string
	free                         int64
	failed                       map[string]int
}

// Reset forgets everything about the device and gives it some memory.
func Reset(free int64) {
	state.Lock()
	defer state.Unlock()
	state.contexts, state.modules, state.blas, state.dnn = 0, 0, 0, 0
	state.next = 0x7f0000000000
	state.mem = map[DevicePtr]int64{}
	state.bad = nil
	state.free = free
	state.failed = map[string]int{}
}

// Held describes what has not been released.
type Held struct{ Contexts, Modules, BLAS, DNN, Allocations int }

// Holding tells what the program holds.
func Holding() Held {
	state.Lock()
	defer state.Unlock()
	return Held{state.contexts, state.modules, state.blas, state.dnn, len(state.mem)}
}

// Misuses lists calls that a real device would punish.
func Misuses() []string {
	state.Lock()
	defer state.Unlock()
	return append([]string(nil), state.bad...)
}

// Range returns the allocation that contains an address.
func Range(p DevicePtr) (base DevicePtr, size int64, ok bool) {
	state.Lock()
	defer state.Unlock()
	for b, s := range state.mem {
		if p >= b && uintptr(p) < uintptr(b)+uintptr(s) {
			return b, s, true
		}
	}
	return 0, 0, false
}

// Failed counts the injected failures of a call.
func Failed(op string) int {
	state.Lock()
	defer state.Unlock()
	return state.failed[op]
}

func misuse(s string) {
	state.bad = append(state.bad, s)
}

// Fails asks whether the call fails and keeps count.
func Fails(op string) bool {
	if Pause != nil {
		Pause()
	}
	if Fault == nil || !Fault(op) {
		return false
	}
	state.Lock()
	state.failed[op]++
	state.Unlock()
	return true
}

// Handles counts handles of the libraries.
func Handles(lib string, d int) {
	state.Lock()
	defer state.Unlock()
	switch lib {
	case "blas":
		state.blas += d
	case "dnn":
		state.dnn += d
	}
}

type (
	Device          int
	DevicePtr       uintptr
	CUContext       struct{ id int }
	ContextFlags    byte
	DeviceAttribute int
	MemAttachFlags  byte
	Stream          struct{}
	Function        struct{ name string }
	Module          struct{ id int }
)

const (
	SchedAuto    ContextFlags   = 0
	AttachGlobal MemAttachFlags = 1
)

const (
	MaxThreadsPerBlock DeviceAttribute = 1 + iota
	MaxBlockDimX
	MaxBlockDimY
	MaxBlockDimZ
	MaxGridDimX
	MaxGridDimY
	MaxGridDimZ
	WarpSize
)

var NoStream = Stream{}

func (d DevicePtr) String() string          { return fmt.Sprintf("0x%x", uintptr(d)) }
func (d DevicePtr) Uintptr() uintptr        { return uintptr(d) }
func (d DevicePtr) IsCUDAMemory() bool      { return true }
func (d DevicePtr) Pointer() unsafe.Pointer { return nil }
func (d DevicePtr) MemSize() uintptr {
	_, n, _ := Range(d)
	return uintptr(n)
}

func (d Device) MakeContext(flags ContextFlags) (CUContext, error) {
	if Fails("oom") {
		return CUContext{}, OutOfMemory
	}
	if Fails("context") {
		return CUContext{}, ErrDevice
	}
	state.Lock()
	defer state.Unlock()
	state.contexts++
	state.next++
	return CUContext{int(state.next)}, nil
}

func (d Device) Attributes(attrs ...DeviceAttribute) ([]int, error) {
	if Fails("attributes") {
		return nil, ErrDevice
	}
	r := make([]int, len(attrs))
	for i, a := range attrs {
		switch a {
		case WarpSize:
			r[i] = 32
		case MaxThreadsPerBlock, MaxBlockDimX, MaxBlockDimY:
			r[i] = 1024
		case MaxBlockDimZ:
			r[i] = 64
		case MaxGridDimX:
			r[i] = 1<<31 - 1
		default:
			r[i] = 65535
		}
	}
	return r, nil
}

func MemInfo() (free, total int64, err error) {
	if Fails("meminfo") {
		return 0, 0, ErrDevice
	}
	state.Lock()
	defer state.Unlock()
	return state.free, state.free + 1<<20, nil
}

func MemAllocManaged(size int64, _ MemAttachFlags) (DevicePtr, error) {
	if Fails("alloc") {
		return 0, OutOfMemory
	}
	state.Lock()
	defer state.Unlock()
	if size > state.free {
		return 0, OutOfMemory
	}
	state.next = (state.next + 511) &^ 255
	p := DevicePtr(state.next)
	state.next += uintptr(size)
	state.mem[p] = size
	state.free -= size
	return p, nil
}

func MemFree(p DevicePtr) error {
	state.Lock()
	defer state.Unlock()
	n, ok := state.mem[p]
	if !ok {
		misuse("memory that is not allocated was released")
		return ErrDevice
	}
	delete(state.mem, p)
	state.free += n
	return nil
}

func SetCurrentContext(c CUContext) error { return nil }

func LoadData(data string) (Module, error) {
	if Fails("module") {
		return Module{}, ErrDevice
	}
	state.Lock()
	defer state.Unlock()
	state.modules++
	state.next++
	return Module{int(state.next)}, nil
}

func (m Module) Function(name string) (Function, error) {
	if Fails("function") {
		return Function{}, ErrDevice
	}
	return Function{name}, nil
}

func (m Module) Unload() error {
	if Fails("unload") {
		return ErrDevice
	}
	state.Lock()
	defer state.Unlock()
	state.modules--
	if state.modules < 0 {
		misuse("a module that is not loaded was unloaded")
	}
	return nil
}

// Context is a device context that executes work on the thread that serves it.
type Context interface {
	Do(fn func() error) error
	Work() <-chan func() error
	ErrChan() chan error
	Error() error
	CUDAContext() CUContext
	Close() error
}

// Ctx imitates the standalone context.
type Ctx struct {
	mu      sync.Mutex
	c       CUContext
	work    chan func() error
	errChan chan error
}

func CtxFromCUContext(d Device, c CUContext, flags ContextFlags) *Ctx {
	return &Ctx{c: c, work: make(chan func() error), errChan: make(chan error)}
}

func (c *Ctx) chans() (chan func() error, chan error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.work, c.errChan
}

func (c *Ctx) Do(fn func() error) error {
	w, e := c.chans()
	w <- fn
	return <-e
}

func (c *Ctx) Work() <-chan func() error { w, _ := c.chans(); return w }
func (c *Ctx) ErrChan() chan error       { _, e := c.chans(); return e }
func (c *Ctx) Error() error              { return nil }
func (c *Ctx) CUDAContext() CUContext    { c.mu.Lock(); defer c.mu.Unlock(); return c.c }

// Close closes the channels and destroys the context. As on a real device the
// context counts as gone even when destroying it reports a failure.
func (c *Ctx) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.c.id == 0 {
		return nil
	}
	close(c.errChan)
	c.errChan = nil
	close(c.work)
	c.work = nil
	c.c.id = 0
	state.Lock()
	state.contexts--
	state.Unlock()
	if Fails("destroy") {
		return ErrDevice
	}
	return nil
}

// BatchedContext imitates the batching context: calls are queued and executed
// when the queue is flushed.
type BatchedContext struct {
	Context
	Device

	q *queue
}

type queue struct {
	mu            sync.Mutex
	workAvailable chan struct{}
	calls         []func() error
	err           error
	ran           int
}

func NewBatchedContext(c Context, d Device) *BatchedContext {
	return &BatchedContext{Context: c, Device: d, q: &queue{workAvailable: make(chan struct{}, 1)}}
}

func (ctx *BatchedContext) WorkAvailable() <-chan struct{} { return ctx.q.workAvailable }
func (ctx *BatchedContext) Signal()                        { ctx.q.workAvailable <- struct{}{} }

func (ctx *BatchedContext) enqueue(f func() error) {
	ctx.q.mu.Lock()
	ctx.q.calls = append(ctx.q.calls, f)
	ctx.q.mu.Unlock()
}

// DoWork executes everything queued.
func (ctx *BatchedContext) DoWork() {
	ctx.q.mu.Lock()
	defer ctx.q.mu.Unlock()
	ctx.q.err = nil
	for _, f := range ctx.q.calls {
		if err := f(); err != nil && ctx.q.err == nil {
			ctx.q.err = err
		}
		ctx.q.ran++
	}
	ctx.q.calls = ctx.q.calls[:0]
}

// Errors returns what went wrong in the last batch.
func (ctx *BatchedContext) Errors() error {
	ctx.q.mu.Lock()
	defer ctx.q.mu.Unlock()
	return ctx.q.err
}

// Queued tells how many calls wait for a flush.
func (ctx *BatchedContext) Queued() int {
	ctx.q.mu.Lock()
	defer ctx.q.mu.Unlock()
	return len(ctx.q.calls)
}

func (ctx *BatchedContext) Cleanup() {}

func (ctx *BatchedContext) Memcpy(dst, src DevicePtr, n int64) {
	ctx.enqueue(func() error {
		if Fails("memcpy") {
			return ErrDevice
		}
		return nil
	})
}

func (ctx *BatchedContext) LaunchAndSync(f Function, gx, gy, gz, bx, by, bz int, shared int, s Stream, params []unsafe.Pointer) {
	ctx.enqueue(func() error {
		if Fails("launch") {
			return ErrDevice
		}
		return nil
	})
}
