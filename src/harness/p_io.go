package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"gorgonia.org/gorgonia/examples/mnist"
	"gorgonia.org/gorgonia/zzverif/sim"
	"gorgonia.org/tensor"
)

func init() {
	register(&Prop{ID: "C18", Run: runC18, Race: true, Cold: true, N: 60,
		Doc:  "loading a digit data set gives its contents or an error, whatever the disk does",
		Rule: "A run lets 1-3 goroutines load data sets of 1-6 images each, two or three times, with files that are missing, cannot be opened, end early, are of the wrong kind or fail or deliver little when they are read, and finally once more from intact files; it is non-trivial when a fault was met or a read delivered less than it was asked for.",
		Real: []string{"data set loader", "operating system files"}, Stubs: []string{"scheduler and clock (simulated)", "failing opens and reads and short reads (injected in the file layer)"}})
}

// the files of a data set
var digitFiles = map[string][2]string{
	"train": {"train-labels-idx1-ubyte", "train-images-idx3-ubyte"},
	"dev":   {"train-labels-idx1-ubyte", "train-images-idx3-ubyte"},
	"test":  {"t10k-labels-idx1-ubyte", "t10k-images-idx3-ubyte"},
}

// digits is a small data set.
type digits struct {
	N, R, C int
	Labels  []byte
	Pixels  []byte
}

func genDigits(g *Rng) *digits {
	d := &digits{N: g.Range(1, 6), R: g.Range(1, 5), C: g.Range(1, 5)}
	if g.P(1, 12) {
		d.N, d.R, d.C = g.Range(7, 40), g.Range(6, 28), g.Range(6, 28)
	}
	few := g.P(1, 3)
	for i := 0; i < d.N; i++ {
		d.Labels = append(d.Labels, byte(g.N(10)))
	}
	for i := 0; i < d.N*d.R*d.C; i++ {
		p := byte(g.N(256))
		if few {
			p = []byte{0, 255, 1, 254}[p%4]
		}
		d.Pixels = append(d.Pixels, p)
	}
	return d
}

func idx(magic uint32, dims []int, data []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, magic)
	for _, d := range dims {
		b = binary.BigEndian.AppendUint32(b, uint32(d))
	}
	return append(b, data...)
}

func (d *digits) files() [2][]byte {
	return [2][]byte{idx(0x801, []int{d.N}, d.Labels), idx(0x803, []int{d.N, d.R, d.C}, d.Pixels)}
}

// check says what is wrong with what was loaded.
func (d *digits) check(as tensor.Dtype, x, y tensor.Tensor) string {
	if x == nil || y == nil {
		return "no data and no error"
	}
	if x.Dtype() != as || y.Dtype() != as {
		return fmt.Sprintf("loaded as %v and %v, not %v", x.Dtype(), y.Dtype(), as)
	}
	if !x.Shape().Eq(tensor.Shape{d.N, d.R * d.C}) {
		return fmt.Sprintf("inputs of shape %v", x.Shape())
	}
	if !y.Shape().Eq(tensor.Shape{d.N, 10}) {
		return fmt.Sprintf("targets of shape %v", y.Shape())
	}
	xs, ys := flat(x).Data, flat(y).Data
	var of [256]float64
	var has [256]bool
	for i, p := range d.Pixels {
		if has[p] && of[p] != xs[i] {
			return fmt.Sprintf("pixel %d has value %v, another one with the same intensity has %v", i, xs[i], of[p])
		}
		if xs[i] < 0 || xs[i] > 1 {
			return fmt.Sprintf("pixel %d has value %v", i, xs[i])
		}
		of[p], has[p] = xs[i], true
	}
	last := -1.0
	for p := range of {
		if has[p] {
			if of[p] <= last {
				return fmt.Sprintf("intensity %d has value %v, a lower one has %v", p, of[p], last)
			}
			last = of[p]
		}
	}
	for i, l := range d.Labels {
		row := ys[i*10 : i*10+10]
		for j, v := range row {
			if j != int(l) && v >= row[l] {
				return fmt.Sprintf("target row %d is %v, the label is %d", i, row, l)
			}
		}
	}
	return ""
}

// what may be wrong with a file
const (
	fileFine = iota
	fileMissing
	fileNoOpen
	fileShort
	fileKind
	fileMagic
	fileRead
	fileFaults
)

var fileFaultNames = []string{"", "missing", "cannot be opened", "ends early", "of the other kind", "wrong type number", "reading fails"}

var openErrs = []error{syscall.EMFILE, syscall.EACCES, syscall.EIO, syscall.EINTR}
var readErrs = []error{syscall.EIO, syscall.ESTALE, syscall.EINTR}

// load is one call.
type load struct {
	Typ   string
	As    tensor.Dtype
	D     *digits
	Fault [2]int // of the label and of the image file
	At    [2]int // where a file ends, or how many bytes are read before the failure
	Err   [2]int
}

func (l *load) String() string {
	s := fmt.Sprintf("%s %v %dx%dx%d", l.Typ, l.As, l.D.N, l.D.R, l.D.C)
	for i, f := range l.Fault {
		if f != fileFine {
			s += fmt.Sprintf(", %s %s (%d)", []string{"labels", "images"}[i], fileFaultNames[f], l.At[i])
		}
	}
	return s
}

func genLoad(g *Rng) *load {
	l := &load{Typ: []string{"train", "dev", "test"}[g.N(3)], As: tensor.Float64, D: genDigits(g)}
	if g.P(1, 2) {
		l.As = tensor.Float32
	}
	fs := l.D.files()
	for i := range fs {
		l.Err[i] = g.N(12)
		l.At[i] = g.N(len(fs[i]))
		if g.P(1, 3) {
			l.At[i] = g.N(18) % len(fs[i]) // in the header
		} else if g.P(1, 3) {
			l.At[i] = len(fs[i]) - 1
		}
		if g.P(1, 3) {
			l.Fault[i] = g.Range(1, fileFaults-1)
		}
	}
	return l
}

// prepare writes the files of the load.
func (l *load) prepare(dir string) {
	fs := l.D.files()
	for i, b := range fs {
		switch l.Fault[i] {
		case fileMissing:
			continue
		case fileShort:
			b = b[:l.At[i]]
		case fileKind:
			b = fs[1-i]
		case fileMagic:
			b = append([]byte(nil), b...)
			b[l.At[i]%4] ^= byte(1 << (l.Err[i] % 8))
		}
		if err := os.WriteFile(filepath.Join(dir, digitFiles[l.Typ][i]), b, 0644); err != nil {
			fatalf("%v", err)
		}
	}
}

func (l *load) clear(dir string) {
	for _, n := range digitFiles[l.Typ] {
		if err := os.Remove(filepath.Join(dir, n)); err != nil && !os.IsNotExist(err) {
			fatalf("%v", err)
		}
	}
}

// disk is the state of the simulated disk for the files of the loads.
type disk struct {
	mu    sync.Mutex
	at    map[string]*diskFile
	short int
	files []*os.File // opened by the loads
}

type diskFile struct {
	l    *load
	i    int
	got  int
	open bool
	hit  bool // the fault was met
}

func (d *disk) install() {
	os.ZZOpen = func(name string) error {
		d.mu.Lock()
		defer d.mu.Unlock()
		f := d.at[name]
		if f == nil {
			return nil
		}
		f.got = 0
		f.open = true
		if f.l.Fault[f.i] == fileNoOpen {
			f.hit = true
			return openErrs[f.l.Err[f.i]%len(openErrs)]
		}
		return nil
	}
	os.ZZOpened = func(f *os.File) {
		d.mu.Lock()
		defer d.mu.Unlock()
		if d.at[f.Name()] != nil {
			d.files = append(d.files, f)
		}
	}
	os.ZZRead = func(name string, n int) (int, error) {
		d.mu.Lock()
		defer d.mu.Unlock()
		f := d.at[name]
		if f == nil || n == 0 {
			return n, nil
		}
		if f.l.Fault[f.i] == fileRead {
			left := f.l.At[f.i] - f.got
			if left <= 0 {
				f.hit = true
				return 0, readErrs[f.l.Err[f.i]%len(readErrs)]
			}
			if n > left {
				n = left
			}
		}
		if n > 1 {
			if k := sim.Choose(sim.KIO, n); k > 0 {
				d.short++
				n = k
			}
		}
		return n, nil
	}
	os.ZZDone = func(name string, n int) {
		d.mu.Lock()
		defer d.mu.Unlock()
		if f := d.at[name]; f != nil {
			f.got += n
		}
	}
}

func (d *disk) remove() { os.ZZOpen, os.ZZOpened, os.ZZRead, os.ZZDone = nil, nil, nil, nil }

// left closes the files that are still open and says how many there were.
func (d *disk) left() (n int) {
	for _, f := range d.files {
		if f.Close() == nil {
			n++
		}
	}
	return n
}

// loadDigits is Load, telling whether it crashed.
func loadDigits(l *load, dir string) (x, y tensor.Tensor, err error, crash string) {
	defer func() {
		if p := recover(); p != nil {
			crash = fmt.Sprint(p)
		}
	}()
	x, y, err = mnist.Load(l.Typ, dir, l.As)
	return
}

func runC18(r *R) {
	g := r.Rng
	n := g.Range(1, 3)
	r.faultProbs()
	root := scratchDir()
	jobs := make([][]*load, n)
	dirs := make([][]string, n)
	dk := &disk{at: map[string]*diskFile{}}
	faulty := 0
	for i := range jobs {
		for k := g.Range(1, 2); k >= 0; k-- {
			l := genLoad(g)
			if k == 0 {
				l.Fault = [2]int{} // at last everything is in order
			}
			dir := filepath.Join(root, fmt.Sprintf("%d-%d", i, len(jobs[i])))
			if err := os.MkdirAll(dir, 0755); err != nil {
				fatalf("%v", err)
			}
			l.clear(dir)
			l.prepare(dir)
			defer l.clear(dir)
			for f, name := range digitFiles[l.Typ] {
				dk.at[filepath.Join(dir, name)] = &diskFile{l: l, i: f}
			}
			if l.Fault != [2]int{} {
				faulty++
			}
			jobs[i] = append(jobs[i], l)
			dirs[i] = append(dirs[i], dir)
			r.note("%d: %s", i, l)
		}
	}
	bad := make([][]string, n)
	finished := false
	dk.install()
	res := r.Sim(func() {
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k, l := range jobs[i] {
					dawdle(sim.KWhen, 6)
					x, y, err, crash := loadDigits(l, dirs[i][k])
					w := ""
					switch {
					case crash != "":
						w = "crash: " + crash
					case l.Fault != [2]int{} && err == nil:
						w = "no error"
					case l.Fault != [2]int{}:
						if x != nil || y != nil {
							w = "data along with an error"
						}
					case err != nil:
						w = "an error for intact files"
					default:
						w = l.D.check(l.As, x, y)
					}
					bad[i] = append(bad[i], w)
				}
			}(i)
		}
		wg.Wait()
		finished = true
	})
	dk.remove()
	left := dk.left()
	if !finished {
		r.Fail("hang", "not all goroutines finished (status %d): %v", res.Status, res.Left)
		return
	}
	for i := range jobs {
		for k, l := range jobs[i] {
			if w := bad[i][k]; w != "" {
				kind := "data"
				if strings.HasPrefix(w, "crash: ") {
					if l.Fault[0] == fileFine && (l.Fault[1] == fileKind || l.Fault[1] == fileMagic) {
						r.knownFinding("digit-image-type")
						continue
					}
					kind = "crash"
				} else if l.Fault != [2]int{} {
					kind = "fault-ignored"
				} else if w == "an error for intact files" {
					kind = "spurious-error"
				}
				r.Fail(kind, "goroutine %d, load %d (%s): %s", i, k, l, w)
			}
			for _, f := range l.Fault {
				if f != fileFine {
					r.Count("file "+fileFaultNames[f], 1)
				}
			}
		}
	}
	if left > 0 {
		r.knownFinding("digit-files-open")
	}
	if dk.short > 0 {
		r.Count("short reads", dk.short)
	}
	if res.Alive > 0 {
		r.Fail("leak", "goroutines left: %v", res.Left)
	}
	if faulty > 0 || dk.short > 0 {
		r.NonTrivial()
	}
}
