package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
)

// Files with stores, opened, created and closed in many ways (spec/Handles.tla).

const handLump = 7

type handle struct {
	f    int
	odd  bool
	st   *storage.Storage
	nv   *nvm.FileNVM
	proc *osexec.Cmd
	in   *os.File
}

type hands struct {
	mu      sync.Mutex
	dir     string
	n       int
	rng     *rand.Rand
	next    int64
	tok     int64
	open    map[int]*handle // by number
	gone    []*handle       // closed ones
	saved   map[int][]byte  // good contents of altered files
	sv      map[int][2]int
	fps     map[[20]byte]int
	odd     map[int]bool
	emitted int
}

func (h *hands) path(f int) string { return filepath.Join(h.dir, fmt.Sprintf("s%d.lusf", f)) }

func lockClass(err error) string {
	if err == nil {
		return "ok"
	}
	if c := errors.Cause(err); c == syscall.EWOULDBLOCK {
		return "locked"
	}
	return class(err)
}

// the token the store holds and its capacity
func content(st *storage.Storage, maxTok int) (int, int) {
	c := int(st.Header().DataRegionSize / 512)
	b, err := st.Get(lump.FromU64(0, handLump))
	if err != nil {
		if n := len(st.List()); n != 0 {
			return -2, c
		}
		return 0, c
	}
	for t := 1; t <= maxTok; t++ {
		if bytes.Equal(b, payload(t, 0, 600+t%3)) {
			return t, c
		}
	}
	return -1, c
}

func handPut(st *storage.Storage, t int) error {
	if _, err := st.Put(lump.FromU64(0, handLump), aligned(payload(t, 0, 600+t%3))); err != nil {
		return err
	}
	st.Sync()
	return nil
}

// the name to use for file f: itself or a link to it
func (h *hands) alias(f int, k string) (string, func()) {
	p := h.path(f)
	if k == "" {
		return p, func() {}
	}
	a := filepath.Join(h.dir, fmt.Sprintf("l%d.lusf", atomic.AddInt64(&h.next, 1)))
	if k == "sym" {
		os.Symlink(filepath.Base(p), a)
	} else if os.Link(p, a) != nil {
		return p, func() {}
	}
	return a, func() { os.Remove(a) }
}

func (h *hands) add(x *handle) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	k := int(atomic.AddInt64(&h.next, 1))
	h.open[k] = x
	return k
}

func (h *hands) create(f int, good bool, path string, capacity uint64, ratio float64, fault string, nth int) M {
	m := M{"f": f, "good": good, "flt": false, "h": 0, "c": 0}
	var r *recorder
	if fault != "" {
		r = record(path)
		r.faultKind, r.faultN = fault, nth
	}
	st, err := storage.CreateCannylsStorage(path, capacity, ratio)
	if r != nil {
		m["flt"] = r.fired
		r.stop()
	}
	m["r"] = lockClass(err)
	if err == nil {
		_, m["c"] = content(st, 0)
		m["h"] = h.add(&handle{f: f, st: st})
	}
	return m
}

func (h *hands) doOpen(f int, how, via, fault string, nth int) M {
	path, end := h.alias(f, via)
	defer end()
	m := M{"f": f, "flt": false, "h": 0, "v": 0, "c": 0}
	if how == "nvm" {
		nv, hd, err := nvm.Open(path)
		m["r"] = lockClass(err)
		if err == nil {
			m["c"] = int(hd.DataRegionSize / 512)
			m["v"] = -3
			m["h"] = h.add(&handle{f: f, nv: nv})
		}
		return m
	}
	var r *recorder
	if fault != "" {
		r = record(path)
		r.faultKind, r.faultN = fault, nth
	}
	st, err := storage.OpenCannylsStorage(path)
	if r != nil {
		m["flt"] = r.fired
		r.stop()
	}
	m["r"] = lockClass(err)
	if err == nil {
		m["v"], m["c"] = content(st, int(atomic.LoadInt64(&h.tok)))
		m["h"] = h.add(&handle{f: f, st: st, odd: h.odd[f]})
	}
	return m
}

func (h *hands) grow(f int) M {
	m := M{"f": f, "c": 0}
	nv, hd, err := nvm.Open(h.path(f))
	m["r"] = lockClass(err)
	if err != nil {
		return m
	}
	defer nv.Close()
	hd.DataRegionSize += 512
	b := new(bytes.Buffer)
	hd.WriteHeaderRegionTo(b)
	ab := block.FromBytes(b.Bytes(), block.Min())
	ab.Align()
	_, err = nv.WriteAt(ab.AsBytes(), 0)
	if err == nil {
		err = nv.Sync()
	}
	m["r"], m["c"] = lockClass(err), int(hd.DataRegionSize/512)
	return m
}

// another process opens the file: and closes it again, or keeps it
func (h *hands) other(f int, keep bool) M {
	m := M{"f": f, "flt": false, "h": 0, "v": 0, "c": 0}
	cmd := osexec.Command(os.Args[0], "-opener", h.path(f), "-n", fmt.Sprint(h.tok))
	pr, pw, _ := os.Pipe()
	cmd.Stdin = pr
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pr.Close()
	line, _ := bufio.NewReader(out).ReadString('\n')
	var r string
	var v, c int
	fmt.Sscan(line, &r, &v, &c)
	if r == "" {
		r = "died"
	}
	m["r"], m["v"], m["c"] = r, v, c
	if keep && r == "ok" {
		m["h"] = h.add(&handle{f: f, proc: cmd, in: pw})
		return m
	}
	pw.Close()
	cmd.Wait()
	return m
}

// the other process
func opener(path string, maxTok int) {
	stdout := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	st, err := storage.OpenCannylsStorage(path)
	if err != nil {
		fmt.Fprintln(stdout, lockClass(err), 0, 0)
		return
	}
	v, c := content(st, maxTok)
	fmt.Fprintln(stdout, "ok", v, c)
	os.Stdin.Read(make([]byte, 1))
	st.Close()
}

func (h *hands) close(k int) M {
	h.mu.Lock()
	x := h.open[k]
	delete(h.open, k)
	h.mu.Unlock()
	switch {
	case x.st != nil:
		x.st.Close()
	case x.nv != nil:
		x.nv.Close()
	default:
		x.in.Close()
		x.proc.Wait()
	}
	h.mu.Lock()
	h.gone = append(h.gone, x)
	h.mu.Unlock()
	return M{"r": "ok", "f": x.f, "h": k}
}

func (h *hands) look() M {
	fds := []os.FileInfo{}
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, e := range l {
			if s, err := os.Stat("/proc/self/fd/" + e.Name()); err == nil && s.Mode().IsRegular() {
				fds = append(fds, s)
			}
		}
	}
	fs := []M{}
	known := map[string]bool{}
	for f := 1; f <= h.n; f++ {
		p := h.path(f)
		known[filepath.Base(p)] = true
		m := M{"there": false, "fp": 0, "open": false}
		for _, x := range h.open {
			if x.f == f && x.proc != nil {
				m["open"] = true
			}
		}
		if st, err := os.Stat(p); err == nil {
			for _, i := range fds {
				if os.SameFile(i, st) {
					m["open"] = true
				}
			}
			b, _ := os.ReadFile(p)
			k := sha1.Sum(append(b, fmt.Sprint(st.Mode())...))
			if h.fps[k] == 0 {
				h.fps[k] = len(h.fps) + 1
			}
			m["there"], m["fp"] = true, h.fps[k]
		}
		fs = append(fs, m)
	}
	extra := 0
	filepath.Walk(h.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && p != h.dir && !known[filepath.Base(p)] && filepath.Base(p) != "d.lusf" {
			extra++
		}
		return nil
	})
	return M{"e": "look", "r": "ok", "fs": fs, "x": extra}
}

var alters = []string{"empty", "short", "magic", "hsize", "major", "minor", "bsize0", "bsize", "jbig", "dbig", "odd-j", "odd-j0", "odd-d", "odd-head", "odd-jbyte", "odd-cut", "odd-bs"}

// other contents of the file, and whether a store may be found in them
func spoilFile(b []byte, how string, r *rand.Rand) ([]byte, string) {
	b = append([]byte{}, b...)
	be := binary.BigEndian
	kind := "bad"
	if strings.HasPrefix(how, "odd") {
		kind = "odd"
	}
	switch how {
	case "empty":
		b = b[:0]
	case "short":
		b = b[:1+r.Intn(43)]
	case "magic":
		b[r.Intn(4)] ^= 1 << uint(r.Intn(8))
	case "hsize":
		v := be.Uint16(b[4:])
		be.PutUint16(b[4:], v-1-uint16(r.Intn(int(v))))
	case "major":
		b[6+r.Intn(2)] ^= 1 << uint(r.Intn(8))
	case "minor":
		b[8+r.Intn(2)] ^= 1 << uint(r.Intn(8))
	case "bsize0":
		be.PutUint16(b[10:], uint16(r.Intn(512)))
	case "bsize":
		be.PutUint16(b[10:], uint16(513+r.Intn(511)))
	case "jbig":
		be.PutUint64(b[28:], storage.MAX_JOURNAL_REGION_SIZE+1+uint64(r.Intn(1<<20)))
	case "dbig":
		be.PutUint64(b[36:], storage.MAX_DATA_REGION_SIZE+1+uint64(r.Intn(1<<20)))
	case "odd-bs":
		be.PutUint16(b[10:], uint16(512*(2+r.Intn(100))))
	case "odd-j":
		be.PutUint64(b[28:], uint64(r.Intn(1<<17)))
	case "odd-j0":
		be.PutUint64(b[28:], uint64(512*r.Intn(3)))
	case "odd-d":
		be.PutUint64(b[36:], uint64(r.Intn(1<<17)))
	case "odd-head":
		be.PutUint64(b[512:], uint64(r.Intn(1<<17)))
	case "odd-jbyte":
		b[1024+r.Intn(512)] ^= 1 << uint(r.Intn(8))
	case "odd-cut":
		b = b[:44+r.Intn(len(b)-44)]
	}
	return b, kind
}

func init() {
	kinds["hand"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		seed := j.seed*1000003 + int64(idx)
		r := rand.New(rand.NewSource(seed))
		out := emit
		var h *hands
		emit = func(m M) { h.emitted++; out(m) }
		h = &hands{dir: dir, n: 1 + r.Intn(2), rng: r, open: map[int]*handle{}, saved: map[int][]byte{}, sv: map[int][2]int{}, fps: map[[20]byte]int{}, odd: map[int]bool{}}
		cfg := M{"files": h.n, "name": j.profile, "seed": seed}
		cur(cfg)
		os.Mkdir(filepath.Join(dir, "d.lusf"), 0755)
		defer func() {
			for _, x := range h.open {
				if x.proc != nil {
					x.proc.Process.Kill()
				}
			}
		}()
		if j.profile == "conc" {
			h.concurrent(r, emit)
			return cfg
		}
		emit(h.look())
		n := j.nops
		if n == 0 {
			n = 50
		}
		for k := 0; k < n; k++ {
			m, dead := h.step(r)
			if m == nil {
				continue
			}
			emit(m)
			if dead {
				return cfg
			}
			emit(h.look())
		}
		return cfg
	}
}

func (h *hands) some(r *rand.Rand, ok func(*handle) bool) int {
	best := 0
	l := []int{}
	for k, x := range h.open {
		if ok(x) {
			l = append(l, k)
		}
	}
	for _, k := range l {
		if best == 0 || k < best {
			best = k
		}
	}
	return best
}

func (h *hands) owner(f int) int { return h.some(nil, func(x *handle) bool { return x.f == f }) }

const handCap = 512 * 200

func (h *hands) step(r *rand.Rand) (m M, dead bool) {
	f := 1 + r.Intn(h.n)
	_, err := os.Stat(h.path(f))
	there := err == nil
	own := h.owner(f)
	o := ""
	switch x := r.Intn(100); {
	case x < 16:
		o = "create"
		if there && r.Intn(3) != 0 {
			o = "open"
		}
	case x < 50:
		o = "open"
	case x < 55:
		o = "xopen"
	case x < 58:
		o = "xhold"
	case x < 66:
		o = "put"
	case x < 78:
		o = "close"
	case x < 81:
		o = "again"
	case x < 85:
		o = "grow"
	case x < 97:
		o = "alter"
	default:
		o = "remove"
	}
	faults := []string{"read", "write", "sync"}
	run := func(g func() M) M {
		done := make(chan M, 1)
		go func() {
			done <- func() (m M) {
				defer func() {
					if p := recover(); p != nil {
						m = M{"r": "panic", "msg": fmt.Sprint(p, "\n", string(debug.Stack()))}
					}
				}()
				return g()
			}()
		}()
		select {
		case m := <-done:
			return m
		case <-time.After(hangAfter):
			atomic.StoreInt32(&hung, 1)
			return M{"r": "hang"}
		}
	}
	switch o {
	case "create":
		if r.Intn(5) == 0 { // a path where no store can be
			p := []string{filepath.Join(h.dir, "d.lusf"), filepath.Join(h.dir, "x"), filepath.Join(h.dir, "no", "s.lusf"), "", filepath.Join(h.dir, "s.lus"),
				filepath.Join(h.dir, strings.Repeat("n", 300)+".lusf"), filepath.Join(h.dir, "s1.lusf", "s.lusf")}[r.Intn(7)]
			m = run(func() M { return h.create(0, true, p, handCap, 0.2, "", 0) })
			if m["r"] == "panic" || m["r"] == "hang" {
				m["f"], m["good"], m["flt"], m["h"], m["c"] = 0, true, false, 0, 0
			}
			break
		}
		capacity, ratio, good := uint64(handCap), 0.2, true
		if r.Intn(3) == 0 {
			good = false
			switch r.Intn(4) {
			case 0:
				capacity = []uint64{1, 100, handCap + 1, handCap - 1, 513}[r.Intn(5)]
			case 1:
				capacity = uint64(512 * r.Intn(4))
			case 2:
				capacity = 1 << 46
			case 3:
				ratio = []float64{1, 1.5, 100, 1e300, -1}[r.Intn(5)]
			}
		}
		fault := ""
		if good && r.Intn(3) == 0 {
			fault = faults[r.Intn(3)]
		}
		nth := 1 + r.Intn(3)
		m = run(func() M { return h.create(f, good, h.path(f), capacity, ratio, fault, nth) })
		if m["r"] == "panic" || m["r"] == "hang" {
			m["f"], m["good"], m["flt"], m["h"], m["c"] = f, good, false, 0, 0
		}
	case "open", "xopen", "xhold":
		if o == "open" && r.Intn(8) == 0 {
			p := []string{filepath.Join(h.dir, "d.lusf"), filepath.Join(h.dir, "x"), filepath.Join(h.dir, "no", "s.lusf"), "", filepath.Join(h.dir, "s9.lusf")}[r.Intn(5)]
			m = run(func() M {
				st, err := storage.OpenCannylsStorage(p)
				if err == nil {
					st.Close()
				}
				return M{"r": lockClass(err)}
			})
			m["f"], m["flt"], m["h"], m["v"], m["c"] = 0, false, 0, 0, 0
			break
		}
		how, via, fault := "", "", ""
		if o == "open" {
			how = []string{"", "", "", "nvm"}[r.Intn(4)]
			if there {
				via = []string{"", "", "", "sym", "hard"}[r.Intn(5)]
			}
			if how == "" && r.Intn(5) == 0 {
				fault = faults[r.Intn(3)]
			}
		}
		nth := 1 + r.Intn(4)
		m = run(func() M {
			if o != "open" {
				return h.other(f, o == "xhold")
			}
			return h.doOpen(f, how, via, fault, nth)
		})
		if m["r"] == "panic" || m["r"] == "hang" {
			m["f"], m["flt"], m["h"], m["v"], m["c"] = f, false, 0, 0, 0
		}
		if o == "xhold" {
			o = "open"
		}
	case "put":
		x := h.open[own]
		if own == 0 || x.st == nil || x.odd {
			return nil, false
		}
		t := int(atomic.AddInt64(&h.tok, 1))
		m = run(func() M { return M{"r": lockClass(handPut(x.st, t))} })
		m["f"], m["h"], m["t"] = f, own, t
	case "close":
		if own == 0 {
			return nil, false
		}
		if x := h.open[own]; x.proc != nil && r.Intn(2) == 0 {
			o = "kill"
			x.proc.Process.Kill()
			x.proc.Wait()
			delete(h.open, own)
			x.in.Close()
			m = M{"r": "ok", "f": f, "h": own}
			break
		}
		m = run(func() M { return h.close(own) })
		m["f"], m["h"] = f, own
	case "again":
		if len(h.gone) == 0 {
			return nil, false
		}
		x := h.gone[r.Intn(len(h.gone))]
		if x.st == nil {
			return nil, false
		}
		m = run(func() M { x.st.Close(); return M{"r": "ok"} })
	case "grow":
		m = run(func() M { return h.grow(f) })
		if h.odd[f] && m["r"] == "ok" {
			o, m = "alter", M{"r": "ok", "f": f, "k": "odd", "v": 0, "c": 0}
		}
		m["f"] = f
	case "alter":
		if !there || own != 0 {
			return nil, false
		}
		m = M{"r": "ok", "f": f}
		if b := h.saved[f]; b != nil {
			os.WriteFile(h.path(f), b, 0755)
			m["k"], m["v"], m["c"] = "store", h.sv[f][0], h.sv[f][1]
			delete(h.saved, f)
			h.odd[f] = false
			break
		}
		b, _ := os.ReadFile(h.path(f))
		// what is in it now
		st, err := storage.OpenCannylsStorage(h.path(f))
		if err != nil {
			return M{"e": "alter", "r": "err", "f": f, "k": "?", "v": 0, "c": 0}, true
		}
		v, c := content(st, int(h.tok))
		st.Close()
		h.sv[f] = [2]int{v, c}
		h.saved[f] = b
		nb, kind := spoilFile(b, alters[r.Intn(len(alters))], r)
		os.WriteFile(h.path(f), nb, 0755)
		h.odd[f] = kind == "odd"
		m["k"], m["v"], m["c"] = kind, 0, 0
	case "remove":
		if !there || own != 0 {
			return nil, false
		}
		os.Remove(h.path(f))
		delete(h.saved, f)
		h.odd[f] = false
		m = M{"r": "ok", "f": f, "k": "none", "v": 0, "c": 0}
		o = "alter"
	}
	m["e"] = o
	return m, m["r"] == "panic" || m["r"] == "hang"
}

func (h *hands) concurrent(r *rand.Rand, emit func(M)) {
	c := &concLog{}
	for f := 1; f <= h.n; f++ {
		if r.Intn(4) != 0 {
			m := h.create(f, true, h.path(f), handCap, 0.2, "", 0)
			m["e"] = "create"
			emit(m)
			if m["r"] == "ok" {
				m = h.close(m["h"].(int))
				m["e"] = "close"
				emit(m)
			}
		}
	}
	emit(h.look())
	var wg sync.WaitGroup
	growth := r.Intn(3)
	nt := between(r, 2, 6)
	var dead int32
	for t := 0; t < nt; t++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func(t int) {
			defer wg.Done()
			mine := map[int]int{} // file -> handle
			for k := 0; k < 60/nt && atomic.LoadInt32(&dead) == 0; k++ {
				f := 1 + rr.Intn(h.n)
				o := "open"
				switch x := rr.Intn(20); {
				case mine[f] != 0 && x < 10:
					o = "close"
				case mine[f] != 0 && x < 15:
					o = "put"
				case x < 2:
					o = "create"
				case x < 2+6*growth:
					o = "grow"
				}
				c.mu.Lock()
				call := M{"e": o, "ph": "call", "th": t, "f": f, "r": "hang", "good": true, "flt": false, "h": 0, "v": 0, "c": 0}
				tok := 0
				if o == "put" {
					tok = int(atomic.AddInt64(&h.tok, 1))
					call["t"] = tok
				}
				c.evs = append(c.evs, call)
				q := len(c.evs)
				c.mu.Unlock()
				res := func() (m M) {
					defer func() {
						if p := recover(); p != nil {
							m = M{"r": "panic", "msg": fmt.Sprint(p, "\n", string(debug.Stack()))}
							atomic.StoreInt32(&dead, 1)
						}
					}()
					switch o {
					case "create":
						m = h.create(f, true, h.path(f), handCap, 0.2, "", 0)
					case "open":
						m = h.doOpen(f, "", "", "", 0)
					case "grow":
						m = h.grow(f)
					case "put":
						h.mu.Lock()
						x := h.open[mine[f]]
						h.mu.Unlock()
						m = M{"r": lockClass(handPut(x.st, tok)), "h": mine[f]}
					case "close":
						m = h.close(mine[f])
						delete(mine, f)
					}
					if (o == "create" || o == "open") && m["r"] == "ok" {
						mine[f] = m["h"].(int)
					}
					return
				}()
				c.ret(t, q, call, res)
				if rr.Intn(5) == 0 {
					time.Sleep(time.Duration(rr.Intn(200)) * time.Microsecond)
				}
			}
		}(t)
	}
	end := make(chan bool)
	go func() { wg.Wait(); close(end) }()
	select {
	case <-end:
	case <-time.After(hangAfter):
		atomic.StoreInt32(&hung, 1)
	}
	c.mu.Lock()
	off := h.emitted
	for _, m := range c.evs {
		if q, ok := m["q"]; ok {
			m["q"] = q.(int) + off
		}
		emit(m)
	}
	c.mu.Unlock()
	if dead != 0 || atomic.LoadInt32(&hung) != 0 {
		emit(M{"e": "end", "r": "hang"})
		return
	}
	emit(h.look())
	for len(h.open) > 0 {
		k := h.some(nil, func(*handle) bool { return true })
		m := h.close(k)
		m["e"] = "close"
		emit(m)
	}
	emit(h.look())
	for f := 1; f <= h.n; f++ {
		m := h.doOpen(f, "", "", "", 0)
		m["e"] = "open"
		emit(m)
	}
	emit(h.look())
}
