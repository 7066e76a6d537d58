package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"crypto/sha1"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
)

// Snapshots. The moments of a trace are the numbers of device writes of the store file:
// moment k is its image after the first k writes. Creating a snapshot reports the
// moments between its call and its return, reading reports the moments whose image has
// just those bytes.

type moments struct {
	mu    sync.Mutex
	base  []byte
	size0 int64
	log   []devWrite
	sizes []int64 // size of the file after each write
	max   int64   // of the store, if the file is longer
}

func (w *moments) now() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.log)
}

func (w *moments) write(off int64, buf []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	s := w.size0
	if n := len(w.sizes); n > 0 {
		s = w.sizes[n-1]
	}
	if end := off + int64(len(buf)); end > s {
		s = end
	}
	w.log = append(w.log, devWrite{off, append([]byte{}, buf...)})
	w.sizes = append(w.sizes, s)
}

func (w *moments) size(k int) int64 {
	if k == 0 {
		return w.size0
	}
	return w.sizes[k-1]
}

// the sizes of the file at the moments from k0 to k1: [moment, size] where it changes
func (w *moments) sizesOf(k0, k1 int) (l [][2]int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	l = [][2]int{}
	for k := k0; k <= k1; k++ {
		s := int(w.size(k))
		if w.max > 0 && s > int(w.max) {
			s = int(w.max)
		}
		if len(l) == 0 || l[len(l)-1][1] != s {
			l = append(l, [2]int{k, s})
		}
	}
	return
}

// the moments whose image has the bytes b at off: intervals
func (w *moments) match(off int64, b []byte) (l [][2]int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	l = [][2]int{}
	cur := make([]byte, len(b))
	if off < int64(len(w.base)) {
		copy(cur, w.base[off:])
	}
	bad := 0
	for k := range b {
		if cur[k] != b[k] {
			bad++
		}
	}
	end := off + int64(len(b))
	note := func(k int) {
		if bad != 0 {
			return
		}
		if n := len(l); n > 0 && l[n-1][1] == k-1 {
			l[n-1][1] = k
		} else {
			l = append(l, [2]int{k, k})
		}
	}
	note(0)
	for k, x := range w.log {
		lo, hi := x.off, x.off+int64(len(x.buf))
		if lo < off {
			lo = off
		}
		if hi > end {
			hi = end
		}
		for p := lo; p < hi; p++ {
			i, n := p-off, x.buf[p-x.off]
			if cur[i] == n {
				continue
			}
			if cur[i] != b[i] {
				bad--
			}
			if n != b[i] {
				bad++
			}
			cur[i] = n
		}
		note(k + 1)
	}
	return
}

// all events of snapshots carry these
func (e *exec) window(k0 int) M {
	k1 := e.mom.now()
	return M{"k0": k0, "k1": k1, "sz": e.mom.sizesOf(k0, k1)}
}

// one read of a reader at the position p
func (e *exec) readOnce(rd io.Reader, p int64, l int) (M, int64, error) {
	b := make([]byte, l)
	n, err := rd.Read(b)
	if n < 0 || n > l {
		return M{"p": p, "l": l, "n": n, "e": false, "er": true, "mt": [][2]int{}}, p, fmt.Errorf("count %d", n)
	}
	m := M{"p": p, "l": l, "n": n, "e": err == io.EOF, "er": err != nil && err != io.EOF, "mt": e.mom.match(p, b[:n])}
	return m, p + int64(n), err
}

func (e *exec) chunk(rng *rand.Rand) int {
	switch rng.Intn(6) {
	case 0:
		return 1 + rng.Intn(20)
	case 1:
		return 512 * (1 + rng.Intn(8))
	case 2:
		return 1 + rng.Intn(70000)
	case 3:
		return 1<<nvm.DEFAULT_REGION_SHIFT + rng.Intn(3) - 1
	case 4:
		return 1<<nvm.DEFAULT_REGION_SHIFT + rng.Intn(1<<nvm.DEFAULT_REGION_SHIFT)
	}
	return 1 + rng.Intn(1<<nvm.DEFAULT_REGION_SHIFT)
}

// read all of rd in chunks
func (e *exec) readAll(rd io.Reader, rng *rand.Rand) (b []byte, err error) {
	if rng.Intn(3) == 0 {
		return io.ReadAll(rd)
	}
	for {
		p := make([]byte, 1000+e.chunk(rng))
		n, err := rd.Read(p)
		if n > 0 {
			b = append(b, p[:n]...)
		}
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
		if len(b) > 1<<31 {
			return b, io.ErrShortBuffer
		}
	}
}

// a copy of the store through a reader, opened as a store
func (e *exec) copyOf(rng *rand.Rand) M {
	k0 := e.mom.now()
	rd, err := e.st.GetSnapshotReader()
	if err != nil {
		return M{"r": class(err)}
	}
	m := e.window(k0)
	b, err := e.readAll(rd, rng)
	if err != nil {
		m["r"], m["msg"] = "readerr", err.Error()
		return m
	}
	m["rs"] = []M{{"p": 0, "l": len(b), "n": len(b), "e": false, "er": false, "mt": e.mom.match(0, b)},
		{"p": len(b), "l": 1, "n": 0, "e": true, "er": false, "mt": [][2]int{{0, e.mom.now()}}}}
	dir := filepath.Join(e.dir, fmt.Sprintf("copy%d", atomic.AddInt64(&e.copies, 1)))
	os.Mkdir(dir, 0755)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "copy.lusf")
	os.WriteFile(path, b, 0644)
	b = nil
	st, err := storage.OpenCannylsStorage(path)
	if err != nil {
		m["r"], m["msg"] = "openerr", err.Error()
		return m
	}
	for k, v := range e.dump(st) {
		m[k] = v
	}
	st.Close()
	m["r"] = "ok"
	return m
}

func (e *exec) doSnap(op Op) M {
	rng := rand.New(rand.NewSource(e.Cfg.Seed + int64(op.B)*7919 + int64(op.N)))
	switch op.O {
	case "snapc":
		k0 := e.mom.now()
		err := e.st.CreateSnapshot()
		m := e.window(k0)
		m["r"] = class(err)
		return m
	case "snapf": // the directory is away: no file can be created
		dir := filepath.Dir(e.path)
		if os.Rename(dir, dir+".away") != nil {
			return M{"r": "badop"}
		}
		defer os.Rename(dir+".away", dir)
		defer func(b bool) { e.moving = b }(e.moving)
		e.moving = false // no images: there is nothing beside the store
		var err error
		if op.N%2 == 0 {
			err = e.st.CreateSnapshot()
		} else {
			_, err = e.st.GetSnapshotReader()
		}
		r := class(err)
		if err != nil && r != "closed" {
			r = "err"
		}
		return M{"r": r, "rd": op.N%2 == 1}
	case "snapd":
		return M{"r": class(e.st.DeleteSnapshot())}
	case "copy":
		return e.copyOf(rng)
	case "snapr": // a reader and some reads
		k0 := e.mom.now()
		rd, err := e.st.GetSnapshotReader()
		if err != nil {
			if class(err) == "closed" {
				e.rdMu.Lock()
				if e.lastRd != nil { // a reader from before: it may fail, and tries the closed device
					atomic.StoreInt32(&e.oldRd, 1)
					defer atomic.StoreInt32(&e.oldRd, 0)
					if n, err := e.lastRd.Read(make([]byte, 5000)); n < 0 || (err != nil && n > 0) {
						e.rdMu.Unlock()
						return M{"r": "badcount"}
					}
				}
				e.rdMu.Unlock()
			}
			return M{"r": class(err)}
		}
		m := e.window(k0)
		if e.rdMu.TryLock() {
			e.lastRd = nil
			defer func() { e.lastRd = rd; e.rdMu.Unlock() }()
		}
		rs := []M{}
		p := int64(0)
		for k := 0; k < op.N; k++ {
			var x M
			l := 3000
			if e.Cfg.Mode == "snap" {
				l = e.chunk(rng)
			}
			x, p, err = e.readOnce(rd, p, l)
			rs = append(rs, x)
			if err != nil {
				break
			}
		}
		m["r"], m["rs"] = "ok", rs
		return m
	case "rdopen":
		k0 := e.mom.now()
		rd, err := e.st.GetSnapshotReader()
		m := e.window(k0)
		m["r"], m["s"] = class(err), op.I
		if err == nil {
			e.rds[op.I] = &slot{rd: rd}
		}
		return m
	case "rdread":
		s := e.rds[op.I]
		if s == nil {
			return nil
		}
		m, p, _ := e.readOnce(s.rd, s.p, e.chunk(rng))
		s.p = p
		return M{"r": "ok", "s": op.I, "rs": []M{m}}
	case "rdseek":
		s := e.rds[op.I]
		if s == nil {
			return nil
		}
		off := int64(0)
		size := e.mom.size(e.mom.now())
		switch op.N % 5 {
		case 0:
			off = int64(rng.Intn(4)) << nvm.DEFAULT_REGION_SHIFT
			off += int64(rng.Intn(3) - 1)
		case 1:
			off = rng.Int63n(size + 1)
		case 2:
			off = -rng.Int63n(100) - 1
		case 3:
			off = size - rng.Int63n(5000)
		default:
			off = rng.Int63n(3000)
		}
		n, err := s.rd.Seek(off, op.A)
		r := "ok"
		if err != nil {
			r, n = "inval", 0
		} else {
			s.p = n
		}
		return M{"r": r, "s": op.I, "off": off, "wh": op.A, "n": n}
	case "files":
		return M{"r": "ok", "n": len(backings(e.path))}
	case "near":
		return e.neighbour(op)
	}
	return M{"r": "badop"}
}

type slot struct {
	rd *nvm.SnapshotReader
	p  int64
}

// the backing files of a store
func backings(path string) (l []string) {
	pre := strings.TrimSuffix(filepath.Base(path), ".lusf") + "_"
	ents, _ := os.ReadDir(filepath.Dir(path))
	for _, x := range ents {
		n := x.Name()
		if strings.HasPrefix(n, pre) && strings.HasSuffix(n, "_lusf.snapshot") && len(n) == len(pre)+36+len("_lusf.snapshot") {
			l = append(l, filepath.Join(filepath.Dir(path), n))
		}
	}
	return
}

// other stores beside this one, with similar names
var nearNames = []string{"s_b", "s_", "s2", "S", "s_b_c", "x_s", "s.lusf"}

type near struct {
	name  string
	st    *storage.Storage
	image [20]byte
	files map[string][20]byte
}

func hashFile(f string) [20]byte {
	b, _ := os.ReadFile(f)
	return sha1.Sum(b)
}

func (x *near) snapshot(rng *rand.Rand, e *exec) string {
	rd, err := x.st.GetSnapshotReader()
	if err != nil {
		return class(err)
	}
	b, err := e.readAll(rd, rng)
	if err != nil {
		return "readerr"
	}
	h := sha1.Sum(b)
	if x.image == [20]byte{} {
		x.image = h
	} else if x.image != h {
		return "changed"
	}
	return "ok"
}

// remember, or compare, the files of the other store
func (x *near) look(dir string, set bool) string {
	now := map[string][20]byte{}
	p := filepath.Join(dir, x.name+".lusf")
	for _, f := range append(backings(p), p) {
		now[filepath.Base(f)] = hashFile(f)
	}
	if set {
		x.files = now
		return "ok"
	}
	if len(now) != len(x.files) {
		return "files"
	}
	for f, h := range x.files {
		if now[f] != h {
			return "altered"
		}
	}
	return "ok"
}

// one step of another store: its files are as it left them, its snapshot stays
func (e *exec) neighbour(op Op) M {
	rng := rand.New(rand.NewSource(e.Cfg.Seed + int64(op.N)))
	dir := filepath.Dir(e.path)
	name := nearNames[op.I%len(nearNames)]
	if e.nears == nil {
		e.nears = map[string]*near{}
	}
	x := e.nears[name]
	p := filepath.Join(dir, name+".lusf")
	m := M{"r": "ok", "w": op.I, "look": "ok", "img": "ok"}
	var err error
	if x == nil {
		x = &near{name: name}
		x.st, err = storage.CreateCannylsStorage(p, 512*2200, 0.01)
		if err != nil {
			m["r"], m["msg"] = class(err), err.Error()
			return m
		}
		x.st.Put(e.id(1), aligned(payload(1000+op.I, 0, 5000)))
		if err = x.st.CreateSnapshot(); err != nil {
			m["r"] = class(err)
		}
		e.nears[name] = x
	} else {
		m["look"] = x.look(dir, false)
		if x.st, err = storage.OpenCannylsStorage(p); err != nil {
			m["r"], m["msg"] = class(err), err.Error()
			return m
		}
		x.st.Put(e.id(1+rng.Intn(5)), aligned(payload(2000+op.N, 0, 1+rng.Intn(600000))))
		x.st.Sync()
	}
	m["img"] = x.snapshot(rng, e)
	if op.A == 1 {
		x.st.DeleteSnapshot()
		x.image = [20]byte{}
		if err = x.st.CreateSnapshot(); err != nil {
			m["r"] = class(err)
		}
	}
	x.st.Close()
	x.look(dir, true)
	return m
}

// the snapshot of a store reopened from an image: is it there, what it reads, whether
// later writes leave it alone, whether it can be deleted for good
func (e *exec) shotOf(path string, st *storage.Storage) (M, *storage.Storage) {
	m := M{"has": false, "mt": [][2]int{}, "n": 0, "mt2": [][2]int{}, "n2": 0, "gone": true, "err": ""}
	fail := func(s string, err error) (M, *storage.Storage) {
		m["err"] = fmt.Sprint(s, ": ", err)
		return m, st
	}
	has := st.CreateSnapshot() != nil
	m["has"] = has
	read := func() ([]byte, error) {
		rd, err := st.GetSnapshotReader()
		if err != nil {
			return nil, err
		}
		return e.readAll(rd, rand.New(rand.NewSource(int64(e.gens))))
	}
	b, err := read()
	if err != nil {
		return fail("read", err)
	}
	if has {
		m["mt"], m["n"] = e.mom.match(0, b), len(b)
	}
	if has && e.gens%2 == 0 {
		st.Close()
		if st, err = storage.OpenCannylsStorage(path); err != nil {
			return fail("open", err)
		}
	}
	for k := 0; k < 4; k++ {
		n := 100 + 200000*k
		st.Put(e.id(30+k), aligned(payload(1, 0, n)))
		st.Delete(e.id(k))
		st.Sync()
	}
	b2, err := read()
	if err != nil {
		return fail("read again", err)
	}
	if has {
		m["mt2"], m["n2"] = e.mom.match(0, b2), len(b2)
	} else if string(b) != string(b2) {
		return fail("changed", nil)
	}
	if err := st.DeleteSnapshot(); err != nil {
		return fail("delete", err)
	}
	st.Close()
	if st, err = storage.OpenCannylsStorage(path); err != nil {
		return fail("open", err)
	}
	m["gone"] = len(backings(path)) == 0 && st.CreateSnapshot() == nil
	return m, st
}

func snapScript(name string, seed int64, nops int) (s Script, threads [][]Op) {
	r := rand.New(rand.NewSource(seed))
	sizes := []int{1, 500, 1022, 1023, 5000, 70000, 150000, 300000, 450000, 600000}
	s.Cfg.Cap = between(r, 2500, 8000)
	s.Cfg.Journal = between(r, 8, 50)
	if nops == 0 {
		nops = 110
	}
	nvmShift(uint16(20 + r.Intn(2)))
	if name == "big" {
		nvmShift(25)
		sizes = []int{1, 600, 100000, 5000000, 9000000, 20000000, 33000000}
		s.Cfg.Cap = between(r, 140000, 200000)
		nops = 30
	}
	if name == "conc" { // never full
		sizes = sizes[:8]
		s.Cfg.Cap = 14000
	}
	cuts := map[int]bool{0: true, sizes[len(sizes)-1-r.Intn(3)]: true}
	for n := between(r, 5, 7); len(cuts) < n; {
		cuts[sizes[r.Intn(len(sizes))]] = true
	}
	s.Cfg.Cuts = sortedInts(cuts)
	s.Cfg.Auto = r.Intn(5) != 0
	s.Cfg.Mode = "snap"
	if seed%7 == 0 {
		s.Cfg.Extra = 512 * between(r, 1, 3000)
	}
	s.Cfg.Seed = seed
	s.Cfg.Name = name
	s.Cfg.Probes = 1
	nc := len(s.Cfg.Cuts)
	ids := 10
	if name == "conc" {
		ids = 6
	}
	id := func() int { return r.Intn(ids) }
	store := weights{"put": 22, "pute": 3, "puto": 10, "del": 9, "delr": 1, "sync": 5, "flush": 2, "side": 3, "gc": 2, "get": 2, "dump": 1, "usage": 1}
	snaps := weights{"snapc": 6, "snapd": 3, "snapf": 2, "rdopen": 5, "rdread": 12, "rdseek": 6, "copy": 2, "files": 2, "near": 3, "reopen": 3, "crash": 2}
	if name == "big" {
		snaps = weights{"snapc": 8, "snapd": 1, "rdopen": 3, "rdread": 6, "rdseek": 4, "copy": 1, "reopen": 1, "crash": 1}
	}
	w := merge(store, snaps)
	gen := func(w weights) {
		o := pick(r, w)
		op := Op{O: o, I: id(), N: r.Intn(nc), B: len(s.Ops)}
		switch o {
		case "put":
			if r.Intn(2) == 0 {
				op.N = nc/2 + r.Intn(nc-nc/2)
			}
		case "pute":
			for op.N > 0 && s.Cfg.Cuts[op.N] > 6000 {
				op.N--
			}
		case "puto":
			a, b := r.Intn(nc), r.Intn(nc)
			if a > b {
				a, b = b, a
			}
			op.S, op.N, op.Rv = a, b, r.Intn(nc)
		case "delr":
			op.A, op.B = id(), id()
		case "side":
			op.N = []int{1, 2, 64}[r.Intn(3)]
		case "rdopen", "rdread", "rdseek":
			op.I = r.Intn(3)
			op.A = r.Intn(2)
			op.N = r.Intn(1000)
		case "near":
			op.I = r.Intn(len(nearNames))
			op.A = r.Intn(2)
			op.N = r.Intn(1000)
		case "reopen":
			s.Ops = append(s.Ops, Op{O: "close"}, Op{O: "open"})
			return
		case "crash":
			op.K = "kill"
		case "copy", "snapf":
			op.N = r.Intn(1000)
		}
		s.Ops = append(s.Ops, op)
		if o == "rdopen" && r.Intn(2) == 0 {
			s.Ops = append(s.Ops, Op{O: "rdread", I: op.I, N: r.Intn(1000), B: len(s.Ops)})
		}
	}
	if name == "conc" {
		s.Cfg.Probes = -1
		s.Cfg.Journal = between(r, 20, 50)
		for k := r.Intn(8); k > 0; k-- {
			gen(weights{"put": 3, "pute": 1})
		}
		first := s.Ops
		w := weights{"put": 22, "pute": 3, "puto": 16, "del": 9, "delr": 1, "sync": 5, "flush": 2, "side": 4, "gc": 3, "get": 5}
		for t := between(r, 1, 3); t > 0; t-- {
			s.Ops = nil
			for k := 0; k < 14; k++ {
				gen(w)
			}
			threads = append(threads, s.Ops)
		}
		s.Ops = nil
		for k := 0; k < 9; k++ {
			o := pick(r, weights{"snapc": 5, "snapd": 3, "copy": 5, "snapr": 5})
			s.Ops = append(s.Ops, Op{O: o, N: between(r, 1, 6), B: k})
		}
		threads = append(threads, s.Ops)
		if r.Intn(2) == 0 {
			s.Ops = nil
			for k := 0; k < 4; k++ {
				s.Ops = append(s.Ops, Op{O: "snapr", N: between(r, 1, 6), B: 100 + k})
			}
			threads = append(threads, s.Ops)
		}
		s.Ops = first
		return
	}
	for k := r.Intn(6); k > 0; k-- {
		gen(weights{"put": 3, "puto": 1})
	}
	for len(s.Ops) < nops {
		gen(w)
	}
	s.Ops = append(s.Ops, Op{O: "copy", N: 5}, Op{O: "files"}, Op{O: "close"}, Op{O: "open"}, Op{O: "copy", N: 6}, Op{O: "snapd"}, Op{O: "files"}, Op{O: "dump"})
	return
}

func init() {
	kinds["snap"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		s, threads := snapScript(j.profile, j.seed*1000003+int64(idx), j.nops)
		e := newExec(s, dir, emit)
		e.mom = &moments{}
		if err := e.create(); err != nil {
			emit(M{"e": "create", "r": class(err), "msg": err.Error()})
			return traceCfg(e)
		}
		cur(traceCfg(e))
		if j.profile != "conc" {
			setBackHook(func(op, name string) {
				if e.rec != nil && filepath.Dir(name) == filepath.Dir(e.path) {
					e.rec.mu.Lock()
					e.boundary(e.rec)
					e.rec.mu.Unlock()
				}
			})
			e.run()
			setBackHook(nil)
			if e.rec != nil {
				e.rec.stop()
			}
			return traceCfg(e)
		}
		e.emit(M{"e": "start", "r": "ok"})
		for _, op := range s.Ops {
			e.step(op)
		}
		setBackHook(func(string, string) { time.Sleep(time.Duration(rand.Intn(2000)) * time.Microsecond) })
		e.concurrently(threads, false)
		setBackHook(nil)
		if e.dead {
			return traceCfg(e)
		}
		for _, op := range []Op{{O: "dump"}, {O: "copy", N: 3}, {O: "close"}, {O: "open"}, {O: "dump"}, {O: "copy", N: 4}, {O: "put", I: 3, N: len(e.Cfg.Cuts) - 1},
			{O: "sync"}, {O: "copy", N: 7}, {O: "snapd"}, {O: "files"}, {O: "copy", N: 9}, {O: "close"}} {
			e.step(op)
		}
		e.rec.stop()
		return traceCfg(e)
	}
}
