package main

import (
	"bytes"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"github.com/thesues/cannyls-go/nvm"
)

// A device with snapshots, sector by sector: its header sector is left alone, the
// operations use a view of the others.

type snapdev struct {
	dir, path string
	first     []byte // what the sectors hold at the start
	size, tok int
	shift     uint16
	unit      int   // bytes; of these the specification speaks
	base      int64 // far devices: where their first unit ends, and the others do not begin, but so much behind
	n         *nvm.SnapNVM
	view      nvm.NonVolatileMemory
	mu        sync.Mutex
	rng       *rand.Rand
	images    []map[string][]byte
	cache     map[[2]int][]byte
	rec       *recorder
	on        bool
}

// all of the device, without the part of a far one that is never used
func (x *snapdev) readFile(path string) ([]byte, error) {
	if x.base == 0 || filepath.Base(path) != filepath.Base(x.path) {
		return os.ReadFile(path)
	}
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b := make([]byte, x.unit)
	if _, err := io.ReadFull(f, b); err != nil {
		return nil, err
	}
	if _, err := f.Seek(int64(x.unit)+x.base, io.SeekStart); err != nil {
		return nil, err
	}
	l, err := io.ReadAll(f)
	return append(b, l...), err
}

func (x *snapdev) writeFile(path string, b []byte) error {
	if x.base == 0 || filepath.Base(path) != filepath.Base(x.path) || len(b) < x.unit {
		return os.WriteFile(path, b, 0644)
	}
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	if _, err = f.WriteAt(b[:x.unit], 0); err == nil {
		_, err = f.WriteAt(b[x.unit:], int64(x.unit)+x.base)
	}
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

// where unit s of the device is in the view of all but the first
func (x *snapdev) pos(s int) int64 { return int64((s-1)*x.unit) + x.base }

func (x *snapdev) files(dir string) map[string][]byte {
	m := map[string][]byte{}
	l, _ := os.ReadDir(dir)
	for _, f := range l {
		if b, err := x.readFile(filepath.Join(dir, f.Name())); err == nil {
			m[f.Name()] = b
		}
	}
	return m
}

// the files as a process that is killed now leaves them
func (x *snapdev) image() {
	if x.on {
		x.mu.Lock()
		x.images = append(x.images, x.files(x.dir))
		x.mu.Unlock()
	}
}

func openSnap(path string, unit int) (*nvm.SnapNVM, nvm.NonVolatileMemory, error) {
	f, _, err := nvm.Open(path)
	if err != nil {
		return nil, nil, err
	}
	n, err := nvm.NewSnapshotNVM(f)
	if err != nil {
		f.Close()
		return nil, nil, err
	}
	_, v, err := n.Split(uint64(unit))
	return n, v, err
}

func (x *snapdev) open() error {
	var err error
	x.n, x.view, err = openSnap(x.path, x.unit)
	x.rec = newRecorder(x.path, true)
	x.rec.before = func(*recorder) { x.image() }
	return err
}

// what write t leaves in the unit at p
func (x *snapdev) content(t, p int) []byte {
	k := [2]int{t, p}
	if x.cache[k] == nil {
		x.cache[k] = payload(t, p, p+x.unit)
	}
	return x.cache[k]
}

func (x *snapdev) sectors(b []byte) [][]int {
	res := [][]int{}
	for p := 0; p+x.unit <= len(b); p += x.unit {
		set := []int{}
		if p+x.unit <= len(x.first) && bytes.Equal(b[p:p+x.unit], x.first[p:p+x.unit]) {
			set = append(set, 1)
		}
		for t := 2; t <= x.tok; t++ {
			if b[p] == pat(t, p) && bytes.Equal(b[p:p+x.unit], x.content(t, p)) {
				set = append(set, t)
			}
		}
		res = append(res, set)
	}
	if len(b)%x.unit != 0 {
		res = append(res, []int{})
	}
	return res
}

// all of the snapshot from off on, in any chunks
func (x *snapdev) readShot(n *nvm.SnapNVM, off, l int) ([]byte, error) {
	if x.base > 0 && off < x.unit {
		k := x.unit - off
		if k > l {
			k = l
		}
		a, err := x.readPart(n, int64(off), k)
		if err != nil || k == l {
			return a, err
		}
		b, err := x.readPart(n, int64(x.unit)+x.base, l-k)
		return append(a, b...), err
	}
	return x.readPart(n, int64(off)+x.base, l)
}

func (x *snapdev) readPart(n *nvm.SnapNVM, off int64, l int) ([]byte, error) {
	rd, err := n.GetSnapshotReader()
	if err != nil {
		return nil, err
	}
	if _, err := rd.Seek(off, io.SeekStart); err != nil {
		return nil, err
	}
	res := []byte{}
	for calls := 0; len(res) < l && calls < 400; calls++ {
		b := make([]byte, 1+x.rng.Intn(700000))
		if len(b) > l-len(res) {
			b = b[:l-len(res)]
		}
		c, err := rd.Read(b)
		res = append(res, b[:c]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
	}
	return res, nil
}

// a new process on such files: what the device holds, what the snapshot
func (x *snapdev) probe(im map[string][]byte) M {
	dir, err := os.MkdirTemp(filepath.Dir(x.dir), "img")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for f, b := range im {
		x.writeFile(filepath.Join(dir, f), b)
	}
	path := filepath.Join(dir, filepath.Base(x.path))
	m := M{"e": "probe", "sg": x.sectors(im[filepath.Base(x.path)]), "has": false, "s1": [][]int{}, "s2": [][]int{}}
	res := caught(func() M {
		n, v, err := openSnap(path, x.unit)
		if err != nil {
			return M{"r": class(err), "msg": err.Error()}
		}
		defer n.Close()
		if len(backings(path)) == 0 {
			return M{"r": "ok"}
		}
		m["has"] = true
		b, err := x.readShot(n, 0, 1<<30)
		if err != nil {
			return M{"r": "readerr", "msg": err.Error()}
		}
		m["s1"] = x.sectors(b)
		// everything is overwritten: in one or several writes, after another restart perhaps
		if x.rng.Intn(2) == 0 {
			n.Close()
			if n, v, err = openSnap(path, x.unit); err != nil {
				return M{"r": class(err), "msg": err.Error()}
			}
		}
		for s := 1; s < x.size; {
			k := 1 + x.rng.Intn(1<<x.shift/x.unit)
			if s+k > x.size {
				k = x.size - s
			}
			w := alignedBuf(k * x.unit)
			copy(w, bytes.Repeat([]byte{0x5A}, len(w)))
			if _, err := v.WriteAt(w, x.pos(s)); err != nil {
				return M{"r": "write", "msg": err.Error()}
			}
			s += k
		}
		if b, err = x.readShot(n, 0, 1<<30); err != nil {
			return M{"r": "readerr", "msg": err.Error()}
		}
		m["s2"] = x.sectors(b)
		if err := n.DeleteSnapshot(); err != nil || len(backings(path)) != 0 {
			return M{"r": "undeleted"}
		}
		return M{"r": "ok"}
	})
	for k, v := range res {
		m[k] = v
	}
	return m
}

func (x *snapdev) do(op Op) M {
	switch op.O {
	case "write":
		x.tok++
		s, n := op.S, op.N
		b := alignedBuf(n * x.unit)
		copy(b, payload(x.tok, s*x.unit, (s+n)*x.unit))
		var c int
		var err error
		if x.rng.Intn(2) == 0 {
			c, err = x.view.WriteAt(b, x.pos(s))
		} else if _, err = x.view.Seek(x.pos(s), io.SeekStart); err == nil {
			c, err = x.view.Write(b)
		}
		if err == nil && c != len(b) {
			return M{"r": "short", "s": s, "n": n, "t": x.tok}
		}
		return M{"r": class(err), "s": s, "n": n, "t": x.tok}
	case "snapc":
		return M{"r": class(x.n.CreateSnapshotIfNeeded())}
	case "snapd":
		return M{"r": class(x.n.DeleteSnapshot())}
	case "read":
		if len(backings(x.path)) == 0 {
			return M{"r": "none", "s": op.S, "n": op.N, "sg": [][]int{}}
		}
		b, err := x.readShot(x.n, op.S*x.unit, op.N*x.unit)
		return M{"r": class(err), "s": op.S, "n": op.N, "sg": x.sectorsAt(b, op.S*x.unit)}
	case "reopen":
		if err := x.n.Close(); err != nil {
			return M{"r": class(err)}
		}
		x.rec.stop()
		return M{"r": class(x.open())}
	}
	return M{"r": "badop"}
}

func (x *snapdev) sectorsAt(b []byte, at int) [][]int {
	l := x.sectors(append(make([]byte, at), b...))
	return l[at/x.unit:]
}

func runSnapdev(s CompScript, seed int64, dir string, emit func(M)) {
	x := &snapdev{cache: map[[2]int][]byte{}, dir: filepath.Join(dir, "d"), size: num(s.Cfg["cap"]), tok: 1, shift: uint16(num(s.Cfg["shift"])), unit: num(s.Cfg["unit"]), rng: rand.New(rand.NewSource(seed))}
	os.Mkdir(x.dir, 0755)
	x.path = filepath.Join(x.dir, "s.lusf")
	nvmShift(x.shift)
	h := nvm.DefaultStorageHeader()
	h.JournalRegionSize = 512
	x.base = int64(num(s.Cfg["base"])) << x.shift
	h.DataRegionSize = uint64(x.size*x.unit) + uint64(x.base) - 1024
	var b bytes.Buffer
	h.WriteHeaderRegionTo(&b)
	x.first = append(b.Bytes(), payload(1, 512, x.size*x.unit)...)
	extra := num(s.Cfg["extra"])
	if err := x.writeFile(x.path, append(append([]byte{}, x.first...), make([]byte, extra*512)...)); err != nil {
		panic(err)
	}
	m := caught(func() M { return M{"r": class(x.open())} })
	m["e"] = "start"
	emit(m)
	if m["r"] != "ok" {
		return
	}
	setBackHook(func(op, name string) {
		if filepath.Dir(name) == x.dir {
			x.image()
		}
	})
	defer func() {
		setBackHook(nil)
		x.rec.stop()
		caught(func() M { x.n.DeleteSnapshot(); x.n.Close(); return M{} })
	}()
	look := func() {
		all, _ := x.readFile(x.path)
		if len(all) > x.size*x.unit && len(all) <= x.size*x.unit+extra*512 {
			all = all[:x.size*x.unit]
		}
		emit(M{"e": "look", "r": "ok", "sg": x.sectors(all), "files": len(backings(x.path))})
	}
	for _, op := range s.Ops {
		op := op
		if op.O == "crash" { // the files as they were at some moment of the last operation
			if len(x.images) == 0 {
				continue
			}
			im := x.images[op.B%len(x.images)]
			x.n.Close()
			x.rec.stop()
			for f := range x.files(x.dir) {
				os.Remove(filepath.Join(x.dir, f))
			}
			for f, b := range im {
				x.writeFile(filepath.Join(x.dir, f), b)
			}
			m := caught(func() M { return M{"r": class(x.open())} })
			m["e"] = "crash"
			emit(m)
			if m["r"] != "ok" {
				return
			}
			x.images = nil
			look()
			continue
		}
		if op.O != "read" {
			x.images, x.on = nil, true
		}
		m := caught(func() M { return x.do(op) })
		if op.O != "read" {
			x.image()
		}
		x.on = false
		m["e"] = op.O
		emit(m)
		if m["r"] == "panic" {
			return
		}
		if op.O == "read" {
			continue
		}
		look()
		l := x.images
		if max := num(s.Cfg["probes"]); len(l) > max {
			l = nil
			for _, k := range x.rng.Perm(len(x.images))[:max] {
				l = append(l, x.images[k])
			}
		}
		for _, im := range l {
			p := x.probe(im)
			for f := range im { // the extra bytes are no part of the device
				if f == filepath.Base(x.path) && len(im[f]) > x.size*x.unit && len(im[f]) <= x.size*x.unit+extra*512 {
					p["sg"] = x.sectors(im[f][:x.size*x.unit])
				}
			}
			emit(p)
		}
	}
}

func genSnapdev(profile string, seed int64, nops int) CompScript {
	r := rand.New(rand.NewSource(seed))
	shift := 20
	spr := []int{1, 2, 2, 4, 5}[r.Intn(5)]
	unit := 1 << shift / spr / 512 * 512
	size := 3 + r.Intn(3*spr+2)
	extra := 0
	if r.Intn(6) == 0 {
		extra = 1 + r.Intn(3000)
	}
	s := CompScript{Cfg: map[string]interface{}{"cap": size, "shift": shift, "unit": unit, "extra": extra, "probes": 4, "base": 0}}
	if profile == "far" { // all but the first unit behind the first 4 GB
		s.Cfg["base"] = 4096 + r.Intn(5000)
	}
	n := 24
	if nops > 0 {
		n = nops
	}
	for k := 0; k < n; k++ {
		op := Op{B: r.Intn(100)}
		switch x := r.Intn(100); {
		case x < 50:
			op.O, op.S = "write", 1+r.Intn(size-1)
			op.N = r.Intn(spr + 1)
			if op.N > size-op.S {
				op.N = size - op.S
			}
		case x < 62:
			op.O = "snapc"
		case x < 67:
			op.O = "snapd"
		case x < 84:
			op.O, op.S, op.N = "read", r.Intn(size+1), r.Intn(size+2)
		case x < 92:
			op.O = "reopen"
		default:
			op.O = "crash"
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

func init() {
	kinds["sdev"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		s := compScript(j, idx, genSnapdev)
		cur(s.Cfg)
		runSnapdev(s, j.seed*1000003+int64(idx), dir, emit)
		return s.Cfg
	}
}
