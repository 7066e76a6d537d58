package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/adler32"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage"
)

// M is one JSON object of a trace
type M map[string]interface{}

// Cfg describes the store of a script
type Cfg struct {
	Cuts    []int  `json:"cuts"`
	Cap     int    `json:"cap"`  // data blocks
	Journal int    `json:"jsec"` // sectors of the journal region
	Auto    bool   `json:"auto"` // automatic GC
	Mode    string `json:"mode"` // plain, kill, power, dev
	Seed    int64  `json:"seed"`
	Probes  int    `json:"probes"` // crash images per operation at most
	Name    string `json:"name"`
	Tot     int    `json:"tot"`             // sectors of the file, 0: enough for the others
	Num     int    `json:"num"`             // sixteenths of it for the journal
	Extra   int    `json:"extra,omitempty"` // bytes of the file behind the store
	Far     int    `json:"far,omitempty"`   // data blocks behind the first 4 GB, which are in use
}

// Op is one step of a script
type Op struct {
	O  string `json:"o"`
	I  int    `json:"i"`
	A  int    `json:"a"`
	B  int    `json:"b"`
	N  int    `json:"n"`
	S  int    `json:"s"`
	Rv int    `json:"rv"`
	K  string `json:"k,omitempty"`
	X  bool   `json:"x,omitempty"`
}

// Script is what the executor runs
type Script struct {
	Cfg Cfg  `json:"cfg"`
	Ops []Op `json:"ops"`
}

type exec struct {
	auto  bool  // automatic GC at the start
	oldRd int32 // a reader from before the close is read
	Script
	dir     string
	path    string
	st      *storage.Storage
	rec     *recorder
	tok     int64
	count   int // events so far
	rdMu    sync.Mutex
	lastRd  *nvm.SnapshotReader
	rng     *rand.Rand
	emit    func(M)
	nimg    int
	images  []image
	seen    map[[20]byte]bool
	opSync  bool
	moving  bool // collect images in the current operation
	ring    int  // capacity of the journal ring
	maxTok  int
	changes []change
	ringLog []int
	dead    bool
	gens    int      // number of the current crash image name
	mom     *moments // all device writes, if the trace is about snapshots
	copies  int64
	rds     map[int]*slot
	nears   map[string]*near
}

type change struct {
	region string
	lo, hi int // bytes (journal: in the ring; data: in the region)
}

const clip = 1000000000

func cl(n uint64) int {
	if n > clip {
		return clip
	}
	return int(n)
}

// a worker makes no further traces when an operation did not return
var hung int32

const hangAfter = 40 * time.Second

// class of an error
func class(err error) string {
	if err == nil {
		return "ok"
	}
	c := errors.Cause(err)
	switch c {
	case internalerror.StorageFull:
		return "full"
	case internalerror.JournalStorageFull:
		return "jfull"
	case internalerror.InvalidInput:
		return "inval"
	case internalerror.StorageClosed:
		return "closed"
	case internalerror.StorageCorrupted:
		return "corrupt"
	case errInjected:
		return "io"
	}
	if c == io.EOF {
		return "eof"
	}
	if os.IsNotExist(c) {
		return "noent"
	}
	if strings.Contains(err.Error(), errInjected.Error()) {
		return "io"
	}
	return "err"
}

// lookups: an error that is none of the known ones means that there is no such lump
func classGet(err error) string {
	c := class(err)
	if c == "err" {
		return "nf"
	}
	return c
}

func newExec(s Script, dir string, emit func(M)) *exec {
	e := &exec{Script: s, dir: dir, emit: emit, rng: rand.New(rand.NewSource(s.Cfg.Seed)), auto: s.Cfg.Auto, seen: map[[20]byte]bool{}}
	e.emit = func(m M) { e.count++; emit(m) }
	if e.Cfg.Probes == 0 {
		e.Cfg.Probes = 4
	}
	return e
}

func (e *exec) create() error {
	e.path = filepath.Join(e.dir, "s.lusf")
	capacity := 512 * uint64(1+e.Cfg.Journal+e.Cfg.Cap)
	ratio := (float64(e.Cfg.Journal)*512 - 100) / float64(capacity)
	if e.Cfg.Tot > 0 {
		capacity, ratio = 512*uint64(e.Cfg.Tot), float64(e.Cfg.Num)/16
	}
	st, err := storage.CreateCannylsStorage(e.path, capacity, ratio)
	if err != nil {
		return err
	}
	h := st.Header()
	e.Cfg.Cap = int(h.DataRegionSize / 512)
	e.Cfg.Journal = int(h.JournalRegionSize / 512)
	e.ring = int(h.JournalRegionSize) - 512
	e.st = st
	st.SetAutomaticGcMode(e.Cfg.Auto)
	if e.Cfg.Far > 0 {
		if err := e.faraway(); err != nil {
			return err
		}
	}
	if e.Cfg.Extra > 0 { // a file longer than its store
		if err := os.Truncate(e.path, int64(h.StorageSize())+int64(e.Cfg.Extra)); err != nil {
			return err
		}
		if e.mom != nil {
			e.mom.max = int64(h.StorageSize())
		}
	}
	e.attach()
	return nil
}

// far stores: the first blocks belong to lumps that were put there by their records, so
// all others lie behind the first 4 GB, in a file with holes
const (
	farLump  = uint64(1) << 50
	farCount = 130
	farFirst = farCount * 65535
)

func (e *exec) faraway() error {
	h := e.st.Header()
	e.st.Close()
	f, err := os.OpenFile(e.path, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	size := uint64(farFirst+e.Cfg.Far) * 512
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], size)
	if _, err = f.WriteAt(b[:], 36); err == nil {
		err = f.Truncate(int64(512 + h.JournalRegionSize + size))
	}
	f.Close()
	if err != nil {
		return err
	}
	e.Cfg.Cap = e.Cfg.Far
	for k := 0; k < 2; k++ {
		if e.st, err = storage.OpenCannylsStorage(e.path); err != nil {
			return err
		}
		for j := uint64(0); k == 0 && j < farCount; j++ {
			if err = e.st.WriteRecord(lump.FromU64(0, farLump+j), portion.NewDataPortion(j*65535, 65535)); err != nil {
				return err
			}
		}
		if k == 0 {
			e.st.Close()
		}
	}
	e.st.SetAutomaticGcMode(e.Cfg.Auto)
	return nil
}

// the lumps of a store without those that only fill the space in front
func (e *exec) list(st *storage.Storage) []lump.LumpId {
	l := st.List()
	if e.Cfg.Far == 0 {
		return l
	}
	r := l[:0]
	for _, id := range l {
		if x := id.U64(); x < farLump || x >= farLump+farCount {
			r = append(r, id)
		}
	}
	return r
}

func (e *exec) far(n int) uint64 {
	if e.Cfg.Far > 0 {
		return uint64(n)
	}
	return 0
}

// start recording the file of the open store
func (e *exec) attach() {
	if e.rec != nil {
		e.rec.stop()
	}
	e.rec = newRecorder(e.path, e.Cfg.Far > 0)
	if e.probing() {
		e.rec.before = e.boundary
	}
	e.rds = map[int]*slot{}
	if e.mom != nil {
		if e.mom.base == nil {
			e.mom.base, e.mom.size0 = append([]byte{}, e.rec.img...), e.rec.size
		}
		e.rec.onw = func(off int64, old, buf []byte) { e.mom.write(off, buf) }
	}
	e.rec.synced = func() { e.opSync = true }
	if e.Cfg.Mode == "dev" {
		e.rec.onw = e.onWrite
		e.rec.after = e.afterWrite
		e.ringLog = e.parseRing(e.rec.img)
		e.emit(M{"e": "ring", "r": "ok", "k": "init", "l": e.ringLog})
	}
}

func (e *exec) probing() bool {
	return e.Cfg.Mode == "kill" || e.Cfg.Mode == "power" || e.Cfg.Mode == "snap" && e.Cfg.Probes > 0
}

// a device write or sync of the current operation is about to start
func (e *exec) boundary(r *recorder) {
	if !e.moving {
		return
	}
	if e.Cfg.Mode == "snap" && e.rng.Intn(5) != 0 {
		return
	}
	if e.rng.Intn(3) != 0 && len(e.images) > 2*e.Cfg.Probes {
		return
	}
	e.snap(r, true)
}

func (e *exec) add(im image) {
	h := im.hash()
	if e.seen[h] {
		return
	}
	e.images = append(e.images, im)
}

func (e *exec) snap(r *recorder, mid bool) {
	if e.Cfg.Mode == "kill" || e.Cfg.Mode == "snap" {
		im := r.killImage()
		im.mid = mid
		im.files = e.backing()
		e.add(im)
		return
	}
	n := len(r.pending)
	one := func(keep func(k, n int) bool) {
		im := r.powerImage(keep)
		im.mid = mid
		e.add(im)
	}
	switch e.rng.Intn(4) {
	case 0: // all but one
		if n > 0 {
			x := e.rng.Intn(n)
			one(func(k, n int) bool { return k != x })
		}
	case 1: // only one
		if n > 0 {
			x := e.rng.Intn(n)
			one(func(k, n int) bool { return k == x })
		}
	case 2: // a prefix
		x := e.rng.Intn(n + 1)
		one(func(k, n int) bool { return k < x })
	default:
		one(func(k, n int) bool { return e.rng.Intn(2) == 0 })
	}
	if n > 0 && e.rng.Intn(2) == 0 { // only the last ones, only the first ones missing
		x := e.rng.Intn(n)
		one(func(k, n int) bool { return k >= x })
	}
}

// which bytes of which region did a write change
func (e *exec) onWrite(off int64, old, buf []byte) {
	j0 := int64(512)
	r0 := int64(1024)
	d0 := 512 + int64(e.Cfg.Journal)*512
	end := d0 + int64(e.Cfg.Cap)*512
	regionOf := func(p int64) (string, int64) {
		switch {
		case p < j0:
			return "h", 0
		case p < r0:
			return "jh", j0
		case p < d0:
			return "j", r0
		case p < end:
			return "d", d0
		}
		return "x", end
	}
	// maximal changed runs inside 512-byte steps, merged per region
	for k := 0; k < len(buf); {
		if buf[k] == old[k] {
			p := off + int64(k)
			if g, _ := regionOf(p); g != "x" {
				k++
				continue
			}
		}
		p := off + int64(k)
		g, base := regionOf(p)
		lo := int(p - base)
		hi := lo + 1
		last := k
		for k++; k < len(buf); k++ {
			p2 := off + int64(k)
			if g2, _ := regionOf(p2); g2 != g {
				break
			}
			if g == "d" && (p2-base)%512 == 0 && buf[k] == old[k] {
				break
			}
			if buf[k] != old[k] {
				last = k
				hi = int(p2-base) + 1
			} else if k-last > 4 {
				break
			}
		}
		e.changes = append(e.changes, change{g, lo, hi})
	}
}

func (e *exec) id(code int) lump.LumpId { return lump.FromU64(0, idOf(code)) }

func (e *exec) at(k int) int { return e.Cfg.Cuts[k] }

// the segments of data which starts at from
func (e *exec) segs(data []byte, from int) [][]int {
	return segsOf(data, from, e.Cfg.Cuts, int(atomic.LoadInt64(&e.tok)))
}

func aligned(b []byte) lump.LumpData {
	d := lump.NewLumpDataWithAb(block.NewAlignedBytes(len(b), block.Min()))
	copy(d.AsBytes(), b)
	return d
}

func codes(ids []lump.LumpId) []int {
	r := []int{}
	for _, i := range ids {
		r = append(r, codeOf(i.U64()))
	}
	return r
}

// contents of an open store
func (e *exec) dump(st *storage.Storage) M {
	ids := e.list(st)
	d := []M{}
	for _, id := range ids {
		b, err := st.Get(id)
		n, err2 := st.GetSize(id)
		sz, _ := st.GetSizeOnDisk(id)
		x := M{"i": codeOf(id.U64()), "r": classGet(err), "n": len(b), "s": cl(uint64(sz)), "sg": e.segs(b, 0)}
		if err == nil && (err2 != nil || int(n) != len(b)) {
			x["r"] = "size"
		}
		d = append(d, x)
	}
	return M{"cnt": cl(st.Usage().FileCounts - e.far(farCount)), "d": d}
}

// call f, give up on it after a while
func (e *exec) guard(f func() M) (m M) {
	done := make(chan M, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- M{"r": "panic", "msg": fmt.Sprint(p)}
			}
		}()
		done <- f()
	}()
	select {
	case m = <-done:
	case <-time.After(hangAfter):
		m = M{"r": "hang"}
		e.dead = true
		atomic.StoreInt32(&hung, 1)
	}
	return
}

// open an image in its own file and return its contents
func (e *exec) probe(im image) M {
	e.gens++
	dir := filepath.Join(e.dir, fmt.Sprintf("p%d", e.gens))
	os.Mkdir(dir, 0755)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "s.lusf")
	im.write(path)
	kind := "kill"
	if im.power {
		kind = "power"
	}
	m := e.guard(func() M {
		st, err := storage.OpenCannylsStorage(path)
		if err != nil {
			return M{"r": "openerr", "msg": err.Error()}
		}
		m := e.dump(st)
		if e.Cfg.Mode == "snap" {
			m["sh"], st = e.shotOf(path, st)
		}
		st.Close()
		m["r"] = "ok"
		return m
	})
	m["e"] = "probe"
	m["k"] = kind
	m["mid"] = im.mid
	if _, ok := m["d"]; !ok {
		m["d"] = []M{}
		m["cnt"] = 0
	}
	return m
}

func (e *exec) owned() []M {
	l := []M{}
	for _, id := range e.list(e.st) {
		p, err := e.st.GetRecord(id)
		if err == nil {
			l = append(l, M{"i": codeOf(id.U64()), "s": cl(p.Start.AsU64() - e.far(farFirst)), "n": int(p.Len)})
		}
	}
	return l
}

func (e *exec) run() {
	e.emit(M{"e": "start", "r": "ok"})
	for _, op := range e.Ops {
		if e.dead {
			return
		}
		e.step(op)
	}
	if e.st != nil && !e.dead {
		m := e.guard(func() M { e.st.Close(); return M{"r": "ok"} })
		if m["r"] != "ok" {
			m["e"] = "close"
			e.emit(m)
		}
	}
}

func (e *exec) step(op Op) {
	switch op.O {
	case "fault":
		e.rec.mu.Lock()
		e.rec.faultKind, e.rec.faultN, e.rec.faultRun, e.rec.fired = op.K, op.N, op.S, false
		e.rec.mu.Unlock()
		return
	case "probe":
		e.rec.mu.Lock()
		e.images = nil
		if e.Cfg.Mode == "kill" {
			e.add(e.rec.killImage())
		} else {
			for k := 0; k < op.N; k++ {
				e.snap(e.rec, false)
			}
		}
		e.rec.mu.Unlock()
		e.probeImages()
		return
	case "spoil":
		e.spoil(op)
		return
	case "crash":
		e.crash(op)
		return
	}
	e.opSync = false
	e.images = nil
	e.changes = nil
	e.moving = e.probing()
	m := e.guard(func() M { return e.do(op) })
	e.moving = false
	if m == nil {
		return
	}
	m["e"] = op.O
	if e.opSync {
		e.emit(M{"e": "autosync", "r": "ok"})
	}
	e.rec.mu.Lock()
	fired := e.rec.fired
	e.rec.fired = false
	if e.rec.faultN > 0 {
		e.rec.faultN = 0
	}
	e.rec.mu.Unlock()
	m["flt"] = fired
	if m["r"] == "panic" && fired {
		// fail-stop: the process ends here
		m["r"] = "failstop"
		for k, v := range e.args(op) {
			m[k] = v
		}
		e.dead = true
	}
	e.emit(m)
	if e.Cfg.Mode == "dev" && !e.dead {
		e.writesDone(op)
		if op.O != "close" {
			e.emit(M{"e": "own", "r": "ok", "p": e.owned()})
		}
	}
	if m["r"] == "failstop" {
		e.crash(Op{O: "crash", K: "kill"})
		return
	}
	if e.dead {
		return
	}
	if len(e.images) > 0 {
		e.probeImages()
	}
}

func changesOf(l []change) []M {
	w := []M{}
	for _, c := range l {
		w = append(w, M{"g": c.region, "lo": c.lo, "hi": c.hi})
	}
	return w
}

// the records that a restart would find in the journal, as far as they are sound:
// one hash for each, with its position
func (e *exec) parseRing(img []byte) []int {
	l := []int{}
	if n := 1024 + e.ring; len(img) < n {
		img = append(append([]byte{}, img...), make([]byte, n-len(img))...)
	}
	ring := img[1024 : 1024+e.ring]
	p := int(binary.BigEndian.Uint64(img[512:520]))
	for wrapped := false; ; {
		if p < 0 || p+5 > len(ring) {
			return l
		}
		size := 5
		switch ring[p+4] {
		case 1:
			if wrapped || binary.BigEndian.Uint32(ring[p:]) != 131074 {
				return l
			}
			wrapped = true
			p = 0
			continue
		case 3:
			size = 20
		case 4:
			if p+15 > len(ring) {
				return l
			}
			size = 15 + int(binary.BigEndian.Uint16(ring[p+13:]))
		case 5:
			size = 13
		case 6:
			size = 21
		default:
			return l
		}
		if p+size > len(ring) || !sound(ring[p:p+size]) {
			return l
		}
		h := fnv.New32()
		fmt.Fprint(h, p)
		h.Write(ring[p : p+size])
		l = append(l, int(h.Sum32()>>2))
		p += size
		if len(l) > len(ring)/13+1 {
			return l
		}
	}
}

// where the live records and marks are in the file
func (e *exec) spans(img []byte) (l [][2]int) {
	if n := 1024 + e.ring; len(img) < n {
		img = append(append([]byte{}, img...), make([]byte, n-len(img))...)
	}
	ring := img[1024 : 1024+e.ring]
	for p := int(binary.BigEndian.Uint64(img[512:520])); p >= 0 && p+5 <= len(ring) && len(l) < 100000; {
		size := 5
		switch ring[p+4] {
		case 3:
			size = 20
		case 4:
			size = 15 + int(binary.BigEndian.Uint16(ring[p+13:]))
		case 5:
			size = 13
		case 6:
			size = 21
		}
		l = append(l, [2]int{1024 + p, 1024 + p + size})
		switch ring[p+4] {
		case 0:
			return
		case 1:
			p = 0
		default:
			p += size
		}
	}
	return
}

// a copy of the file with some altered bytes in its journal is opened
func (e *exec) spoil(op Op) {
	e.rec.mu.Lock()
	im := e.rec.killImage()
	e.rec.mu.Unlock()
	sp := e.spans(im.data)
	if len(sp) == 0 {
		return
	}
	data := append([]byte{}, im.data...)
	k := "record"
	if op.X { // in the free part of the ring
		k = "free"
		p := 1024 + e.rng.Intn(e.ring)
		for _, s := range sp {
			if s[0] <= p && p < s[1] {
				return
			}
		}
		if p >= len(data) {
			return
		}
		data[p] ^= byte(1 + e.rng.Intn(255))
	} else {
		s := sp[e.rng.Intn(len(sp))]
		if op.S == 0 {
			s = sp[len(sp)-1]
		}
		for n := 1 + e.rng.Intn(2); n > 0; n-- {
			p := s[0] + e.rng.Intn(s[1]-s[0])
			if e.rng.Intn(4) == 0 {
				p = s[0] + 4
			}
			if data[p] == im.data[p] {
				data[p] ^= byte(1 + e.rng.Intn(255))
			}
		}
	}
	m := e.probe(image{data: data})
	m["e"], m["k"] = "spoil", k
	e.emit(m)
}

// the checksum of a record is right
func sound(b []byte) bool { return adler32.Checksum(b[4:]) == binary.BigEndian.Uint32(b) }

// what a write to the journal region changed there
func (e *exec) afterWrite(off int64, n int) {
	k := "ring"
	switch {
	case off < 1024 && off+int64(n) > 512:
		k = "head"
	case off >= 1024+int64(e.ring):
		return
	}
	l := e.parseRing(e.rec.img)
	same := len(l) == len(e.ringLog)
	for x := 0; same && x < len(l); x++ {
		same = l[x] == e.ringLog[x]
	}
	if !same {
		e.ringLog = l
		e.emit(M{"e": "ring", "r": "ok", "k": k, "l": l})
	}
}

// report the changes of the operation outside the journal ring
func (e *exec) writesDone(op Op) {
	rest := []change{}
	for _, c := range e.changes {
		if c.region != "j" {
			rest = append(rest, c)
		}
	}
	e.changes = nil
	if len(rest) > 0 {
		e.emit(M{"e": "writes", "r": "ok", "o": op.O, "i": op.I, "w": changesOf(rest)})
	}
}

func (e *exec) probeImages() {
	l := e.images
	e.images = nil
	e.rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	if len(l) > e.Cfg.Probes {
		l = l[:e.Cfg.Probes]
	}
	for _, im := range l {
		h := im.hash()
		if e.seen[h] {
			continue
		}
		e.emit(e.probe(im))
	}
}

// the process or the machine dies, and the store is opened again
func (e *exec) crash(op Op) {
	e.rec.mu.Lock()
	var im image
	if op.K == "power" {
		im = e.rec.powerImage(func(k, n int) bool { return e.rng.Intn(2) == 0 })
	} else {
		im = e.rec.killImage()
		im.files = e.backing()
	}
	e.rec.mu.Unlock()
	// the old process: its file is not used any more
	old, path := e.st, e.path
	e.rec.stop()
	e.rec = nil
	if !e.dead {
		e.guard(func() M { old.Close(); return M{"r": "ok"} })
	}
	e.dead = false
	e.gens++
	dir := filepath.Join(e.dir, fmt.Sprintf("c%d", e.gens))
	os.Mkdir(dir, 0755)
	os.Remove(path)
	e.path = filepath.Join(dir, "s.lusf")
	im.write(e.path)
	for _, x := range e.nears {
		for f := range x.files {
			os.Rename(filepath.Join(filepath.Dir(path), f), filepath.Join(dir, f))
		}
	}
	m := e.guard(func() M {
		st, err := storage.OpenCannylsStorage(e.path)
		if err != nil {
			return M{"r": "openerr", "msg": err.Error()}
		}
		e.st = st
		st.SetAutomaticGcMode(e.Cfg.Auto)
		m := e.dump(st)
		m["r"] = "ok"
		return m
	})
	m["e"] = "crash"
	m["k"] = "kill"
	if im.power {
		m["k"] = "power"
	}
	if _, ok := m["d"]; !ok {
		m["d"] = []M{}
		m["cnt"] = 0
		e.dead = true
	}
	e.emit(m)
	if !e.dead {
		e.attach()
	}
}

// the arguments of a modifying operation that did not return
func (e *exec) args(op Op) M {
	m := M{"i": op.I, "a": op.A, "b": op.B, "t": e.tok, "n": 0, "s": 0, "rv": 0, "up": false, "sz": 0}
	switch op.O {
	case "put", "pute":
		m["n"] = clip
		if op.N >= 0 {
			m["n"] = e.at(op.N)
		}
	case "puto":
		if op.S >= 0 && op.Rv >= 0 {
			m["s"], m["n"], m["rv"] = e.at(op.S), e.at(op.N)-e.at(op.S), e.at(op.Rv)
		}
	}
	return m
}

func (e *exec) do(op Op) M {
	st := e.st
	id := e.id(op.I)
	switch op.O {
	case "put", "pute":
		tok := int(atomic.AddInt64(&e.tok, 1))
		var n int
		if op.N < 0 { // too large
			n = lump.LUMP_MAX_SIZE + 1
			if op.O == "pute" {
				n = lump.MAX_EMBEDDED_SIZE + 1
			}
		} else {
			n = e.at(op.N)
		}
		b := payload(tok, 0, n)
		var up bool
		var err error
		if op.O == "put" {
			up, err = st.Put(id, aligned(b))
		} else {
			up, err = st.PutEmbed(id, b)
		}
		return M{"r": class(err), "i": op.I, "t": tok, "n": n, "up": up}
	case "burst":
		tok := int(atomic.AddInt64(&e.tok, 1))
		n := e.at(op.N)
		b := payload(tok, 0, n)
		var up bool
		var err error
		done := 0
		for done < op.S {
			e.moving = e.probing() && (done < 2 || e.rng.Intn(700) == 0)
			u, er := st.PutEmbed(id, b)
			if done == 0 {
				up = u
			}
			if err = er; err != nil {
				break
			}
			done++
		}
		return M{"r": class(err), "i": op.I, "t": tok, "n": n, "up": up, "done": done}
	case "cycle":
		tok := int(atomic.AddInt64(&e.tok, 1))
		n := e.at(op.N)
		b := aligned(payload(tok, 0, n))
		m := M{"i": op.I, "t": tok, "n": n, "up": false, "there": false}
		var err error
		done := 0
		for done < op.S {
			u, er := st.Put(id, b)
			if done == 0 {
				m["up"] = u
			}
			if err = er; err != nil {
				break
			}
			done++
			m["there"] = true
			if op.X && done < op.S {
				if _, _, err = st.Delete(id); err != nil {
					break
				}
				m["there"] = false
			}
			if done%(1+op.A) == 0 {
				st.Sync()
			}
		}
		m["r"], m["done"] = class(err), done
		return m
	case "puto":
		tok := int(atomic.AddInt64(&e.tok, 1))
		s, n, rv := uint32(0), 0, uint32(0)
		if op.S >= 0 {
			s = uint32(e.at(op.S))
			n = e.at(op.N) - e.at(op.S)
		} else { // an offset far behind
			s = uint32(0xffffffff) - uint32(-op.S-1)
			n = e.at(op.N)
		}
		switch {
		case op.Rv >= 0:
			rv = uint32(e.at(op.Rv))
		default:
			rv = lump.LUMP_MAX_SIZE + 1
		}
		if n < 0 {
			n = 0
		}
		b := payload(tok, int(s), int(s)+n)
		err := st.PutWithOffset(id, aligned(b), s, rv)
		return M{"r": class(err), "i": op.I, "t": tok, "s": cl(uint64(s)), "n": n, "rv": cl(uint64(rv))}
	case "del":
		up, sz, err := st.Delete(id)
		return M{"r": class(err), "i": op.I, "up": up, "sz": cl(uint64(sz))}
	case "delr":
		err := st.DeleteRange(e.id(op.A), e.id(op.B), op.X)
		return M{"r": class(err), "a": op.A, "b": op.B}
	case "get":
		b, err := st.Get(id)
		return M{"r": classGet(err), "i": op.I, "n": len(b), "sg": e.segs(b, 0)}
	case "geto":
		s, l := uint32(0), uint32(0)
		if op.S >= 0 {
			s = uint32(e.at(op.S))
		} else {
			s = uint32(0xffffffff) - uint32(-op.S-1)
		}
		if op.N >= 0 {
			l = uint32(e.at(op.N)) - s
			if op.S < 0 || e.at(op.N) < e.at(op.S) {
				l = uint32(e.at(op.N))
			}
		} else {
			l = uint32(0xffffffff) - uint32(-op.N-1)
		}
		b, err := st.GetWithOffset(id, s, l)
		m := M{"r": classGet(err), "i": op.I, "s": cl(uint64(s)), "l": cl(uint64(l)), "n": len(b), "sg": [][]int{}}
		if int64(s) < clip {
			m["sg"] = e.segs(b, int(s))
		}
		return m
	case "size":
		n, err := st.GetSize(id)
		return M{"r": classGet(err), "i": op.I, "n": cl(uint64(n))}
	case "sod":
		n, err := st.GetSizeOnDisk(id)
		return M{"r": classGet(err), "i": op.I, "n": cl(uint64(n))}
	case "list":
		return M{"r": "ok", "l": codes(st.List())}
	case "listr":
		return M{"r": "ok", "a": op.A, "b": op.B, "n": op.N, "l": codes(st.ListRange(e.id(op.A), e.id(op.B), uint64(op.N)))}
	case "min":
		i, ok := st.MinId()
		return M{"r": "ok", "i": codeOf(i.U64()), "ok": ok}
	case "max":
		i, ok := st.MaxId()
		return M{"r": "ok", "i": codeOf(i.U64()), "ok": ok}
	case "first":
		i, err := st.First(id)
		return M{"r": classGet(err), "a": op.I, "i": codeOf(i.U64())}
	case "gen":
		i, ok := st.GenerateEmptyId()
		return M{"r": "ok", "i": codeOf(i.U64()), "ok": ok}
	case "usage":
		u := st.Usage()
		ms := 0
		if u.MaxSegmentSize > 0 {
			ms = int(u.MaxSegmentSize+2+511) / 512
		}
		return M{"r": "ok", "n": cl(u.FileCounts - e.far(farCount)), "fr": cl(u.DataFreeBytes / 512), "fx": int(u.DataFreeBytes % 512),
			"ms": ms, "dc": cl(u.DataCapacity/512 - e.far(farFirst)), "jc": cl(u.JournalCapacity), "ju": cl(u.JournalUsageBytes)}
	case "alloc":
		r := []int{}
		for _, f := range st.GetAllocationStatus() {
			r = append(r, int(f*1000+0.5))
		}
		return M{"r": "ok", "l": r}
	case "flush":
		st.Flush()
		return M{"r": "ok"}
	case "sync":
		st.Sync()
		return M{"r": "ok"}
	case "gc":
		st.JournalGC()
		return M{"r": "ok"}
	case "side":
		st.RunSideJobOnce(op.N)
		return M{"r": "ok"}
	case "auto":
		st.SetAutomaticGcMode(op.N != 0)
		e.Cfg.Auto = op.N != 0
		return M{"r": "ok", "on": op.N != 0}
	case "own":
		return M{"r": "ok", "p": e.owned()}
	case "journal":
		js := st.JournalSnapshot()
		return M{"r": "ok", "uh": cl(js.UnreleasedHead), "h": cl(js.Head), "t": cl(js.Tail), "n": len(js.Entries)}
	case "dump":
		m := e.dump(st)
		m["r"] = "ok"
		return m
	case "emptyusage":
		return M{"r": "ok", "ju": cl(st.Usage().JournalUsageBytes), "n": cl(st.Usage().FileCounts)}
	case "close":
		st.Close()
		return M{"r": "ok"}
	case "open":
		n, err := storage.OpenCannylsStorage(e.path)
		if err != nil {
			return M{"r": "openerr", "msg": err.Error()}
		}
		e.st = n
		e.rds = map[int]*slot{}
		n.SetAutomaticGcMode(e.Cfg.Auto)
		return M{"r": "ok"}
	}
	return e.doSnap(op)
}

func sortedKeys(m map[string]int) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = json.Marshal
