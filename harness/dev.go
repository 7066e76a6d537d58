package main

import (
	"crypto/sha1"
	"errors"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/thesues/cannyls-go/nvm"
)

var errInjected = errors.New("injected device error")

type devWrite struct {
	off int64
	buf []byte
}

// what one file went through: its contents now, at its last completed sync, and the
// writes since then
type recorder struct {
	mu      sync.Mutex
	name    string
	img     []byte
	size    int64
	durable []byte
	dsize   int64
	pending []devWrite
	syncing int // len(pending) when the sync in progress started
	nwrite  int
	nsync   int
	nread   int

	before func(r *recorder)                // called (locked) before a write, sync
	onw    func(off int64, old, buf []byte) // called (locked) with each write
	after  func(off int64, n int)           // called (locked) after each write
	synced func()

	// fault injection: fail the n-th (from 1) op of the kind
	faultKind string
	faultN    int
	faultRun  int // so many ops of the kind fail
	fired     bool
	bare      bool                              // the file is too long to keep its image
	gate      func(op string, off int64, n int) // called unlocked before each op (schedules)
}

var (
	recMu sync.RWMutex
	recs  = map[string]*recorder{}
)

// called at the device operations of backing files
var backHook func(op, name string)

func setBackHook(f func(op, name string)) {
	recMu.Lock()
	backHook = f
	recMu.Unlock()
}

func init() {
	nvm.VerifIO = verifIO
}

func record(name string) *recorder { return newRecorder(name, false) }

func newRecorder(name string, bare bool) *recorder {
	r := &recorder{name: name, bare: bare}
	if bare {
	} else if b, err := os.ReadFile(name); err == nil {
		r.img = append([]byte{}, b...)
		r.size = int64(len(b))
		r.durable = append([]byte{}, b...)
		r.dsize = r.size
	}
	recMu.Lock()
	recs[name] = r
	recMu.Unlock()
	return r
}

func (r *recorder) stop() {
	recMu.Lock()
	delete(recs, r.name)
	recMu.Unlock()
}

func verifIO(op, name string, off int64, buf []byte) error {
	if strings.HasPrefix(op, "backing-") {
		recMu.RLock()
		f := backHook
		recMu.RUnlock()
		if f != nil {
			f(op, name)
		}
		return nil
	}
	recMu.RLock()
	r := recs[name]
	recMu.RUnlock()
	if r == nil {
		return nil
	}
	if r.gate != nil {
		r.gate(op, off, len(buf))
	}
	if strings.HasPrefix(op, "enter-") {
		return nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	switch op {
	case "write", "sync":
		if r.before != nil {
			r.before(r)
		}
	}
	if op == r.faultKind && r.faultN > 0 {
		r.faultN--
		if r.faultN == 0 {
			r.fired = true
			if r.faultRun > 1 {
				r.faultRun--
				r.faultN = 1
			}
			return errInjected
		}
	}
	switch op {
	case "read":
		r.nread++
	case "write":
		r.nwrite++
		if r.bare {
			break
		}
		w := devWrite{off, append([]byte{}, buf...)}
		if r.onw != nil {
			old := make([]byte, len(buf))
			if off < int64(len(r.img)) {
				copy(old, r.img[off:])
			}
			r.onw(off, old, buf)
		}
		apply(&r.img, &r.size, w)
		r.pending = append(r.pending, w)
		if r.after != nil {
			r.after(off, len(buf))
		}
	case "sync":
		r.syncing = len(r.pending)
	case "synced":
		r.nsync++
		for _, w := range r.pending[:r.syncing] {
			apply(&r.durable, &r.dsize, w)
		}
		r.pending = append([]devWrite{}, r.pending[r.syncing:]...)
		if r.synced != nil {
			r.synced()
		}
	}
	return nil
}

func apply(img *[]byte, size *int64, w devWrite) {
	end := w.off + int64(len(w.buf))
	if end > int64(len(*img)) {
		n := make([]byte, end+end/2)
		copy(n, *img)
		*img = n
	}
	if end > *size {
		*size = end
	}
	copy((*img)[w.off:], w.buf)
}

type image struct {
	power bool
	mid   bool
	data  []byte
	files map[string][]byte // the backing files of snapshots
}

func (im image) hash() [20]byte {
	h := sha1.New()
	h.Write(im.data)
	for _, b := range im.files {
		h.Write(b)
	}
	var r [20]byte
	copy(r[:], h.Sum(nil))
	return r
}

func (im image) write(path string) {
	os.WriteFile(path, im.data, 0644)
	for f, b := range im.files {
		os.WriteFile(filepath.Join(filepath.Dir(path), f), b, 0644)
	}
}

// the snapshot files of the store now
func (e *exec) backing() map[string][]byte {
	if e.Cfg.Mode != "snap" {
		return nil
	}
	m := map[string][]byte{}
	l, _ := filepath.Glob(filepath.Join(filepath.Dir(e.path), "s_????????-*_lusf.snapshot*"))
	for _, f := range l {
		b, _ := os.ReadFile(f)
		m[filepath.Base(f)] = b
	}
	return m
}

// the file as a process kill leaves it
func (r *recorder) killImage() image {
	return image{data: append([]byte{}, r.img[:r.size]...)}
}

// the file as a power failure may leave it: keep tells which of the pending writes
// are there
func (r *recorder) powerImage(keep func(k, n int) bool) image {
	data := append([]byte{}, r.durable[:r.dsize]...)
	size := r.dsize
	for k, w := range r.pending {
		if keep(k, len(r.pending)) {
			apply(&data, &size, w)
		}
	}
	return image{power: true, data: data[:size]}
}
