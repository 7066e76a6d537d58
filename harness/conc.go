package main

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
)

// Several threads use one store. Device operations are held up now and then until
// others have got on, so that operations overlap in many ways. The trace has the calls
// (with the results they got later) and the returns, in the order in which they
// happened.

type concLog struct {
	mu   sync.Mutex
	evs  []M
	done int64
}

func (c *concLog) call(th int, op Op, e *exec) (int, M) {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := M{"e": op.O, "ph": "call", "th": th, "flt": false, "r": "hang", "may": e.Cfg.Mode != "snap" || op.B >= 100, "i": op.I, "a": op.A, "b": op.B}
	c.evs = append(c.evs, m)
	return len(c.evs), m
}

func (c *concLog) ret(th, q int, call, res M) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, v := range res {
		call[k] = v
	}
	c.evs = append(c.evs, M{"e": "ret", "ph": "ret", "th": th, "q": q, "r": "ok"})
	atomic.AddInt64(&c.done, 1)
}

var concOps = weights{"put": 18, "pute": 7, "puto": 12, "del": 11, "delr": 3, "get": 22, "geto": 10, "size": 5, "sod": 2, "list": 2, "listr": 2,
	"min": 1, "max": 1, "first": 1, "gen": 1, "usage": 2, "sync": 7, "flush": 2, "side": 5, "gc": 2, "journal": 1}
var closeOps = merge(concOps, weights{"snapc": 5, "snapd": 4, "snapr": 4})

func concScript(name string, seed int64, nops int) (s Script, threads [][]Op, after []Op) {
	r := rand.New(rand.NewSource(seed))
	cuts := map[int]bool{0: true}
	for n := between(r, 4, 7); len(cuts) < n; {
		cuts[sizes[r.Intn(len(sizes))]] = true
	}
	s.Cfg.Cuts = sortedInts(cuts)
	s.Cfg.Cap = 1200
	s.Cfg.Journal = between(r, 12, 40)
	s.Cfg.Auto = r.Intn(5) != 0
	s.Cfg.Mode = "plain"
	s.Cfg.Seed = seed
	s.Cfg.Name = name
	nc := len(s.Cfg.Cuts)
	pool := []int{0, 1, 2, 3, 4, 38, 40, 41, 44, 45, 149, 150}
	ids := []int{}
	for n := between(r, 1, 4); len(ids) < n; {
		ids = append(ids, pool[r.Intn(len(pool))])
	}
	id := func() int {
		if r.Intn(12) == 0 && s.Cfg.Probes != 1 {
			return pool[r.Intn(len(pool))]
		}
		return ids[r.Intn(len(ids))]
	}
	w := concOps
	if name == "close" {
		w = closeOps
	}
	tight := r.Intn(4) == 0 // blocks change hands quickly
	if tight {
		s.Cfg.Probes = 1
		s.Cfg.Cuts = []int{0, between(r, 1, 500), between(r, 530, 2000)}
		nc = 3
		s.Cfg.Cap = 50 * ((s.Cfg.Cuts[2] + 513) / 512)
		ids = []int{pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]}
		w = weights{"put": 40, "get": 20, "geto": 10, "size": 2, "sync": 35, "del": 6, "puto": 3, "side": 2, "usage": 2}
	}
	switch r.Intn(4) { // some traces concentrate on few operations
	case 0:
		if tight {
			break
		}
		w = merge(w, weights{"put": 30, "get": 30, "del": 20, "sync": 20})
	case 1:
		if tight {
			break
		}
		w = merge(w, weights{"puto": 60, "geto": 20, "get": 30})
	}
	gen := func() Op {
		o := pick(r, w)
		op := Op{O: o, I: id(), N: r.Intn(nc)}
		switch o {
		case "put":
			if tight { // all of the same number of blocks: freed ones are taken again
				op.N = nc - 1
			}
		case "puto":
			a, b := r.Intn(nc), r.Intn(nc)
			if a > b {
				a, b = b, a
			}
			op.S, op.N, op.Rv = a, b, r.Intn(nc)
			if tight {
				op.Rv = nc - 1
			}
		case "geto":
			a, b := r.Intn(nc), r.Intn(nc)
			if a > b {
				a, b = b, a
			}
			op.S, op.N = a, b
		case "delr", "listr":
			op.A, op.B = id(), id()
			if op.A > op.B {
				op.A, op.B = op.B, op.A
			}
			if r.Intn(3) == 0 {
				op.B++
				if op.B == 39 || op.B == 54 || op.B == 151 {
					op.B--
				}
			}
			op.N = r.Intn(6)
		case "side":
			op.N = []int{1, 2, 64}[r.Intn(3)]
		case "snapr":
			op.N = between(r, 1, 5)
		}
		return op
	}
	for k := r.Intn(8); k > 0; k-- {
		op := Op{O: []string{"put", "put", "pute"}[r.Intn(3)], I: id(), N: r.Intn(nc)}
		if tight {
			op.N = nc - 1
		}
		s.Ops = append(s.Ops, op)
	}
	nt := between(r, 2, 4)
	if tight {
		nt = 4
	}
	if nops == 0 {
		nops = 36
	}
	for t := 0; t < nt; t++ {
		l := []Op{}
		for k := 0; k < nops/nt; k++ {
			l = append(l, gen())
		}
		if name == "close" && (t == 0 || r.Intn(3) == 0) {
			l[r.Intn(len(l))] = Op{O: "close"}
		}
		threads = append(threads, l)
	}
	if name == "close" {
		for k := 0; k < 25; k++ {
			o := gen()
			if r.Intn(10) == 0 {
				o = Op{O: "close"}
			}
			if r.Intn(12) == 0 {
				o = Op{O: "alloc"}
			}
			after = append(after, o)
		}
	}
	return
}

func sortedInts(m map[int]bool) (l []int) {
	for k := range m {
		l = append(l, k)
	}
	for a := range l {
		for b := a + 1; b < len(l); b++ {
			if l[b] < l[a] {
				l[a], l[b] = l[b], l[a]
			}
		}
	}
	return
}

func init() {
	kinds["conc"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		s, threads, after := concScript(j.profile, j.seed*1000003+int64(idx), j.nops)
		e := newExec(s, dir, emit)
		e.mom = &moments{}
		if err := e.create(); err != nil {
			emit(M{"e": "create", "r": class(err), "msg": err.Error()})
			return traceCfg(e)
		}
		cur(traceCfg(e))
		e.emit(M{"e": "start", "r": "ok"})
		for _, op := range s.Ops {
			e.step(op)
		}
		e.concurrently(threads, s.Cfg.Probes == 1)
		if e.dead {
			return traceCfg(e)
		}
		switch {
		case j.profile == "close":
			n := int64(0)
			e.rec.gate = func(string, int64, int) { atomic.AddInt64(&n, int64(1-atomic.LoadInt32(&e.oldRd))) }
			for _, op := range after {
				m := e.guard(func() M { return e.do(op) })
				m["e"], m["flt"] = op.O, false
				emit(m)
			}
			emit(M{"e": "quiet", "r": "ok", "n": int(n)})
			e.attach()
			e.step(Op{O: "open"})
		default:
			for _, o := range []string{"sync", "own", "usage", "dump"} {
				e.step(Op{O: o})
			}
			switch e.rng.Intn(3) {
			case 0:
				e.step(Op{O: "close"})
				e.step(Op{O: "open"})
			case 1:
				e.step(Op{O: "sync"})
				e.step(Op{O: "crash", K: "kill"})
			default:
				e.step(Op{O: "gc"})
				e.step(Op{O: "close"})
				e.step(Op{O: "open"})
			}
		}
		for _, o := range []string{"dump", "own", "usage"} {
			e.step(Op{O: o})
		}
		e.step(Op{O: "delr", A: 0, B: 150})
		for _, o := range []string{"sync", "own", "usage", "close", "close"} {
			e.step(Op{O: o})
		}
		e.rec.stop()
		return traceCfg(e)
	}
}

func (e *exec) concurrently(threads [][]Op, tight bool) {
	c := &concLog{}
	// hold a device operation until some operations have returned
	var gmu sync.Mutex
	grng := rand.New(rand.NewSource(e.Cfg.Seed + 7))
	var live int64 = int64(len(threads))
	e.rec.gate = func(op string, off int64, n int) {
		gmu.Lock()
		x := grng.Intn(10)
		k := int64(1 + grng.Intn(6))
		gmu.Unlock()
		wait := 1500 * time.Microsecond
		if x == 0 {
			wait = 6 * time.Millisecond
		}
		if tight {
			// the lookup or the allocation is done, the device is not used yet
			if op != "enter-read" && (op != "enter-write" || x > 0) {
				return
			}
			k += 4
			wait = 20 * time.Millisecond
		}
		if x >= 4 || atomic.LoadInt64(&live) < 2 {
			return
		}
		from := atomic.LoadInt64(&c.done)
		for end := time.Now().Add(wait); atomic.LoadInt64(&c.done) < from+k && time.Now().Before(end); {
			time.Sleep(60 * time.Microsecond)
		}
	}
	// and now and then an operation that is about to take a lock
	storage.VerifLock = func(string) {
		gmu.Lock()
		x, k := grng.Intn(16), int64(1+grng.Intn(3))
		gmu.Unlock()
		if x > 0 || atomic.LoadInt64(&live) < 2 {
			return
		}
		from := atomic.LoadInt64(&c.done)
		for end := time.Now().Add(1500 * time.Microsecond); atomic.LoadInt64(&c.done) < from+k && time.Now().Before(end); {
			time.Sleep(60 * time.Microsecond)
		}
	}
	defer func() { storage.VerifLock = nil }()
	var wg sync.WaitGroup
	var panicked int32
	for t, ops := range threads {
		wg.Add(1)
		go func(t int, ops []Op) {
			defer wg.Done()
			defer atomic.AddInt64(&live, -1)
			r := rand.New(rand.NewSource(e.Cfg.Seed*31 + int64(t)))
			for _, op := range ops {
				if atomic.LoadInt32(&panicked) != 0 {
					return
				}
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
				}
				q, m := c.call(t, op, e)
				res := func() (res M) {
					defer func() {
						if p := recover(); p != nil {
							res = M{"r": "panic", "msg": fmt.Sprint(p, "\n", string(debug.Stack()))}
							atomic.StoreInt32(&panicked, 1)
						}
					}()
					return e.do(op)
				}()
				c.ret(t, q, m, res)
			}
		}(t, ops)
	}
	end := make(chan bool)
	go func() { wg.Wait(); close(end) }()
	select {
	case <-end:
	case <-time.After(hangAfter):
		e.dead = true
		atomic.StoreInt32(&hung, 1)
	}
	if panicked != 0 {
		// a lock may be held for ever
		e.dead = true
		atomic.StoreInt32(&hung, 1)
	}
	e.rec.gate = nil
	c.mu.Lock()
	base := e.count
	for _, m := range c.evs {
		if q, ok := m["q"]; ok {
			m["q"] = q.(int) + base
		}
		e.emit(m)
	}
	c.mu.Unlock()
	if e.dead {
		e.emit(M{"e": "end", "r": "hang"})
	}
}

var _ = lump.EmptyLump
