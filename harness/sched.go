package main

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/thesues/cannyls-go/storage"
)

// Several threads use one store, one step at a time: a thread goes on to its next
// device operation or lock when the script says so. Whoever waits for a lock is left alone
// until it comes through. The scripts are schedules from spec/ConcImpl.tla; a turn that
// a thread cannot take is skipped, so that any script can be run with any code.

func goid() int {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	n, _ := strconv.Atoi(string(bytes.Fields(b)[1]))
	return n
}

type schedThread struct {
	ops    []Op
	turn   chan bool
	parked int32 // waits for a turn
	done   int32 // operations that have returned
	ended  int32
}

const schedWait = 1500 * time.Microsecond

func (e *exec) scheduled(order []Op) {
	c := &concLog{}
	threads := map[int]*schedThread{}
	for _, op := range order {
		if threads[op.A] == nil {
			threads[op.A] = &schedThread{turn: make(chan bool, 1)}
		}
		if op.O != "turn" {
			t := threads[op.A]
			op.A = 0
			t.ops = append(t.ops, op)
		}
	}
	var mu sync.Mutex
	who := map[int]*schedThread{}
	var free, panicked int32
	park := func(t *schedThread) {
		atomic.StoreInt32(&t.parked, 1)
		<-t.turn
	}
	point := func(op string) {
		if atomic.LoadInt32(&free) != 0 {
			return
		}
		g := goid()
		mu.Lock()
		t := who[g]
		mu.Unlock()
		if t != nil {
			park(t)
		}
	}
	e.rec.gate = func(op string, off int64, n int) {
		if strings.HasPrefix(op, "enter-") || op == "sync" {
			point(op)
		}
	}
	storage.VerifLock = point
	defer func() { storage.VerifLock = nil }()
	var wg sync.WaitGroup
	for k, t := range threads {
		wg.Add(1)
		go func(k int, t *schedThread) {
			defer wg.Done()
			defer atomic.StoreInt32(&t.ended, 1)
			mu.Lock()
			who[goid()] = t
			mu.Unlock()
			for _, op := range t.ops {
				park(t)
				if atomic.LoadInt32(&panicked) != 0 {
					return
				}
				q, m := c.call(k, op, e)
				res := func() (res M) {
					defer func() {
						if p := recover(); p != nil {
							res = M{"r": "panic", "msg": fmt.Sprint(p, "\n", string(debug.Stack()))}
							atomic.StoreInt32(&panicked, 1)
						}
					}()
					return e.do(op)
				}()
				c.ret(k, q, m, res)
				atomic.AddInt32(&t.done, 1)
			}
		}(k, t)
	}
	// it stopped, if only for a lock
	settle := func(t *schedThread, d time.Duration) bool {
		for end := time.Now().Add(d); ; {
			if atomic.LoadInt32(&t.ended) != 0 || atomic.LoadInt32(&t.parked) != 0 {
				return true
			}
			if time.Now().After(end) {
				return false
			}
			runtime.Gosched()
			time.Sleep(20 * time.Microsecond)
		}
	}
	grant := func(t *schedThread) bool {
		settle(t, schedWait)
		if atomic.LoadInt32(&t.ended) != 0 || !atomic.CompareAndSwapInt32(&t.parked, 1, 0) {
			return false
		}
		t.turn <- true
		settle(t, schedWait)
		return true
	}
	for _, t := range threads {
		settle(t, 10*schedWait)
	}
	calls := map[int]int32{}
	for _, op := range order {
		t := threads[op.A]
		if op.O != "turn" { // the one before has ended, which may take more turns here
			for k := 0; k < 40 && atomic.LoadInt32(&t.done) < calls[op.A] && grant(t); k++ {
			}
			if atomic.LoadInt32(&t.done) == calls[op.A] {
				grant(t)
			}
			calls[op.A]++
		} else if atomic.LoadInt32(&t.done) < calls[op.A] {
			grant(t)
		}
	}
	// the rest in turns
	last := time.Now()
	for {
		left := false
		for k := 0; k < 10; k++ {
			if t := threads[k]; t != nil && atomic.LoadInt32(&t.ended) == 0 {
				left = true
				if grant(t) {
					last = time.Now()
				}
			}
		}
		if !left {
			wg.Wait()
			break
		}
		if time.Since(last) > hangAfter {
			e.dead = true
			atomic.StoreInt32(&hung, 1)
			break
		}
	}
	if panicked != 0 { // a lock may be held for ever
		e.dead = true
		atomic.StoreInt32(&hung, 1)
	}
	atomic.StoreInt32(&free, 1)
	e.rec.gate, storage.VerifLock = nil, nil
	c.mu.Lock()
	base := e.count
	for _, m := range c.evs {
		if q, ok := m["q"]; ok {
			m["q"] = q.(int) + base
		}
		e.emit(m)
	}
	c.mu.Unlock()
	if e.dead {
		e.emit(M{"e": "end", "r": "hang"})
	}
}

func init() {
	kinds["sched"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		var s Script
		if j.scripts == "" {
			panic("sched needs scripts")
		}
		readJSONLine(j.scripts, idx, &s)
		// first what happens before, up to "start"
		before, order, closed := []Op{}, s.Ops, false
		for k, op := range s.Ops {
			if op.O == "start" {
				before, order = s.Ops[:k], s.Ops[k+1:]
				break
			}
		}
		e := newExec(s, dir, emit)
		e.mom = &moments{}
		if err := e.create(); err != nil {
			emit(M{"e": "create", "r": class(err), "msg": err.Error()})
			return traceCfg(e)
		}
		cur(traceCfg(e))
		e.emit(M{"e": "start", "r": "ok"})
		for _, op := range before {
			e.step(op)
		}
		for _, op := range order {
			closed = closed || op.O == "close"
		}
		e.scheduled(order)
		if e.dead {
			return traceCfg(e)
		}
		if closed {
			n := int64(0)
			e.rec.gate = func(string, int64, int) { atomic.AddInt64(&n, int64(1-atomic.LoadInt32(&e.oldRd))) }
			for _, op := range before {
				m := e.guard(func() M { return e.do(op) })
				m["e"], m["flt"] = op.O, false
				emit(m)
			}
			emit(M{"e": "quiet", "r": "ok", "n": int(n)})
			e.attach()
			e.step(Op{O: "open"})
		} else {
			for _, o := range []string{"dump", "own", "usage"} {
				e.step(Op{O: o})
			}
			switch idx % 4 {
			case 0:
				e.step(Op{O: "sync"})
				e.step(Op{O: "crash", K: "kill"})
			case 1:
				e.step(Op{O: "sync"})
				e.step(Op{O: "own"})
				e.step(Op{O: "gc"})
			default:
				e.step(Op{O: "close"})
				e.step(Op{O: "open"})
			}
		}
		for _, o := range []string{"dump", "own", "usage", "close"} {
			e.step(Op{O: o})
		}
		e.rec.stop()
		return traceCfg(e)
	}
}
