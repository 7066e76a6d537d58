package main

import (
	"math/rand"
	"sort"
)

type weights map[string]int

var readOps = weights{"get": 6, "geto": 6, "size": 2, "sod": 1, "list": 1, "listr": 2, "min": 1, "max": 1, "first": 2, "gen": 2, "usage": 2}

func merge(l ...weights) weights {
	r := weights{}
	for _, w := range l {
		for k, v := range w {
			r[k] += v
		}
	}
	return r
}

var sizes = []int{1, 2, 3, 100, 255, 256, 300, 508, 509, 510, 511, 512, 513, 1021, 1022, 1023, 1024, 1025, 1300,
	1533, 1534, 1535, 1536, 1537, 2046, 2047, 2048, 2558, 3000, 3583, 3584, 4094, 4095, 4096}

type profile struct {
	mode   string
	w      weights
	maxLen int
	capLo  int
	capHi  int
	jLo    int
	jHi    int
	nids   int
	gcOff  int // percent of stores without automatic GC
	nops   int
	dumps  int // a dump after each so many operations
	probes int
	faults int // percent of operations with a fault armed
	bulk   int // lumps put at the start at most
	own    bool
	pinned bool
}

var profiles = map[string]profile{
	"map": {mode: "plain", w: merge(readOps, weights{"put": 8, "pute": 6, "puto": 5, "del": 6, "delr": 3, "flush": 1, "sync": 2, "gc": 1, "side": 2, "auto": 1, "reopen": 1, "toobig": 1, "own": 1}),
		maxLen: 4096, capLo: 30, capHi: 120, jLo: 8, jHi: 60, nids: 12, gcOff: 15, nops: 220, dumps: 25, bulk: 5, own: true},
	"tiny": {mode: "plain", w: merge(weights{"get": 3, "geto": 1, "list": 1, "usage": 3, "put": 12, "pute": 5, "puto": 3, "del": 7, "delr": 2, "flush": 1, "sync": 3, "gc": 1, "side": 2, "auto": 1, "reopen": 2, "own": 3}),
		maxLen: 2560, capLo: 1, capHi: 1, jLo: 1, jHi: 1, nids: 5, gcOff: 15, nops: 60, dumps: 12, bulk: 2, own: true},
	"reopen": {mode: "plain", w: merge(weights{"get": 3, "geto": 1, "list": 1, "usage": 2, "put": 10, "pute": 10, "puto": 3, "del": 7, "delr": 3, "flush": 1, "sync": 2, "gc": 2, "side": 3, "auto": 1, "reopen": 7, "own": 3, "reuse": 1}),
		maxLen: 2048, capLo: 6, capHi: 40, jLo: 3, jHi: 20, nids: 9, gcOff: 20, nops: 220, dumps: 9, bulk: 4, own: true},
	"kill": {mode: "kill", w: merge(weights{"get": 1, "put": 10, "pute": 8, "puto": 3, "del": 6, "delr": 3, "flush": 4, "sync": 2, "gc": 2, "side": 4, "auto": 1, "reopen": 1, "crash": 1, "reuse": 1}),
		maxLen: 1536, capLo: 10, capHi: 40, jLo: 3, jHi: 14, nids: 8, gcOff: 15, nops: 120, dumps: 30, probes: 4, bulk: 3},
	"power": {mode: "power", w: merge(weights{"put": 10, "pute": 10, "puto": 2, "del": 6, "delr": 3, "flush": 5, "sync": 3, "gc": 3, "side": 5, "auto": 1, "reopen": 1, "crash": 1}),
		maxLen: 1536, capLo: 8, capHi: 40, jLo: 3, jHi: 14, nids: 8, gcOff: 15, nops: 120, dumps: 30, probes: 5, bulk: 3},
	"burst": {mode: "kill", w: merge(weights{"get": 1, "put": 10, "pute": 8, "puto": 3, "del": 6, "delr": 3, "flush": 2, "sync": 2, "gc": 2, "side": 4, "auto": 1, "reopen": 1, "crash": 1, "burst": 5}),
		maxLen: 1536, capLo: 10, capHi: 40, jLo: 500, jHi: 3000, nids: 8, gcOff: 60, nops: 40, dumps: 15, probes: 3, bulk: 3},
	"manyrecs": {mode: "plain", w: merge(weights{"get": 1, "put": 10, "pute": 8, "del": 6, "delr": 3, "sync": 2, "gc": 2, "side": 6, "reopen": 1, "burst": 5}),
		maxLen: 1536, capLo: 10, capHi: 40, jLo: 2000, jHi: 5000, nids: 8, gcOff: 0, nops: 40, dumps: 15, bulk: 3},
	"powerburst": {mode: "power", w: merge(weights{"put": 10, "pute": 8, "puto": 2, "del": 6, "delr": 3, "flush": 3, "sync": 2, "gc": 2, "side": 3, "auto": 1, "reopen": 1, "crash": 1, "burst": 5}),
		maxLen: 1536, capLo: 10, capHi: 40, jLo: 500, jHi: 3000, nids: 8, gcOff: 60, nops: 40, dumps: 15, probes: 3, bulk: 3},
	"gc": {mode: "kill", w: merge(weights{"get": 2, "put": 8, "pute": 10, "puto": 1, "del": 5, "delr": 3, "flush": 2, "sync": 1, "gc": 7, "side": 12, "auto": 3, "reopen": 1, "crash": 1, "dump": 4, "flushprobe": 5, "reuse": 4}),
		maxLen: 1024, capLo: 10, capHi: 40, jLo: 3, jHi: 12, nids: 8, gcOff: 40, nops: 120, dumps: 12, probes: 3, bulk: 6},
	"fail": {mode: "kill", w: merge(weights{"put": 14, "pute": 10, "puto": 5, "del": 4, "delr": 2, "flush": 1, "sync": 2, "gc": 1, "side": 2, "auto": 1, "toobig": 3, "usage": 3, "own": 3, "dump": 5, "get": 2, "geto": 2, "flushprobe": 3, "reopen": 1}),
		maxLen: 2560, capLo: 4, capHi: 14, jLo: 3, jHi: 10, nids: 8, gcOff: 25, nops: 110, dumps: 8, probes: 1, faults: 18, bulk: 4, own: true},
	"own": {mode: "plain", w: merge(weights{"put": 16, "pute": 3, "puto": 4, "del": 8, "delr": 4, "sync": 5, "gc": 1, "side": 1, "reopen": 2, "usage": 8, "own": 8, "flush": 1}),
		maxLen: 4096, capLo: 8, capHi: 60, jLo: 6, jHi: 30, nids: 14, gcOff: 5, nops: 260, dumps: 40, faults: 3, bulk: 10, own: true},
	"range": {mode: "plain", w: merge(weights{"put": 4, "pute": 2, "puto": 16, "geto": 24, "get": 5, "size": 4, "del": 2, "sync": 1, "reopen": 1, "toobig": 1}),
		maxLen: 4096, capLo: 40, capHi: 90, jLo: 20, jHi: 60, nids: 6, gcOff: 0, nops: 260, dumps: 20, bulk: 4},
	"dev": {mode: "dev", w: merge(weights{"put": 10, "pute": 7, "puto": 6, "del": 6, "delr": 2, "flush": 2, "sync": 2, "gc": 2, "side": 3, "auto": 1, "reopen": 1, "get": 1}),
		maxLen: 2560, capLo: 8, capHi: 40, jLo: 3, jHi: 14, nids: 8, gcOff: 15, nops: 120, dumps: 30, bulk: 3},
	"spoil": {mode: "plain", w: merge(weights{"put": 8, "pute": 8, "puto": 1, "del": 5, "delr": 3, "flush": 4, "sync": 4, "gc": 1, "side": 2, "auto": 1, "reopen": 1, "spoil": 30}),
		maxLen: 1024, capLo: 10, capHi: 40, jLo: 3, jHi: 14, nids: 8, gcOff: 30, nops: 120, dumps: 60, bulk: 3},
	"large": {mode: "plain", w: merge(weights{"put": 10, "pute": 4, "puto": 6, "del": 3, "get": 6, "geto": 10, "size": 3, "sod": 3, "usage": 3, "sync": 2, "reopen": 2, "own": 3, "gc": 1, "side": 1}),
		maxLen: 65535*512 - 2, capLo: 150000, capHi: 270000, jLo: 300, jHi: 900, nids: 4, gcOff: 10, nops: 36, dumps: 12, bulk: 2, own: true},
	"far": {mode: "plain", w: merge(weights{"put": 12, "pute": 3, "puto": 7, "del": 6, "get": 6, "geto": 6, "size": 3, "sod": 2, "usage": 3, "flush": 1, "sync": 3, "reopen": 3, "own": 3, "gc": 1, "side": 2}),
		maxLen: 4096, capLo: 8, capHi: 40, jLo: 60, jHi: 130, nids: 12, gcOff: 15, nops: 110, dumps: 15, bulk: 5, own: true},
	"churn": {mode: "plain", w: merge(weights{"put": 20, "pute": 14, "del": 10, "delr": 2, "get": 1, "cycle": 2, "flush": 1, "sync": 1, "side": 1}),
		maxLen: 600, capLo: 60, capHi: 100, jLo: 9, jHi: 60, nids: 6, gcOff: 0, nops: 420, dumps: 100, bulk: 0, pinned: true},
}

func pick(r *rand.Rand, w weights) string {
	keys := make([]string, 0, len(w))
	tot := 0
	for k, v := range w {
		keys = append(keys, k)
		tot += v
	}
	sort.Strings(keys)
	x := r.Intn(tot)
	for _, k := range keys {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return keys[0]
}

func between(r *rand.Rand, lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func genScript(name string, seed int64, nops int) Script {
	p := profiles[name]
	r := rand.New(rand.NewSource(seed))
	if nops == 0 {
		nops = p.nops
	}
	maxLen := p.maxLen
	if r.Intn(3) == 0 {
		maxLen = maxLen/2 + 1
	}
	if p.pinned {
		maxLen = []int{60, 150, 300, 600}[r.Intn(4)]
	}
	cuts := map[int]bool{0: true}
	for n := between(r, 4, 9); len(cuts) < n; {
		if name == "large" {
			maxLen = p.maxLen
			b := []int{1, 127, 128, 129, 32766, 32767, 32768, 32769, 40000, 65534, 65535}[r.Intn(11)]
			if s := b*512 + []int{-3, -2, -2, -1, 0, 1}[r.Intn(6)]; s <= maxLen {
				cuts[s] = true
			}
			if r.Intn(4) == 0 {
				cuts[[]int{65533, 65534, 65535}[r.Intn(3)]] = true
			}
			continue
		}
		if s := sizes[r.Intn(len(sizes))]; s <= maxLen && !p.pinned {
			cuts[s] = true
		} else if p.pinned {
			cuts[1+r.Intn(maxLen)] = true
		} else if r.Intn(4) == 0 {
			cuts[1+r.Intn(maxLen)] = true
		}
	}
	s := Script{}
	for c := range cuts {
		s.Cfg.Cuts = append(s.Cfg.Cuts, c)
	}
	sort.Ints(s.Cfg.Cuts)
	s.Cfg.Cap = between(r, p.capLo, p.capHi)
	s.Cfg.Journal = between(r, p.jLo, p.jHi)
	s.Cfg.Auto = r.Intn(100) >= p.gcOff
	s.Cfg.Mode = p.mode
	s.Cfg.Seed = seed
	s.Cfg.Probes = p.probes
	s.Cfg.Name = name
	if name == "far" {
		s.Cfg.Far = []int{between(r, 8, 60), 4000000, 12000000, 0xFFFFFF + between(r, -1, 40), 40000000}[r.Intn(5)]
	}
	if name == "tiny" {
		s.Cfg.Tot, s.Cfg.Num = between(r, 2, 9), r.Intn(17)
		if r.Intn(4) == 0 {
			s.Cfg.Tot = between(r, 10, 24)
		}
	}
	nc := len(s.Cfg.Cuts)

	// a small set of ids, so that they meet again
	ids := []int{}
	groups := [][]int{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 38}, {40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53}, {100, 144, 145, 146, 147, 148, 149, 150}}
	n := between(r, 3, p.nids)
	for len(ids) < n {
		g := 0
		if r.Intn(3) == 0 {
			g = 1 + r.Intn(2)
		}
		ids = append(ids, groups[g][r.Intn(len(groups[g]))])
	}
	id := func() int { return ids[r.Intn(len(ids))] }
	anyid := func() int {
		if r.Intn(3) == 0 {
			g := groups[r.Intn(3)]
			return g[r.Intn(len(g))]
		}
		return id()
	}
	small := func() int { // sizes: mostly the small ones
		k := r.Intn(nc)
		if r.Intn(2) == 0 {
			k = r.Intn(k + 1)
		}
		return k
	}
	add := func(o Op) { s.Ops = append(s.Ops, o) }
	put := func(o string) { add(Op{O: o, I: id(), N: small()}) }
	for k := r.Intn(p.bulk + 1); k > 0; k-- {
		put([]string{"put", "pute"}[r.Intn(2)])
	}
	phase := 0
	for len(s.Ops) < nops {
		// phases: filling, emptying, mixed
		if r.Intn(25) == 0 {
			phase = r.Intn(4)
		}
		if p.dumps > 0 && r.Intn(p.dumps) == 0 {
			add(Op{O: "dump"})
			if p.own {
				add(Op{O: "own"})
				add(Op{O: "usage"})
			}
		}
		o := pick(r, p.w)
		if phase == 1 && (o == "del" || o == "delr") && r.Intn(4) != 0 {
			o = []string{"put", "pute"}[r.Intn(2)]
		}
		if phase == 2 && (o == "put" || o == "pute") && r.Intn(2) != 0 {
			o = "del"
		}
		faulty := r.Intn(100) < p.faults
		if faulty {
			switch o {
			case "put", "pute", "puto", "del", "delr", "side", "flush", "get", "geto":
			default:
				faulty = false
			}
		}
		if faulty {
			k := []string{"write", "write", "write", "sync", "read"}[r.Intn(5)]
			add(Op{O: "fault", K: k, N: between(r, 1, 3), S: between(r, 1, 2)})
		}
		switch o {
		case "put", "pute":
			if p.pinned && len(ids) > 2 { // the first ids keep their lumps for long
				i := ids[1+r.Intn(len(ids)-1)]
				if r.Intn(40) == 0 {
					i = ids[0]
				}
				add(Op{O: o, I: i, N: small()})
			} else {
				put(o)
			}
		case "toobig":
			if r.Intn(8) == 0 {
				add(Op{O: "put", I: id(), N: -1})
			} else {
				switch r.Intn(3) {
				case 0:
					add(Op{O: "pute", I: id(), N: -1})
				case 1:
					add(Op{O: "puto", I: anyid(), S: 0, N: small(), Rv: -1})
				default:
					add(Op{O: "puto", I: anyid(), S: -1 - r.Intn(3), N: small(), Rv: 0})
				}
			}
		case "puto":
			a, b := r.Intn(nc), r.Intn(nc)
			if a > b {
				a, b = b, a
			}
			add(Op{O: o, I: anyid(), S: a, N: b, Rv: r.Intn(nc)})
		case "geto":
			a, b := r.Intn(nc), r.Intn(nc)
			if a > b && r.Intn(4) != 0 {
				a, b = b, a
			}
			op := Op{O: o, I: anyid(), S: a, N: b}
			if r.Intn(15) == 0 {
				op.S = -1 - r.Intn(3)
			}
			if r.Intn(15) == 0 {
				op.N = -1 - r.Intn(700)
			}
			add(op)
		case "del", "get", "size", "sod", "first":
			i := anyid()
			if p.pinned && i == ids[0] && r.Intn(10) != 0 {
				i = ids[len(ids)-1]
			}
			add(Op{O: o, I: i})
		case "delr":
			a, b := anyid(), anyid()
			if a > b && r.Intn(5) != 0 {
				a, b = b, a
			}
			add(Op{O: o, A: a, B: b, X: r.Intn(2) == 0})
		case "listr":
			a, b := anyid(), anyid()
			if a > b && r.Intn(5) != 0 {
				a, b = b, a
			}
			add(Op{O: o, A: a, B: b, N: r.Intn(len(ids) + 2)})
		case "side":
			add(Op{O: o, N: []int{1, 1, 2, 3, 64}[r.Intn(5)]})
		case "auto":
			add(Op{O: o, N: r.Intn(2)})
		case "reopen":
			add(Op{O: "close"})
			add(Op{O: "open"})
			if r.Intn(2) == 0 {
				add(Op{O: "dump"})
			}
		case "flushprobe":
			add(Op{O: "flush"})
			add(Op{O: "probe", N: 1})
		case "reuse": // the same blocks again while GC still knows the old record
			i := id()
			add(Op{O: "put", I: i, N: small()})
			add(Op{O: "side", N: 1})
			for k := r.Intn(3); k > 0; k-- {
				add(Op{O: "side", N: 1})
			}
			if r.Intn(3) == 0 {
				put("pute")
			}
			add(Op{O: "del", I: i})
			add(Op{O: "sync"})
			add(Op{O: "put", I: i, N: small()})
			for k := 1 + r.Intn(6); k > 0; k-- {
				add(Op{O: "side", N: []int{1, 1, 2, 64}[r.Intn(4)]})
			}
			add(Op{O: "get", I: i})
		case "burst": // more records than a store keeps without a sync
			k := []int{8192, 8193, 8200, 9000, 17000, 8191, 100}[r.Intn(7)]
			add(Op{O: o, I: id(), N: r.Intn(3), S: k})
			if r.Intn(5) != 0 {
				add(Op{O: []string{"probe", "probe", "crash"}[r.Intn(3)], K: "kill", N: 1})
			}
			if r.Intn(4) == 0 {
				add(Op{O: "gc"})
			}
		case "cycle": // old records that look like the last one
			add(Op{O: o, I: ids[len(ids)-1], N: small(), S: between(r, 20, 3000), X: r.Intn(3) != 0, A: r.Intn(3) * r.Intn(2)})
		case "spoil":
			add(Op{O: o, X: r.Intn(4) == 0, S: r.Intn(8)})
		case "crash":
			k := "kill"
			if p.mode == "power" && r.Intn(3) != 0 {
				k = "power"
			}
			if r.Intn(2) == 0 {
				add(Op{O: "flush"})
			}
			add(Op{O: "crash", K: k})
		default:
			add(Op{O: o})
		}
		if faulty || (p.faults > 10 && r.Intn(4) == 0) {
			add(Op{O: "dump"})
			if r.Intn(3) == 0 {
				add(Op{O: "own"})
				add(Op{O: "usage"})
			}
		}
	}
	if p.pinned || name == "manyrecs" {
		if name == "manyrecs" { // more than two GC queues of records
			add(Op{O: "burst", I: id(), N: r.Intn(2), S: between(r, 16384, 30000)})
		}
		add(Op{O: "dump"})
		add(Op{O: "delr", A: 0, B: 150})
		add(Op{O: "del", I: 150})
		add(Op{O: "gc"})
		add(Op{O: "emptyusage"})
		for k := 0; k < 5; k++ {
			put("put")
			put("pute")
		}
		add(Op{O: "dump"})
	}
	if p.own { // everything deleted and synced: all space is free
		if name == "far" {
			for _, x := range ids {
				add(Op{O: "del", I: x})
			}
		} else {
			add(Op{O: "delr", A: 0, B: 150})
			add(Op{O: "del", I: 150})
		}
		add(Op{O: "sync"})
		add(Op{O: "own"})
		add(Op{O: "usage"})
		add(Op{O: "close"})
		add(Op{O: "open"})
		add(Op{O: "usage"})
	}
	add(Op{O: "dump"})
	return s
}
