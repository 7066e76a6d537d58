package main

import (
	"fmt"
	"math/rand"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/allocator"
)

// The block allocators.

// CompScript is a script of a component driver
type CompScript struct {
	Cfg map[string]interface{} `json:"cfg"`
	Ops []Op                   `json:"ops"`
}

func num(x interface{}) int {
	switch v := x.(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}

func caught(f func() M) (m M) {
	defer func() {
		if p := recover(); p != nil {
			m = M{"r": "panic", "msg": fmt.Sprint(p)}
		}
	}()
	return f()
}

// lumps at the given segments, as a store has them in its index
func indexOf(used []portion.DataPortion) *lumpindex.LumpIndex {
	x := lumpindex.NewIndex()
	for k, p := range used {
		x.InsertDataPortion(lump.FromU64(0, uint64(k*3+1)), p)
	}
	return x
}

func newAlloc(impl string, capacity int, used []portion.DataPortion) allocator.DataPortionAlloc {
	if impl == "btree" {
		a := allocator.NewBtreeAlloc()
		a.RestoreFromIndex(block.Min(), uint64(capacity)*512, indexOf(used).DataPortions())
		return a
	}
	a := allocator.NewJudyAlloc()
	if impl == "judy2" {
		a.RestoreFromIndexWithJudy(block.Min(), uint64(capacity)*512, indexOf(used).JudyDataPortions())
	} else {
		a.RestoreFromIndex(block.Min(), uint64(capacity)*512, indexOf(used).DataPortions())
	}
	return a
}

func runAlloc(s CompScript, emit func(M)) {
	impl, _ := s.Cfg["impl"].(string)
	capacity := num(s.Cfg["cap"])
	var a allocator.DataPortionAlloc
	used := []portion.DataPortion{}
	first := caught(func() M {
		if s.Cfg["fresh"] == true {
			if impl == "btree" {
				a = allocator.BuildBtreeDataPortionAlloc(uint32(capacity))
			} else {
				a = allocator.BuildJudyAlloc(uint32(capacity))
			}
		} else {
			a = newAlloc(impl, capacity, nil)
		}
		return M{"r": "ok"}
	})
	first["e"] = "start"
	emit(first)
	if first["r"] != "ok" {
		return
	}
	defer func() { a.Free() }()
	query := func() M {
		return M{"r": "ok", "fr": cl(a.FreeCount()), "mx": cl(a.MaxSegmentSize())}
	}
	for _, op := range s.Ops {
		op := op
		m := caught(func() M {
			switch op.O {
			case "alloc":
				p, err := a.Allocate(uint16(op.N))
				if err == nil {
					used = append(used, p)
				}
				return M{"r": class(err), "n": op.N, "s": cl(p.Start.AsU64()), "len": int(p.Len)}
			case "rel":
				if len(used) == 0 {
					return nil
				}
				k := op.N % len(used)
				p := used[k]
				used = append(used[:k:k], used[k+1:]...)
				a.Release(p)
				return M{"r": "ok", "s": cl(p.Start.AsU64()), "n": int(p.Len)}
			case "q":
				return query()
			case "rebuild":
				a.Free()
				a = newAlloc(impl, capacity, used)
				return M{"r": "ok"}
			case "bits":
				if capacity > 4096 {
					return nil
				}
				total := capacity - capacity%op.N
				l := []int{}
				for _, f := range a.GetAllocationBitStatus(uint64(op.N), uint64(total)) {
					l = append(l, int(f*float64(op.N)+0.5))
				}
				return M{"r": "ok", "n": op.N, "l": l}
			}
			return M{"r": "badop"}
		})
		if m == nil {
			continue
		}
		m["e"] = op.O
		emit(m)
		if m["r"] == "panic" {
			return
		}
		if op.O != "q" && op.O != "bits" {
			q := caught(query)
			q["e"] = "q"
			emit(q)
		}
	}
}

func genAlloc(profile string, seed int64, nops int) CompScript {
	r := rand.New(rand.NewSource(seed))
	s := CompScript{Cfg: map[string]interface{}{}}
	impl := []string{"judy", "judy2", "btree"}[r.Intn(3)]
	capacity, maxN, n := 0, 0, 120
	kind := r.Intn(10)
	switch {
	case kind < 5:
		capacity, maxN = between(r, 1, 30), between(r, 1, 7)
	case kind < 8:
		capacity, maxN, n = between(r, 60, 1500), between(r, 5, 120), 160
	default:
		capacity, maxN, n = 0xffffff-200+r.Intn(400), 65535, 60
		if r.Intn(3) == 0 {
			capacity += 0xffffff - 65535*r.Intn(3)
		}
	}
	if nops > 0 {
		n = nops
	}
	s.Cfg["impl"], s.Cfg["cap"] = impl, capacity
	s.Cfg["fresh"] = impl != "judy2" && capacity <= 0xffffff && r.Intn(2) == 0
	add := func(o string, n int) { s.Ops = append(s.Ops, Op{O: o, N: n}) }
	add("q", 0)
	size := func() int {
		if maxN == 65535 && r.Intn(3) != 0 {
			return []int{65535, 65534, 60000, 100, 1, 300, 200}[r.Intn(7)]
		}
		return 1 + r.Intn(maxN)
	}
	live := 0
	if maxN == 65535 { // fill, with a small piece at the end; empty all but some
		small := capacity % 65535
		for k := 0; k < capacity/65535; k++ {
			add("alloc", 65535)
			live++
		}
		for small > 0 {
			x := 1 + r.Intn(small)
			add("alloc", x)
			small -= x
			live++
		}
		keep := r.Intn(4)
		for live > keep {
			k := 0
			if r.Intn(3) == 0 {
				k = r.Intn(live)
			}
			add("rel", k)
			live--
		}
		if r.Intn(2) == 0 {
			for k := 0; k < capacity/65535-r.Intn(2); k++ {
				add("alloc", 65535-r.Intn(2))
				live++
			}
			for k := 0; k < 6; k++ {
				add("alloc", 1+r.Intn(300))
			}
		}
	}
	bias := 50
	for k := 0; k < n; k++ {
		if r.Intn(15) == 0 {
			bias = []int{20, 50, 80}[r.Intn(3)]
		}
		switch x := r.Intn(100); {
		case x < 4:
			add("rebuild", 0)
		case x < 7:
			add("bits", 1+r.Intn(8))
		case r.Intn(100) < bias:
			add("alloc", size())
			live++
		default:
			add("rel", r.Intn(1000))
			live--
		}
	}
	return s
}

func init() {
	kinds["alloc"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		s := compScript(j, idx, genAlloc)
		cur(s.Cfg)
		runAlloc(s, emit)
		return s.Cfg
	}
}

// from the script file or the generator
func compScript(j *job, idx int, gen func(string, int64, int) CompScript) CompScript {
	if j.scripts == "" {
		return gen(j.profile, j.seed*1000003+int64(idx), j.nops)
	}
	var s CompScript
	readJSONLine(j.scripts, idx, &s)
	return s
}
