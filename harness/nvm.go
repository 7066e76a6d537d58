package main

import (
	"bytes"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/nvm"
)

// Devices and the views split from them.

func alignedBuf(n int) []byte {
	b := block.NewAlignedBytes(n, block.Min()).Align().AsBytes()
	return b[:n]
}

func signed(x int64) int {
	if x < -2000000000 {
		return -2000000000
	}
	if x > 2000000000 {
		return 2000000000
	}
	return int(x)
}

// values far outside of any device
var far = []int64{-512, -1024, -1 << 40, 1 << 40, 1<<62 + 512, -1 << 63, 1<<63 - 512, -1, 1, 513, 100, 1<<31 + 512}

func runNvm(s CompScript, dir string, emit func(M)) {
	size, root := num(s.Cfg["size"]), num(s.Cfg["cap"])
	impl, _ := s.Cfg["impl"].(string)
	path := filepath.Join(dir, "x.lusf")
	base := int64(num(s.Cfg["base"])) << 20 // the first view begins there
	var whole nvm.NonVolatileMemory
	cuts := []int{}
	for k := 0; k < size; k++ {
		cuts = append(cuts, k*512)
	}
	first := payload(1, 0, size*512)
	var views []nvm.NonVolatileMemory
	var raw *os.File
	var snap *nvm.SnapNVM
	start := caught(func() M {
		var err error
		switch impl {
		case "mem":
			var m *nvm.MemoryNVM
			m, err = nvm.NewFromVec(first[:root*512])
			views = append(views, m)
			return M{"r": class(err)}
		case "create":
			var f *nvm.FileNVM
			if f, err = nvm.CreateIfAbsent(path, uint64(root)*512); err != nil {
				return M{"r": class(err), "msg": err.Error()}
			}
			views = append(views, f)
		default:
			h := nvm.DefaultStorageHeader()
			h.JournalRegionSize = uint64(root-1) * 512 / 2 / 512 * 512
			h.DataRegionSize = uint64(root-1)*512 - h.JournalRegionSize + uint64(base)
			var b bytes.Buffer
			if err = h.WriteHeaderRegionTo(&b); err == nil {
				err = os.WriteFile(path, append(b.Bytes(), make([]byte, (size-1)*512)...), 0644)
			}
			if err == nil && base > 0 {
				err = os.Truncate(path, base+int64(size)*512)
			}
			if err != nil {
				panic(err)
			}
			var f *nvm.FileNVM
			if f, _, err = nvm.Open(path); err != nil {
				return M{"r": class(err), "msg": err.Error()}
			}
			if impl == "open" {
				views = append(views, f)
			} else {
				nvmShift(uint16(num(s.Cfg["shift"])))
				if snap, err = nvm.NewSnapshotNVM(f); err != nil {
					return M{"r": class(err), "msg": err.Error()}
				}
				views = append(views, snap)
			}
		}
		whole = views[0]
		if base > 0 {
			if _, views[0], err = whole.Split(uint64(base)); err != nil {
				return M{"r": class(err), "msg": err.Error()}
			}
		}
		if raw, err = os.OpenFile(path, os.O_RDWR, 0); err == nil {
			_, err = raw.WriteAt(first, base)
		}
		if err == nil && impl == "snap" && num(s.Cfg["shot"]) == 1 {
			_, err = snap.GetSnapshotReader()
		}
		return M{"r": class(err)}
	})
	start["e"] = "start"
	emit(start)
	if start["r"] != "ok" {
		return
	}
	tok := 1
	defer func() {
		if raw != nil {
			raw.Close()
		}
		caught(func() M {
			if snap != nil {
				snap.DeleteSnapshot()
			}
			return M{"r": class(whole.Close())}
		})
	}()
	far1 := func(op Op) int64 {
		if op.X {
			return far[op.S%len(far)]
		}
		return int64(op.S) * 512
	}
	for _, op := range s.Ops {
		op := op
		v := op.I % len(views)
		d := views[v]
		n := op.N * 512
		if op.K == "odd" {
			n += 100
		}
		m := caught(func() M {
			switch op.O {
			case "seek":
				off := far1(op)
				if op.A == 1 && !op.X {
					off -= int64(d.Position())
				}
				if op.A == 2 && !op.X {
					off -= int64(d.Capacity())
				}
				p, err := d.Seek(off, op.A)
				return M{"r": class(err), "off": signed(off), "wh": op.A, "ret": signed(p)}
			case "read", "readat":
				b := alignedBuf(n)
				for k := range b {
					b[k] = 0xEE
				}
				var c int
				var err error
				off, pos := far1(op), int64(d.Position())
				if op.O == "read" {
					c, err = d.Read(b)
				} else {
					c, err = d.ReadAt(b, off)
					pos = off
				}
				if err != nil || c < 0 || c > n {
					return M{"r": class(err), "off": signed(off), "n": n, "c": signed(int64(c)), "sg": []int{}}
				}
				a := starts[v] + int(pos)
				if pos < 0 || pos > 1<<30 || a < 0 {
					a = 0
				}
				for _, x := range b[c:] {
					if x != 0xEE {
						c = -7 // wrote beyond what it says it has read
						return M{"r": "ok", "off": signed(off), "n": n, "c": c, "sg": []int{}}
					}
				}
				return M{"r": "ok", "off": signed(off), "n": n, "c": c, "sg": sectorsOf(b[:c], a, tok)}
			case "write", "writeat":
				tok++
				off, pos := far1(op), int64(d.Position())
				if op.O == "writeat" {
					pos = off
				}
				a := starts[v]
				if pos >= 0 && pos < 1<<30 {
					a += int(pos)
				}
				b := alignedBuf(n)
				copy(b, payload(tok, a, a+n))
				var c int
				var err error
				if op.O == "write" {
					c, err = d.Write(b)
				} else {
					c, err = d.WriteAt(b, off)
				}
				return M{"r": class(err), "off": signed(off), "n": n, "c": signed(int64(c)), "t": tok}
			case "split":
				off := far1(op)
				l, r, err := d.Split(uint64(off))
				if err != nil {
					return M{"r": class(err), "off": signed(off), "lc": 0, "rc": 0}
				}
				at := starts[v]
				starts = append(starts, at, at+int(off))
				views = append(views, l, r)
				return M{"r": "ok", "off": signed(off), "lc": cl(l.Capacity()), "rc": cl(r.Capacity())}
			case "sync":
				return M{"r": class(d.Sync())}
			case "closeview":
				if v == 0 {
					return M{"r": "ok"}
				}
				return M{"r": class(d.Close())}
			}
			return M{"r": "badop"}
		})
		m["e"], m["v"] = op.O, v+1
		if m["r"] == "panic" {
			emit(m)
			return
		}
		m["q"] = signed(int64(d.Position()))
		emit(m)
		all := first
		if raw != nil {
			all = make([]byte, size*512)
			n, _ := raw.ReadAt(all, base)
			all = all[:n]
		}
		sg := sectorsOf(all, 0, tok)
		if raw != nil {
			if st, err := raw.Stat(); err != nil || st.Size() > base+int64(size)*512 {
				sg = append(sg, []int{}) // something is behind the device
			}
		}
		emit(M{"e": "dev", "r": "ok", "sg": sg})
		if len(sg) != size {
			return
		}
		ps, cs := []int{}, []int{}
		for _, d := range views {
			ps, cs = append(ps, signed(int64(d.Position()))), append(cs, signed(int64(d.Capacity())))
		}
		emit(M{"e": "look", "r": "ok", "ps": ps, "cs": cs})
	}
}

// where the views start on the device (by what was asked for)
var starts []int

// for each sector of b, which lies at a on the device: the writes it can come from
func sectorsOf(b []byte, a, maxTok int) [][]int {
	res := [][]int{}
	for p := 0; p+512 <= len(b); p += 512 {
		set := []int{}
		for t := 0; t <= maxTok; t++ {
			if b[p] == pat(t, a+p) && bytes.Equal(b[p:p+512], payload(t, a+p, a+p+512)) {
				set = append(set, t)
			}
		}
		res = append(res, set)
	}
	return res
}

func genNvm(profile string, seed int64, nops int) CompScript {
	r := rand.New(rand.NewSource(seed))
	impl := []string{"mem", "create", "open", "snap"}[r.Intn(4)]
	root := between(r, 3, 12)
	size := root
	if impl == "open" || impl == "snap" || impl == "mem" {
		size += r.Intn(3)
	}
	s := CompScript{Cfg: map[string]interface{}{"impl": impl, "size": size, "first": 0, "cap": root, "shot": r.Intn(2), "shift": 10, "base": 0}}
	if profile == "far" { // everything behind the first 4 GB
		s.Cfg["impl"], s.Cfg["base"], s.Cfg["shift"] = []string{"open", "snap"}[r.Intn(2)], 4096+r.Intn(3)*1000, 20
		impl = s.Cfg["impl"].(string)
	}
	shot := impl == "snap" && s.Cfg["shot"] == 1
	n := 60
	if nops > 0 {
		n = nops
	}
	nv := 1
	splits := 0
	for k := 0; k < n; k++ {
		op := Op{I: r.Intn(nv), S: r.Intn(root + 2), N: r.Intn(root + 2)}
		if r.Intn(2) == 0 {
			op.N = between(r, 1, 2)
		}
		if shot && op.N > 2 {
			op.N = between(r, 0, 2)
		}
		switch x := r.Intn(100); {
		case x < 16:
			op.O, op.A = "seek", r.Intn(3)
			if r.Intn(20) == 0 {
				op.A = 7
			}
		case x < 32:
			op.O = "read"
		case x < 50:
			op.O = "write"
		case x < 66:
			op.O = "readat"
		case x < 84:
			op.O = "writeat"
		case x < 94:
			op.O = "split"
			if splits >= 6 {
				op.O = "readat"
			} else {
				splits++
				nv += 2
			}
		case x < 97:
			op.O = "sync"
		default:
			op.O = "closeview"
		}
		if r.Intn(12) == 0 {
			switch op.O {
			case "seek", "readat", "writeat", "split":
				op.X, op.S = true, r.Intn(len(far))
				if impl == "mem" && op.O != "seek" && op.O != "split" && far[op.S]%512 != 0 {
					op.S = 0
				}
			}
		}
		if r.Intn(20) == 0 && (op.O == "write" || impl != "mem" && (op.O == "read" || op.O == "readat" || op.O == "writeat")) {
			op.K = "odd"
			if shot && op.N > 1 {
				op.N = 1
			}
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

func init() {
	kinds["nvm"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		s := compScript(j, idx, genNvm)
		cur(s.Cfg)
		starts = []int{0}
		runNvm(s, dir, emit)
		return s.Cfg
	}
}
