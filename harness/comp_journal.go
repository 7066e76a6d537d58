package main

import (
	"bytes"
	"hash/fnv"
	"io"
	"math/rand"
	"sort"

	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/journal"
)

// The parts of the journal: ring, write buffer, records.

func raw(r journal.JournalRecord) []byte {
	var b bytes.Buffer
	r.WriteTo(&b)
	return b.Bytes()
}

// content of a record, without its checksum
func rawHash(b []byte) int {
	h := fnv.New32()
	h.Write(b[4:])
	return int(h.Sum32() >> 2)
}

func makeRecord(kind string, i, n int) journal.JournalRecord {
	id := lump.FromU64(0, idOf(i))
	switch kind {
	case "put":
		return journal.PutRecord{LumpID: id, DataPortion: portion.NewDataPortion(uint64(n)*7919, uint16(n%65536))}
	case "del":
		return journal.DeleteRecord{LumpID: id}
	case "delr":
		return journal.DeleteRange{Start: id, End: lump.FromU64(0, idOf(i)+uint64(n))}
	}
	return journal.EmbedRecord{LumpID: id, Data: payload(n%97+1, 0, n)}
}

// ---------------------------------------------------------------------- ring

func runRing(s CompScript, emit func(M)) {
	size := num(s.Cfg["cap"])
	vec := make([]byte, size)
	for k := range vec {
		vec[k] = byte(k*7 + 3)
	}
	head := num(s.Cfg["head"])
	copy(vec[head:], raw(journal.EndOfRecords{}))
	var ring *journal.JournalRingBuffer
	var buf *journal.JournalNvmBuffer
	start := func(head uint64) {
		mem, err := nvm.NewFromVec(vec)
		if err != nil {
			panic(err)
		}
		buf = journal.NewJournalNvmBuffer(mem)
		ring = journal.NewJournalRingBuffer(buf, head)
	}
	start(uint64(head))
	uh := uint64(head)
	ends := []uint64{} // of the popped, unreleased records
	starts := []uint64{}
	emit(M{"e": "start", "r": "ok"})
	entry := func(en journal.JournalEntry) M {
		b := raw(en.Record)
		return M{"p": cl(en.Start.AsU64()), "h": rawHash(b), "z": len(b)}
	}
	for _, op := range s.Ops {
		op := op
		m := caught(func() M {
			switch op.O {
			case "put", "del", "delr", "emb":
				r := makeRecord(op.O, op.I, op.N)
				b := raw(r)
				jp, err := ring.Enqueue(r)
				return M{"e": "enq", "r": class(err), "k": op.O, "z": len(b), "h": rawHash(b), "t": cl(ring.Tail()), "u": cl(ring.Usage()),
					"jp": cl(jp.Start.AsU64()), "jl": int(jp.Len)}
			case "pop":
				it := ring.DequeueIter()
				l := []M{}
				for k := 0; k < op.N; k++ {
					en, err := it.PopFront()
					if err == internalerror.NoEntries {
						break
					}
					if err != nil {
						return M{"e": "pop", "r": class(err), "n": op.N, "l": l}
					}
					l = append(l, entry(en))
					starts = append(starts, en.Start.AsU64())
					ends = append(ends, en.End())
				}
				return M{"e": "pop", "r": "ok", "n": op.N, "l": l, "hd": cl(ring.Head())}
			case "rel":
				if len(ends) == 0 {
					return nil
				}
				k := 1 + op.N%len(ends)
				to := ends[k-1]
				if k < len(ends) && op.X {
					to = starts[k]
				}
				ring.ReleaseBytesUntil(to)
				uh = to
				starts, ends = starts[k:], ends[k:]
				return M{"e": "rel", "r": "ok", "n": k, "p": cl(to), "u": cl(ring.Usage())}
			case "flush":
				return M{"e": "flush", "r": class(ring.Flush())}
			case "sync":
				return M{"e": "flush", "r": class(ring.Sync())}
			case "iter":
				it := ring.ReadIter()
				l := []M{}
				for {
					en, err := it.PopFront()
					if err == internalerror.NoEntries {
						break
					}
					if err != nil {
						return M{"e": "iter", "r": class(err), "l": l}
					}
					l = append(l, entry(en))
				}
				return M{"e": "iter", "r": "ok", "l": l}
			case "get": // the bytes of an embedded record
				it := ring.ReadIter()
				n := 0
				for {
					en, err := it.PopFront()
					if err != nil {
						break
					}
					if e, ok := en.Record.(journal.EmbedRecord); ok {
						if n++; n > op.N {
							data := make([]byte, len(e.Data))
							err := ring.ReadEmbededBuffer(en.Start.AsU64()+journal.EMBEDDED_DATA_OFFSET, data)
							e.Data = data
							return M{"e": "get", "r": class(err), "p": cl(en.Start.AsU64()), "h": rawHash(raw(e))}
						}
					}
				}
				return nil
			case "reopen":
				if err := ring.Sync(); err != nil {
					return M{"e": "reopen", "r": class(err)}
				}
				start(uh)
				it := ring.BufferedIter()
				defer it.Close()
				l := []M{}
				starts, ends = nil, nil
				for {
					en, err := it.PopFront()
					if err == internalerror.NoEntries {
						break
					}
					if err != nil {
						return M{"e": "reopen", "r": class(err), "l": l}
					}
					l = append(l, entry(en))
				}
				ring.DoStoreUsage()
				return M{"e": "reopen", "r": "ok", "l": l, "t": cl(ring.Tail()), "u": cl(ring.Usage())}
			}
			return M{"e": op.O, "r": "badop"}
		})
		if m == nil {
			continue
		}
		if m["r"] == "panic" {
			m["e"] = op.O
			emit(m)
			return
		}
		emit(m)
		emit(M{"e": "dev", "r": "ok", "l": parseVec(vec, int(uh))})
	}
}

// the records on the device behind a position
func parseVec(ring []byte, p int) []M {
	l := []M{}
	for wrapped := false; len(l) < 4096; {
		if p < 0 || p+5 > len(ring) {
			return l
		}
		size := 5
		switch ring[p+4] {
		case 1:
			if wrapped {
				return l
			}
			wrapped = true
			p = 0
			continue
		case 3:
			size = 20
		case 4:
			if p+15 > len(ring) {
				return l
			}
			size = 15 + int(ring[p+13])<<8 + int(ring[p+14])
		case 5:
			size = 13
		case 6:
			size = 21
		default:
			return l
		}
		if p+size > len(ring) || !sound(ring[p:p+size]) {
			return l
		}
		l = append(l, M{"p": p, "h": rawHash(ring[p : p+size]), "z": size})
		p += size
	}
	return l
}

func genRing(profile string, seed int64, nops int) CompScript {
	r := rand.New(rand.NewSource(seed))
	sectors := between(r, 2, 8)
	size := sectors * 512
	s := CompScript{Cfg: map[string]interface{}{"cap": size, "head": 0}}
	switch r.Intn(4) {
	case 0:
		s.Cfg["head"] = r.Intn(size - 5)
	case 1:
		s.Cfg["head"] = 512*r.Intn(sectors) + 500 + r.Intn(8)
	}
	n := 150
	if nops > 0 {
		n = nops
	}
	big := between(r, 20, size)
	bias := 55
	for k := 0; k < n; k++ {
		if r.Intn(12) == 0 {
			bias = []int{30, 55, 85}[r.Intn(3)]
		}
		if r.Intn(100) < bias {
			o := []string{"put", "del", "delr", "emb", "emb", "emb"}[r.Intn(6)]
			x := r.Intn(1 + r.Intn(big))
			if r.Intn(4) == 0 {
				x = 512*r.Intn(sectors) + r.Intn(30)
			}
			s.Ops = append(s.Ops, Op{O: o, I: r.Intn(40), N: x})
			continue
		}
		switch r.Intn(10) {
		case 0, 1, 2:
			s.Ops = append(s.Ops, Op{O: "pop", N: 1 + r.Intn(8)})
		case 3, 4, 5:
			s.Ops = append(s.Ops, Op{O: "rel", N: r.Intn(20), X: r.Intn(2) == 0})
		case 6:
			s.Ops = append(s.Ops, Op{O: []string{"flush", "sync"}[r.Intn(2)]})
		case 7:
			s.Ops = append(s.Ops, Op{O: "iter"})
		case 8:
			s.Ops = append(s.Ops, Op{O: "get", N: r.Intn(6)})
		default:
			s.Ops = append(s.Ops, Op{O: "reopen"})
		}
	}
	return s
}

// -------------------------------------------------------------------- buffer

func runBuf(s CompScript, emit func(M)) {
	size := num(s.Cfg["cap"])
	cuts := []int{}
	switch l := s.Cfg["cuts"].(type) {
	case []int:
		cuts = l
	case []interface{}:
		for _, x := range l {
			cuts = append(cuts, num(x))
		}
	}
	vec := payload(1, 0, size)
	tok := 1
	var buf *journal.JournalNvmBuffer
	start := func() {
		mem, err := nvm.NewFromVec(vec)
		if err != nil {
			panic(err)
		}
		buf = journal.NewJournalNvmBuffer(mem)
	}
	start()
	emit(M{"e": "start", "r": "ok"})
	at := func(k int) int {
		if k >= len(cuts) {
			return size
		}
		return cuts[k]
	}
	for _, op := range s.Ops {
		op := op
		m := caught(func() M {
			switch op.O {
			case "seek":
				to := at(op.S)
				off := int64(to)
				wh := io.SeekStart
				switch op.N {
				case 1:
					off, wh = int64(to)-int64(buf.Position()), io.SeekCurrent
				case 2:
					off, wh = int64(to)-int64(size), io.SeekEnd
				}
				p, err := buf.Seek(off, wh)
				return M{"r": class(err), "to": to, "p": cl(uint64(p)), "pos": cl(buf.Position())}
			case "read":
				p := int(buf.Position())
				n := at(op.N) - p
				if n < 0 { // stay on the cuts
					n = size - p
				}
				if op.X { // beyond the end
					n = size - p + 100
				}
				b := bytes.Repeat([]byte{0xEE}, n)
				c, err := buf.Read(b)
				if c < 0 {
					return M{"r": "neg", "msg": class(err)}
				}
				tail := 0
				for _, x := range b[c:] {
					if x != 0xEE {
						tail++
					}
				}
				return M{"r": class(err), "n": n, "c": c, "over": tail, "sg": segsOf(b[:c], p, cuts, tok), "pos": cl(buf.Position())}
			case "write":
				tok++
				p := int(buf.Position())
				to := at(op.N)
				if to < p {
					to = p
				}
				if op.X { // too much
					to = size + 1 + op.S
				}
				c, err := buf.Write(payload(tok, p, to))
				return M{"r": class(err), "n": to - p, "c": c, "t": tok, "pos": cl(buf.Position())}
			case "flush":
				return M{"r": class(buf.Flush())}
			case "sync":
				return M{"r": class(buf.Sync())}
			case "reopen":
				err := buf.Close()
				start()
				return M{"r": class(err)}
			}
			return M{"r": "badop"}
		})
		m["e"] = op.O
		emit(m)
		if m["r"] == "panic" {
			return
		}
		emit(M{"e": "dev", "r": "ok", "sg": segsOf(vec, 0, cuts, tok)})
	}
}

func genBuf(profile string, seed int64, nops int) CompScript {
	r := rand.New(rand.NewSource(seed))
	sectors := between(r, 1, 6)
	size := sectors * 512
	set := map[int]bool{0: true}
	for k := between(r, 4, 14); k > 0; k-- {
		x := r.Intn(size)
		switch r.Intn(3) {
		case 0:
			x = 512 * r.Intn(sectors)
		case 1:
			x = 512*r.Intn(sectors+1) + r.Intn(3) - 1
		}
		if x > 0 && x < size {
			set[x] = true
		}
	}
	cuts := []int{}
	for x := range set {
		cuts = append(cuts, x)
	}
	sort.Ints(cuts)
	s := CompScript{Cfg: map[string]interface{}{"cap": size, "cuts": cuts}}
	n := 90
	if nops > 0 {
		n = nops
	}
	for k := 0; k < n; k++ {
		op := Op{}
		switch x := r.Intn(100); {
		case x < 30:
			op = Op{O: "seek", S: r.Intn(len(cuts) + 1), N: r.Intn(3)}
		case x < 50:
			op = Op{O: "read", N: r.Intn(len(cuts) + 1), X: r.Intn(12) == 0}
		case x < 86:
			op = Op{O: "write", N: r.Intn(len(cuts) + 1), X: r.Intn(15) == 0, S: r.Intn(600)}
		case x < 92:
			op = Op{O: "flush"}
		case x < 96:
			op = Op{O: "sync"}
		default:
			op = Op{O: "reopen"}
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

// ------------------------------------------------------------------- records

func ints(b []byte) []int {
	l := make([]int, len(b))
	for k, x := range b {
		l[k] = int(x)
	}
	return l
}

func runRecord(s CompScript, emit func(M)) {
	emit(M{"e": "start", "r": "ok"})
	// read a record from bytes; the result as the bytes that it is made of
	read := func(b []byte) M {
		return caught(func() M {
			r, err := journal.ReadRecordFrom(bytes.NewReader(b))
			if err != nil {
				return M{"r": "err", "k": class(err), "out": []int{}}
			}
			return M{"r": "ok", "k": "", "out": ints(raw(r)[4:]), "z": int(r.ExternalSize())}
		})
	}
	for _, op := range s.Ops {
		var rec journal.JournalRecord
		switch op.K {
		case "end":
			rec = journal.EndOfRecords{}
		case "front":
			rec = journal.GoToFront{}
		default:
			rec = makeRecord(op.K, op.I, op.N)
		}
		b := raw(rec)
		switch op.O {
		case "write":
			m := M{"e": "write", "r": "ok", "b": ints(b), "z": int(rec.ExternalSize())}
			m["tag"], m["body"] = bodyOf(op.K, op.I, op.N)
			emit(m)
			m = read(b)
			m["e"], m["in"] = "read", ints(b)
			emit(m)
		case "alter": // bytes A.. change, by B each; behind the record: other bytes
			tail := append(raw(journal.EndOfRecords{}), payload(3, 0, 30)...)
			in := append(append([]byte{}, b...), tail...)
			for k := 0; k <= op.S; k++ {
				in[(op.A+k)%len(b)] += byte(op.B + k*op.Rv)
			}
			m := read(in)
			m["e"], m["in"] = "read", ints(in)
			emit(m)
		case "cut":
			in := b[:op.A%len(b)]
			m := read(in)
			m["e"], m["in"] = "read", ints(in)
			emit(m)
		case "big": // only whether it comes back
			m := read(append(append([]byte{}, b...), raw(journal.EndOfRecords{})...))
			out, _ := m["out"].([]int)
			same := len(out) == len(b)-4
			for k := 0; same && k < len(out); k++ {
				same = out[k] == int(b[4+k])
			}
			emit(M{"e": "big", "r": m["r"], "same": same, "n": op.N})
			in := append([]byte{}, b...)
			in[op.A%len(in)] ^= byte(1 + op.B%255)
			m = read(in)
			emit(M{"e": "bigalter", "r": m["r"], "n": op.N})
		}
	}
}

// what a record consists of, by its description
func bodyOf(kind string, i, n int) (int, []int) {
	be := func(x uint64, w int) (l []int) {
		for k := w - 1; k >= 0; k-- {
			l = append(l, int(byte(x>>(8*uint(k)))))
		}
		return
	}
	id := be(idOf(i), 8)
	switch kind {
	case "end":
		return 0, []int{}
	case "front":
		return 1, []int{}
	case "put":
		return 3, append(append(id, be(uint64(n%65536), 2)...), be(uint64(n)*7919, 5)...)
	case "del":
		return 5, id
	case "delr":
		return 6, append(id, be(idOf(i)+uint64(n), 8)...)
	}
	return 4, append(append(id, be(uint64(n), 2)...), ints(payload(n%97+1, 0, n))...)
}

func genRecord(profile string, seed int64, nops int) CompScript {
	r := rand.New(rand.NewSource(seed))
	s := CompScript{Cfg: map[string]interface{}{"seed": seed}}
	n := 12
	if nops > 0 {
		n = nops
	}
	for k := 0; k < n; k++ {
		kind := []string{"put", "del", "delr", "emb", "emb", "end", "front"}[r.Intn(7)]
		i, x := []int{0, 1, 5, 39, 40, 45, 53, 100, 149, 150}[r.Intn(10)], r.Intn(20)
		if kind == "put" && r.Intn(2) == 0 {
			x = r.Intn(1 << 27)
		}
		if kind == "delr" && i > 99 {
			i = 41
		}
		op := Op{O: "write", K: kind, I: i, N: x}
		s.Ops = append(s.Ops, op)
		size := 5
		switch kind {
		case "put":
			size = 20
		case "del":
			size = 13
		case "delr":
			size = 21
		case "emb":
			size = 15 + x
		}
		for c := 0; c < 14; c++ {
			op.O, op.A, op.B, op.S = "alter", r.Intn(size), 1+r.Intn(255), 0
			switch r.Intn(4) {
			case 0: // every kind of tag
				op.A, op.B = 4, 1+r.Intn(8)
			case 1:
				op.S, op.Rv = 1, r.Intn(256)
			}
			s.Ops = append(s.Ops, op)
		}
		for c := 0; c < 3; c++ {
			op.O, op.A = "cut", r.Intn(size)
			s.Ops = append(s.Ops, op)
		}
		if r.Intn(3) == 0 {
			s.Ops = append(s.Ops, Op{O: "big", K: "emb", I: i, N: []int{255, 256, 4096, 65279, 65280, 65534, 65535}[r.Intn(7)], A: r.Intn(65550), B: r.Intn(255)})
		}
	}
	return s
}

func init() {
	comp := func(run func(CompScript, func(M)), gen func(string, int64, int) CompScript) func(j *job, idx int, dir string, emit func(M)) interface{} {
		return func(j *job, idx int, dir string, emit func(M)) interface{} {
			s := compScript(j, idx, gen)
			cur(s.Cfg)
			run(s, emit)
			return s.Cfg
		}
	}
	kinds["ring"] = comp(runRing, genRing)
	kinds["buf"] = comp(runBuf, genBuf)
	kinds["record"] = comp(runRecord, genRecord)
}
