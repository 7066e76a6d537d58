package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	osexec "os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dustin/go-humanize"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
	"verif/harness/kanils"
)

// The command line tool (spec/Tool.tla): every invocation is a process of its own.

// runs the tool; VH_KILL=op:n kills the process before its n-th write or sync
func toolMain(args []string) {
	if s := strings.Split(os.Getenv("VH_KILL"), ":"); len(s) == 2 {
		n, _ := strconv.Atoi(s[1])
		left := int32(n)
		nvm.VerifIO = func(op, name string, off int64, buf []byte) error {
			if op == s[0] && atomic.AddInt32(&left, -1) == 0 {
				syscall.Kill(os.Getpid(), syscall.SIGKILL)
				select {}
			}
			return nil
		}
	}
	os.Args = append([]string{"kanils"}, args...)
	kanils.Main()
}

type tool struct {
	*exec
	r     *rand.Rand
	uuids map[string]bool
	shot  []byte
}

// one invocation: what it printed, and how it ended
func (t *tool) call(kill string, args ...string) (out, end string) {
	cmd := osexec.Command(os.Args[0], append([]string{"-tool"}, args...)...)
	cmd.Env = append(os.Environ(), "VH_KILL="+kill)
	cmd.Dir = t.dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(hangAfter):
		cmd.Process.Kill()
		<-done
		return "", "hang"
	}
	switch {
	case err == nil:
		end = "ok"
	case strings.Contains(err.Error(), "killed") && kill != "":
		end = "killed"
	case strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "fatal error:"):
		end = "panic"
	default:
		end = "err"
	}
	return strip(so.String()), end
}

// without the messages of the library, which go to the same place
func strip(out string) string {
	out = strings.TrimSuffix(strings.TrimSuffix(out, "\n"), "close")
	l := []string{}
	for _, x := range strings.SplitAfter(out, "\n") {
		noise := false
		for _, p := range []string{"found snapshot file ", "header is ", "Creating Backingfile ", "start backup for ", "close\n"} {
			noise = noise || strings.HasPrefix(x, p)
		}
		if !noise {
			l = append(l, x)
		}
	}
	return strings.Join(l, "")
}

// the result of an invocation that ended well if good, and says why otherwise
func verdict(out, end string, good bool) string {
	switch {
	case end != "ok":
		return end
	case good:
		return "ok"
	case strings.Contains(out, "Journal is full"):
		return "jfull"
	case strings.Contains(out, "Storage is full"):
		return "full"
	case strings.Contains(out, "Invalid input"):
		return "inval"
	case strings.Contains(out, "corrupted"):
		return "corrupt"
	}
	return "nf"
}

func (t *tool) key(i int) string {
	if t.r.Intn(6) == 0 {
		return fmt.Sprintf("%#x", idOf(i))
	}
	return fmt.Sprint(idOf(i))
}

func line(out, head string) (string, bool) {
	for _, l := range strings.Split(out, "\n") {
		if k := strings.Index(l, head); k >= 0 {
			return strings.TrimSpace(l[k+len(head):]), true
		}
	}
	return "", false
}

// the numbers of blocks that are printed as s
func shownAs(s string, max int) []int {
	l := []int{}
	for k := 0; k <= max; k++ {
		if humanize.Bytes(uint64(k)*512) == s {
			l = append(l, k)
		}
	}
	return l
}

func (t *tool) open() bool {
	m := t.guard(func() M {
		st, err := storage.OpenCannylsStorage(t.path)
		if err != nil {
			return M{"r": "openerr", "msg": err.Error()}
		}
		t.st = st
		return M{"r": "ok"}
	})
	if m["r"] != "ok" {
		m["e"], m["d"], m["cnt"] = "dump", []M{}, 0
		t.emit(m)
		return false
	}
	return true
}

func (t *tool) api(op Op) bool {
	m := t.guard(func() M { return t.do(op) })
	m["e"], m["flt"] = op.O, false
	t.emit(m)
	return m["r"] != "panic" && m["r"] != "hang"
}

// read the snapshot
func (t *tool) snapshot() ([]byte, error) {
	rd, err := t.st.GetSnapshotReader()
	if err != nil {
		return nil, err
	}
	return io.ReadAll(rd)
}

// the store is looked at, and used, through its interface
func (t *tool) session(ids []int, sizes []int) bool {
	r := t.r
	if !t.open() {
		return false
	}
	ok := true
	if t.shot != nil {
		var b []byte
		m := t.guard(func() M {
			var err error
			b, err = t.snapshot()
			return M{"r": class(err)}
		})
		n := len(t.shot)
		if len(b) < n || !bytes.Equal(b[:n], t.shot) {
			m["r"] = "changed"
			for k := 0; k < n && k < len(b); k++ {
				if b[k] != t.shot[k] {
					m["at"] = k
					break
				}
			}
		}
		m["e"] = "shot"
		t.emit(m)
		ok = m["r"] == "ok"
		if r.Intn(3) == 0 {
			t.st.DeleteSnapshot()
			t.shot = nil
		}
	} else if r.Intn(6) == 0 {
		t.st.Sync()
		t.emit(M{"e": "sync", "r": "ok"})
		if t.st.CreateSnapshot() == nil {
			t.shot, _ = t.snapshot()
		}
	}
	for _, o := range []string{"dump", "own", "usage"} {
		ok = ok && t.api(Op{O: o})
	}
	if r.Intn(3) == 0 {
		for k := between(r, 1, 6); k > 0 && ok; k-- {
			i := ids[r.Intn(len(ids))]
			n := sizes[r.Intn(len(sizes))]
			a, b := r.Intn(len(t.Cfg.Cuts)), r.Intn(len(t.Cfg.Cuts))
			if a > b {
				a, b = b, a
			}
			if t.Cfg.Cuts[b] > 40000 {
				a, b = 0, 3
			}
			switch r.Intn(6) {
			case 0, 1:
				ok = t.api(Op{O: "put", I: i, N: n})
			case 2:
				ok = t.api(Op{O: "puto", I: i, S: a, N: b, Rv: n})
			case 3:
				ok = t.api(Op{O: "del", I: i})
			case 4:
				if n > 7 {
					n = 7
				}
				ok = t.api(Op{O: "pute", I: i, N: n})
			default:
				j := ids[r.Intn(len(ids))]
				if i > j {
					i, j = j, i
				}
				ok = t.api(Op{O: "delr", A: i, B: j, X: true})
			}
		}
		if r.Intn(3) == 0 && ok { // an invocation while the store is in use
			t.emit(t.held(ids))
		}
		ok = ok && t.api(Op{O: "dump"})
	}
	m := t.guard(func() M { t.st.Close(); return M{"r": "ok"} })
	m["e"] = "sync"
	t.emit(m)
	return ok && m["r"] == "ok"
}

// another process has the store
func (t *tool) held(ids []int) M {
	k := t.key(ids[t.r.Intn(len(ids))])
	c := [][]string{{"Put", "--key", k, "--value", "v"}, {"Get", "--key", k}, {"Delete", "--key", k}, {"Dump"}, {"Journal"}, {"JournalGC"},
		{"Header"}, {"Header", "--replay"}, {"Resize", "--size", "99999999"}, {"Create", "--capacity", "1000000"}}[t.r.Intn(10)]
	out, end := t.call("", append([]string{c[0], "--storage", t.path}, c[1:]...)...)
	m := M{"e": "kbad", "c": c[0], "out": cut(out)}
	m["r"] = verdict(out, end, good(c[0], out))
	return m
}

func cut(s string) string {
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// the output of a command that did what it was told
func good(c, out string) bool {
	has := func(s string) bool { return strings.Contains(out, s) }
	switch c {
	case "Put":
		return strings.TrimSpace(out) == ""
	case "Get":
		return strings.HasPrefix(out, "value: ")
	case "Delete":
		return has(" is deleted\n")
	case "Dump":
		for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			k := strings.Index(l, " :")
			if l == "" && out == "" {
				continue
			}
			if k < 0 {
				return false
			}
			if _, err := strconv.ParseUint(l[:k], 16, 64); err != nil {
				return false
			}
		}
		return true
	case "Journal":
		return has("unused header :") && has("tail          :")
	case "JournalGC":
		return has("completed")
	case "Header":
		return has("===cannyls header===")
	case "Resize":
		return strings.HasPrefix(out, "setting new size to") && strings.Count(strings.TrimSpace(out), "\n") == 0
	case "Create":
		return strings.HasPrefix(out, "Creating cannyls") && strings.Count(strings.TrimSpace(out), "\n") == 0
	}
	return false
}

func (t *tool) step(ids, sizes []int) M {
	r := t.r
	i := ids[r.Intn(len(ids))]
	store := []string{"--storage", t.path}
	if r.Intn(8) == 0 {
		store = []string{"--storage=" + filepath.Base(t.path)}
	}
	kill := ""
	if r.Intn(4) == 0 {
		kill = fmt.Sprintf("%s:%d", []string{"write", "write", "sync"}[r.Intn(3)], 1+r.Intn(4))
	}
	run := func(kill, c string, args ...string) (string, string, string) {
		out, end := t.call(kill, append(append([]string{c}, store...), args...)...)
		return out, end, verdict(out, end, good(c, out))
	}
	keyArg := func() []string {
		if i == 0 && r.Intn(2) == 0 {
			return nil
		}
		return []string{"--key", t.key(i)}
	}
	switch x := r.Intn(100); {
	case x < 26: // a file
		tok := int(atomic.AddInt64(&t.tok, 1))
		n := t.at(sizes[r.Intn(len(sizes))])
		if r.Intn(3) == 0 {
			n = r.Intn(60000)
		}
		f := filepath.Join(t.dir, "in")
		os.WriteFile(f, payload(tok, 0, n), 0644)
		out, _, res := run(kill, "Put", append(keyArg(), "--value", "@"+f)...)
		return M{"e": "kput", "r": res, "i": i, "t": tok, "n": n, "out": cut(out)}
	case x < 46:
		tok := int(atomic.AddInt64(&t.tok, 1))
		n := []int{0, 1, 5, 100, r.Intn(1000), r.Intn(5000), t.at(sizes[r.Intn(len(sizes))])}[r.Intn(7)]
		if r.Intn(30) == 0 {
			n = lump.MAX_EMBEDDED_SIZE + r.Intn(2)
		}
		a := []string{"--value", string(payload(tok, 0, n))}
		if n == 0 && r.Intn(2) == 0 {
			a = nil
		}
		out, _, res := run(kill, "Put", append(keyArg(), a...)...)
		return M{"e": "kpute", "r": res, "i": i, "t": tok, "n": n, "out": cut(out)}
	case x < 58:
		out, _, res := run(kill, "Delete", keyArg()...)
		return M{"e": "kdel", "r": res, "i": i, "out": cut(out)}
	case x < 70:
		out, _, res := run("", "Get", keyArg()...)
		b := []byte(strings.TrimPrefix(out, "value: "))
		if res != "ok" {
			b = nil
		}
		return M{"e": "kget", "r": res, "i": i, "n": len(b), "sg": t.segs(b, 0)}
	case x < 78:
		out, end, res := run("", "Dump")
		_ = end
		d := []M{}
		if out != "" {
			for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
				k := strings.Index(l, " :")
				if k < 0 {
					break
				}
				id, _ := strconv.ParseUint(l[:k], 16, 64)
				b := []byte(l[k+2:])
				d = append(d, M{"i": codeOf(id), "n": len(b), "sg": t.segs(b, 0)})
			}
		}
		return M{"e": "kdump", "r": res, "d": d}
	case x < 84:
		full := r.Intn(2) == 0
		a := []string{}
		if full {
			a = []string{"--replay"}
		}
		out, _, res := run("", "Header", a...)
		m := M{"e": "khead", "r": res, "full": full, "dc": 0, "jc": 0, "bs": 0, "uu": 0, "n": 0, "fr": []int{}, "dct": []int{}, "jct": []int{}, "jut": []int{}}
		num := func(head string) int {
			s, _ := line(out, head)
			n := -1
			fmt.Sscan(strings.TrimSuffix(strings.Fields(s + " -1")[0], ","), &n)
			return n
		}
		m["dc"], m["jc"], m["bs"] = num("Data    Region Size")/512, num("Journal Region Size"), num("Block Size")
		if u, ok := line(out, "UUID"); ok {
			t.uuids[u] = true
		}
		m["uu"] = len(t.uuids)
		if full {
			m["n"] = num("file counts")
			for k, h := range map[string]string{"fr": "data Free Bytes", "dct": "data capacity", "jct": "journal capacity"} {
				s, _ := line(out, h)
				m[k] = shownAs(s, 20000)
			}
		}
		return m
	case x < 87:
		out, _, res := run("", "Journal")
		return M{"e": "kjournal", "r": res, "n": strings.Count(out, "\n<") + b2i(strings.HasPrefix(out, "<"))}
	case x < 90:
		_, _, res := run(kill, "JournalGC")
		return M{"e": "kgc", "r": res}
	case x < 95:
		n := t.Cfg.Cap + []int{-1, 0, 1, 1 + r.Intn(200), r.Intn(t.Cfg.Cap)/4 - t.Cfg.Cap}[r.Intn(5)]
		if n < 0 {
			n = 0
		}
		bytes := n*512 + []int{0, 1, 511}[r.Intn(3)]
		out, _, res := run(kill, "Resize", "--size", fmt.Sprint(bytes))
		if res == "ok" {
			t.Cfg.Cap = n
		}
		return M{"e": "kgrow", "r": res, "n": n, "out": cut(out)}
	}
	// what makes no sense
	os.Mkdir(filepath.Join(t.dir, "d"), 0755)
	other := []string{"--storage", filepath.Join(t.dir, []string{"nothing.lusf", "d", "no/s.lusf"}[r.Intn(3)])}
	var c string
	var a []string
	switch r.Intn(10) {
	case 0:
		c, a = "Create", append(store, "--capacity", "1000000")
	case 1:
		c, a = "Put", append(store, "--key", t.key(i), "--value", "@"+filepath.Join(t.dir, []string{"nofile", "d"}[r.Intn(2)]))
	case 2:
		f := filepath.Join(t.dir, "huge")
		os.WriteFile(f, nil, 0644)
		os.Truncate(f, lump.LUMP_MAX_SIZE+1)
		c, a = "Put", append(store, "--key", t.key(i), "--value", "@"+f)
	case 3:
		c, a = []string{"Put", "Get", "Delete"}[r.Intn(3)], append(store, "--key", []string{"x", "-1", "18446744073709551616"}[r.Intn(3)])
	case 4:
		c, a = []string{"Get", "Put", "Delete", "Dump", "Journal", "JournalGC", "Header"}[r.Intn(7)], other
	case 5:
		c, a = "Resize", append(store, "--size", []string{"x", "-512", "0", "99999999999999999999", "9223372036854775807", "18446744073709551615"}[r.Intn(6)])
	case 6:
		c, a = "Resize", append(other, "--size", "1000000")
	case 7:
		c, a = "Create", append([]string{"--storage", filepath.Join(t.dir, "n.lusf")}, "--capacity", []string{"0", "512", "x", "18446744073709551615"}[r.Intn(4)])
	case 8:
		c, a = "Header", append(other, "--replay")
	default:
		c, a = []string{"Get", "Put", "Delete", "Dump", "Journal", "JournalGC", "Header", "Resize", "Create"}[r.Intn(9)], nil
	}
	out, end := t.call("", append([]string{c}, a...)...)
	m := M{"e": "kbad", "c": c, "out": cut(out)}
	m["r"] = verdict(out, end, good(c, out))
	if _, err := os.Stat(filepath.Join(t.dir, "n.lusf")); err == nil {
		m["r"] = "ok" // left a file
		os.Remove(filepath.Join(t.dir, "n.lusf"))
	}
	return m
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	kinds["tool"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		plainText = true
		defer func() { plainText = false }()
		seed := j.seed*1000003 + int64(idx)
		r := rand.New(rand.NewSource(seed))
		s := Script{Cfg: Cfg{Cuts: []int{0, 1, 100, 509, 510, 511, 1022, 1023, 3000, 10000, 40000, 65535}, Auto: true, Mode: "tool", Seed: seed, Name: j.profile}}
		t := &tool{exec: newExec(s, dir, emit), r: r, uuids: map[string]bool{}}
		t.path = filepath.Join(dir, "s.lusf")
		capacity := between(r, 60, 600)*512 + []int{0, 0, 1, 511}[r.Intn(4)]
		out, end := t.call("", "Create", "--storage", t.path, "--capacity", fmt.Sprint(capacity))
		if verdict(out, end, good("Create", out)) != "ok" {
			t.emit(M{"e": "create", "r": "err", "out": cut(out)})
			return traceCfg(t.exec)
		}
		// the layout
		st, err := storage.OpenCannylsStorage(t.path)
		if err != nil {
			t.emit(M{"e": "create", "r": "err", "msg": err.Error()})
			return traceCfg(t.exec)
		}
		h := st.Header()
		st.Close()
		t.Cfg.Cap, t.Cfg.Journal = int(h.DataRegionSize/512), int(h.JournalRegionSize/512)
		t.ring = int(h.JournalRegionSize) - 512
		cfg := traceCfg(t.exec)
		cur(cfg)
		all := []int{0, 1, 2, 3, 4, 5, 17, 40, 41, 46, 47, 52, 53, 100, 149, 150}
		ids := []int{}
		for k := between(r, 3, 9); k > 0; k-- {
			ids = append(ids, all[r.Intn(len(all))])
		}
		sizes := []int{}
		for k := 0; k < 5; k++ {
			sizes = append(sizes, r.Intn(len(t.Cfg.Cuts)-1))
		}
		t.emit(M{"e": "start", "r": "ok"})
		n := j.nops
		if n == 0 {
			n = 30
		}
		for k := 0; k < n; k++ {
			m := t.step(ids, sizes)
			t.emit(m)
			switch m["r"] {
			case "panic", "hang":
				return cfg
			case "killed":
				if m["e"] == "kgrow" { // the layout
					if b, err := os.ReadFile(t.path); err == nil && len(b) >= 44 {
						n := 0
						for _, x := range b[36:44] {
							n = n<<8 | int(x)
						}
						t.Cfg.Cap = n / 512
					}
				}
			}
			t.emit(M{"e": "sync", "r": "ok"})
			if (m["r"] == "killed" || r.Intn(3) == 0 || k == n-1) && !t.session(ids, sizes) {
				return cfg
			}
		}
		return cfg
	}
}
