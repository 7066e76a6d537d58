package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"mime/multipart"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
	"verif/harness/readup"
)

// The HTTP server, run in this process, and its clients (spec/Server.tla).

type server struct {
	*exec
	base  string
	cli   *http.Client
	c     concLog
	done  chan interface{}
	seen  int64 // requests answered
	probe []probeAt
	msg   string
	keep  bool
}

type probeAt struct {
	pos int // events before it
	im  image
}

// the address on which this process listens
func listening() string {
	inodes := map[string]bool{}
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(s, "socket:[") {
			inodes[strings.TrimSuffix(s[8:], "]")] = true
		}
	}
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, line := range strings.Split(string(b), "\n") {
			x := strings.Fields(line)
			if len(x) > 9 && x[3] == "0A" && inodes[x[9]] {
				k := strings.LastIndex(x[1], ":")
				port := 0
				fmt.Sscanf(x[1][k+1:], "%x", &port)
				return fmt.Sprintf("127.0.0.1:%d", port)
			}
		}
	}
	return ""
}

func (s *server) start() bool {
	os.Chdir(s.dir)
	os.Args = []string{"readup", "--storage", s.path}
	s.done = make(chan interface{}, 1)
	go func() {
		defer func() { s.done <- recover() }()
		readup.Main()
	}()
	for end := time.Now().Add(hangAfter); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if a := listening(); a != "" {
			s.base = "http://" + a
			// kept connections may leave one that was never used, for which the server waits when it stops
			tr := &http.Transport{MaxIdleConnsPerHost: 16, DisableKeepAlives: !s.keep}
			s.cli = &http.Client{Timeout: hangAfter, Transport: tr}
			return true
		}
		select {
		case <-s.done:
			return false
		default:
		}
	}
	return false
}

// ask the server to stop, and wait for it
func (s *server) stop() string {
	s.cli.CloseIdleConnections()
	for k := 0; k < 20; k++ {
		syscall.Kill(os.Getpid(), syscall.SIGINT)
		select {
		case p := <-s.done:
			s.cli.CloseIdleConnections()
			if p != nil {
				s.msg = fmt.Sprint(p)
				return "panic"
			}
			return "ok"
		case <-time.After(3 * time.Second):
		}
	}
	atomic.StoreInt32(&hung, 1)
	return "hang"
}

func (s *server) request(method, path string, body []byte, ctype string) (code string, b []byte) {
	req, _ := http.NewRequest(method, s.base+path, bytes.NewReader(body))
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	resp, err := s.cli.Do(req)
	if err != nil {
		if strings.Contains(err.Error(), "Client.Timeout") {
			return "hang", nil
		}
		return "conn", nil
	}
	defer resp.Body.Close()
	b, err = io.ReadAll(resp.Body)
	if err != nil {
		return "conn", nil
	}
	if resp.ContentLength >= 0 && int64(len(b)) != resp.ContentLength {
		return "short", nil
	}
	if resp.StatusCode == 500 && len(b) == 0 {
		return "panic", nil // caught by the framework
	}
	return fmt.Sprint(resp.StatusCode), b
}

func upload(field string, b []byte) ([]byte, string) {
	var w bytes.Buffer
	m := multipart.NewWriter(&w)
	f, _ := m.CreateFormFile(field, "f")
	f.Write(b)
	m.Close()
	return w.Bytes(), m.FormDataContentType()
}

// one request of a client, in the log
func (s *server) client(th int, op Op, r *rand.Rand) string {
	s.c.mu.Lock()
	m := M{"e": op.O, "ph": "call", "th": th, "r": "hang", "i": op.I, "n": 0, "t": 0, "sg": [][]int{}}
	s.c.evs = append(s.c.evs, m)
	q := len(s.c.evs)
	s.c.mu.Unlock()
	res := M{}
	switch op.O {
	case "hput", "hputa":
		tok := int(atomic.AddInt64(&s.tok, 1))
		n := s.at(op.N)
		b, ct := upload("file", payload(tok, 0, n))
		p := "/put/"
		if op.O == "hput" {
			p += fmt.Sprint(idOf(op.I))
		}
		s.c.mu.Lock()
		m["t"], m["n"] = tok, n
		s.c.mu.Unlock()
		code, body := s.request("POST", p, b, ct)
		res["r"] = code
		if code == "200" {
			var id uint64
			if _, err := fmt.Sscanf(string(body), "The ID is %d\n", &id); err != nil {
				res["r"] = "badbody"
			}
			if op.O == "hput" && codeOf(id) != op.I {
				res["r"] = "otherid"
			}
			res["i"] = codeOf(id)
		}
	case "hget", "htake":
		p := "/random"
		if op.O == "hget" {
			p = "/get/" + fmt.Sprint(idOf(op.I))
		}
		code, b := s.request("GET", p, nil, "")
		res["r"] = code
		if code == "200" {
			res["n"], res["sg"] = len(b), s.segs(b, 0)
		}
	case "husage":
		code, b := s.request("GET", "/usage", nil, "")
		res["r"] = code
		var u storage.StorageUsage
		if code == "200" && json.Unmarshal(b, &u) != nil {
			res["r"] = "badbody"
		}
	case "hlook":
		code, _ := s.request("GET", []string{"/getalloc/", "/metrics"}[op.N%2], nil, "")
		res["r"] = code
	case "hbad":
		b, ct := upload("file", payload(1, 0, 100))
		switch op.N {
		case 0:
			res["r"], _ = s.request("POST", "/put/x", b, ct)
		case 1:
			res["r"], _ = s.request("POST", "/put/18446744073709551616", b, ct)
		case 2:
			res["r"], _ = s.request("POST", "/put/3", []byte("nothing"), "")
		case 3:
			b, ct = upload("other", payload(1, 0, 100))
			res["r"], _ = s.request("POST", "/put/", b, ct)
		case 4:
			res["r"], _ = s.request("GET", "/get/x", nil, "")
		case 5:
			res["r"], _ = s.request("GET", "/get/-1", nil, "")
		case 6:
			res["r"], _ = s.request("POST", "/snapshot/x", nil, "")
		case 7:
			res["r"], _ = s.request("POST", "/put/3/4", b, ct)
		case 8:
			res["r"], _ = s.request("POST", "/put/3", b[:len(b)/2], ct) // cut off
		default:
			b, ct = upload("file", make([]byte, lump.LUMP_MAX_SIZE+1))
			res["r"], _ = s.request("POST", "/put/3", b, ct)
		}
	case "screate":
		res["r"], _ = s.request("POST", "/snapshot/create", nil, "")
	case "sbackup":
		res["r"], _ = s.request("POST", "/snapshot/backup", nil, "")
	}
	s.ret(th, q, m, res, op, r)
	return fmt.Sprint(res["r"])
}

// the answer has come; what a power failure would leave now
func (s *server) ret(th, q int, call, res M, op Op, r *rand.Rand) {
	s.c.mu.Lock()
	defer s.c.mu.Unlock()
	for k, v := range res {
		call[k] = v
	}
	s.c.evs = append(s.c.evs, M{"e": "ret", "ph": "ret", "th": th, "q": q, "r": "ok"})
	atomic.AddInt64(&s.c.done, 1)
	if (op.O == "hput" || op.O == "hputa") && s.rec != nil && r.Intn(3) == 0 && len(s.probe) < 12 {
		s.rec.mu.Lock()
		some := r.Intn(3) == 0
		im := s.rec.powerImage(func(k, n int) bool { return some && r.Intn(2) == 0 })
		s.rec.mu.Unlock()
		s.probe = append(s.probe, probeAt{len(s.c.evs), im})
	}
}

func (s *server) dumpOf(path string) M {
	m := s.guard(func() M {
		st, err := storage.OpenCannylsStorage(path)
		if err != nil {
			return M{"r": "openerr", "msg": err.Error()}
		}
		m := s.dump(st)
		st.Close()
		m["r"] = "ok"
		return m
	})
	if _, ok := m["d"]; !ok {
		m["d"], m["cnt"] = []M{}, 0
	}
	return m
}

// wait for the backup to end, look at its file
func (s *server) backup() {
	var m M
	for end := time.Now().Add(hangAfter); ; time.Sleep(5 * time.Millisecond) {
		l, _ := filepath.Glob(filepath.Join(s.dir, "*_lusf.snapshot"))
		n, _ := filepath.Glob(filepath.Join(s.dir, "*_backup.lusf"))
		if len(l) == 0 && len(n) > 0 {
			f := n[0]
			time.Sleep(30 * time.Millisecond) // it closes the file
			p := filepath.Join(s.dir, "copy.lusf")
			b, _ := os.ReadFile(f)
			os.WriteFile(p, b, 0644)
			m = s.dumpOf(p)
			os.Remove(p)
			os.Remove(f) // the name of the next one may be the same
			break
		}
		if time.Now().After(end) {
			m = M{"r": "hang", "d": []M{}, "cnt": 0}
			break
		}
	}
	m["e"] = "backup"
	s.c.mu.Lock()
	s.c.evs = append(s.c.evs, m)
	s.c.mu.Unlock()
}

func init() {
	kinds["server"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		seed := j.seed*1000003 + int64(idx)
		r := rand.New(rand.NewSource(seed))
		cuts := map[int]bool{0: true, 40: true}
		for n := between(r, 4, 7); len(cuts) < n; {
			cuts[sizes[r.Intn(len(sizes))]] = true
		}
		sc := Script{Cfg: Cfg{Cuts: sortedInts(cuts), Cap: 3000, Journal: between(r, 16, 40), Auto: true, Mode: "plain", Seed: seed, Name: j.profile}}
		e := newExec(sc, dir, emit)
		s := &server{exec: e, keep: r.Intn(8) == 0}
		if err := e.create(); err != nil {
			emit(M{"e": "create", "r": class(err), "msg": err.Error()})
			return traceCfg(e)
		}
		cfg := traceCfg(e)
		cur(cfg)
		e.emit(M{"e": "start", "r": "ok"})
		ids := []int{0, 1, 2, 3}
		if r.Intn(3) == 0 {
			ids = []int{0, 149, 150}
		}
		for k := between(r, 0, 4); k > 0; k-- {
			m := e.guard(func() M { return e.do(Op{O: "put", I: ids[r.Intn(len(ids))], N: between(r, 1, len(e.Cfg.Cuts)-1)}) })
			m["e"] = "fill"
			e.emit(m)
		}
		e.st.Close()
		e.rec.stop()
		e.rec = record(e.path)
		ints := make(chan os.Signal, 8)
		signal.Notify(ints, syscall.SIGINT)
		if !s.start() {
			e.emit(M{"e": "stopped", "r": "nostart", "d": []M{}, "cnt": 0})
			return cfg
		}
		// device operations are held up until some requests are answered
		var live int64
		var gmu sync.Mutex
		grng := rand.New(rand.NewSource(seed + 7))
		s.rec.gate = func(op string, off int64, n int) {
			gmu.Lock()
			x, k := grng.Intn(10), int64(1+grng.Intn(4))
			gmu.Unlock()
			if x >= 4 || atomic.LoadInt64(&live) < 2 {
				return
			}
			wait := 3 * time.Millisecond
			if op == "enter-read" || x == 0 {
				wait = 12 * time.Millisecond
			}
			from := atomic.LoadInt64(&s.c.done)
			for end := time.Now().Add(wait); atomic.LoadInt64(&s.c.done) < from+k && time.Now().Before(end); {
				time.Sleep(100 * time.Microsecond)
			}
		}
		w := weights{"hput": 30, "hputa": 14, "hget": 22, "htake": 22, "husage": 2, "hlook": 2, "hbad": 5}
		switch r.Intn(3) {
		case 0:
			w["htake"], w["hput"] = 40, 40
		case 1:
			w["htake"] = 6
		}
		stopping := r.Intn(4) == 0
		if stopping {
			delete(w, "hputa")
			delete(w, "hbad")
		}
		nt := between(r, 2, 5)
		per := between(r, 24, 44) / nt
		autos := int32(30)
		live = int64(nt)
		var wg sync.WaitGroup
		var dead int32
		for t := 0; t < nt; t++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(t int) {
				defer wg.Done()
				defer atomic.AddInt64(&live, -1)
				for k := 0; k < per && atomic.LoadInt32(&dead) == 0; k++ {
					op := Op{O: pick(rr, w), I: ids[rr.Intn(len(ids))], N: between(rr, 1, len(e.Cfg.Cuts)-1)}
					if op.O == "hputa" && atomic.AddInt32(&autos, -1) < 0 {
						continue
					}
					if op.O == "hbad" {
						op.N = rr.Intn(9)
						if t == 0 && k == 3 && idx%8 == 0 {
							op.N = 9
						}
					}
					if op.O == "hput" && rr.Intn(12) == 0 {
						op.N = 0
					}
					switch s.client(t, op, rr) {
					case "hang", "panic":
						atomic.StoreInt32(&dead, 1)
						atomic.StoreInt32(&hung, 1)
					case "conn":
						return
					}
					if rr.Intn(4) == 0 {
						time.Sleep(time.Duration(rr.Intn(600)) * time.Microsecond)
					}
				}
			}(t)
		}
		admin := func() {
			rr := rand.New(rand.NewSource(seed + 9))
			for k := between(rr, 1, 2); k > 0; k-- {
				time.Sleep(time.Duration(rr.Intn(20)) * time.Millisecond)
				if rr.Intn(2) == 0 {
					s.client(nt, Op{O: "screate"}, rr)
					if rr.Intn(2) == 0 {
						s.client(nt, Op{O: "screate"}, rr)
					}
					time.Sleep(time.Duration(rr.Intn(20)) * time.Millisecond)
				}
				if s.client(nt, Op{O: "sbackup"}, rr) == "200" {
					s.backup()
				}
			}
		}
		if j.profile == "backup" {
			stopping = false
			wg.Add(1)
			go func() { defer wg.Done(); admin() }()
		}
		res := ""
		if stopping {
			n := int64(per * nt * r.Intn(10) / 10)
			for end := time.Now().Add(2 * time.Second); atomic.LoadInt64(&s.c.done) < n && time.Now().Before(end); {
				time.Sleep(200 * time.Microsecond)
			}
			res = s.stop()
		}
		wg.Wait()
		if !stopping && dead == 0 {
			code, b := s.request("GET", "/usage", nil, "")
			var u storage.StorageUsage
			json.Unmarshal(b, &u)
			s.c.evs = append(s.c.evs, M{"e": "usage", "r": code, "n": cl(u.FileCounts), "fr": cl(u.DataFreeBytes / 512)})
			res = s.stop()
		}
		signal.Stop(ints)
		s.rec.gate = nil
		// the log, with the probes in their places
		at, base := 0, e.count
		shift := map[int]int{}
		all := []M{}
		for k, m := range s.c.evs {
			for at < len(s.probe) && s.probe[at].pos <= k {
				all = append(all, s.judged(at))
				at++
			}
			all = append(all, m)
			shift[k+1] = len(all)
		}
		for ; at < len(s.probe); at++ {
			all = append(all, s.judged(at))
		}
		for _, m := range all {
			if q, ok := m["q"]; ok {
				m["q"] = shift[q.(int)] + base
			}
			e.emit(m)
		}
		e.rec.stop()
		if dead != 0 {
			e.emit(M{"e": "end", "r": "hang"})
			return cfg
		}
		m := s.dumpOf(e.path)
		m["e"] = "stopped"
		if res != "ok" {
			m["r"], m["msg"] = res, s.msg
		}
		e.emit(m)
		return cfg
	}
}

func (s *server) judged(k int) M {
	d := filepath.Join(s.dir, fmt.Sprintf("p%d", k))
	os.Mkdir(d, 0755)
	defer os.RemoveAll(d)
	p := filepath.Join(d, "s.lusf")
	s.probe[k].im.write(p)
	m := s.dumpOf(p)
	m["e"] = "safe"
	return m
}
