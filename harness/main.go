package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
)

// job is one group of traces to be made by worker processes
type job struct {
	kind    string
	profile string
	seed    int64
	n       int
	nops    int
	scripts string
	out     string
	workers int
	from    int
	step    int
}

var kinds = map[string]func(j *job, idx int, dir string, emit func(M)) (cfg interface{}){}

func main() {
	if len(os.Args) == 5 && os.Args[1] == "-opener" {
		n := 0
		fmt.Sscan(os.Args[4], &n)
		opener(os.Args[2], n)
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-tool" {
		toolMain(os.Args[2:])
		return
	}
	stdout := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the code under test prints
	}
	j := job{}
	worker := flag.Bool("worker", false, "")
	flag.StringVar(&j.kind, "kind", "store", "")
	flag.StringVar(&j.profile, "profile", "map", "")
	flag.Int64Var(&j.seed, "seed", 1, "")
	flag.IntVar(&j.n, "n", 10, "")
	flag.IntVar(&j.nops, "len", 0, "")
	flag.StringVar(&j.scripts, "scripts", "", "")
	flag.StringVar(&j.out, "out", "", "")
	flag.IntVar(&j.workers, "workers", 8, "")
	flag.IntVar(&j.from, "from", 0, "")
	flag.IntVar(&j.step, "step", 1, "")
	flag.Parse()
	if *worker {
		debug.SetMemoryLimit(2 << 30)
		limitMemory(5 << 30)
		runWorker(&j)
		return
	}
	if j.scripts != "" {
		j.n = countLines(j.scripts)
	}
	var wg sync.WaitGroup
	errs := make([]error, j.workers)
	for w := 0; w < j.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			errs[w] = supervise(&j, w)
		}(w)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(stdout, "TOOL-ERROR", e)
			os.Exit(3)
		}
	}
}

func countLines(f string) int {
	b, _ := os.ReadFile(f)
	return strings.Count(string(b), "\n")
}

// run the traces from, from+step, ... of a worker; restart it behind a trace that
// killed it
func supervise(j *job, w int) error {
	out := fmt.Sprintf("%s.%d", j.out, w)
	os.Remove(out)
	base, err := os.MkdirTemp(scratchBase(), "vh-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(base)
	from := w
	deaths := 0
	again := -1 // the trace at which memory ran out
	for from < j.n {
		part := out + ".part"
		os.Remove(part)
		cmd := osexec.Command(os.Args[0], "-worker", "-kind", j.kind, "-profile", j.profile, "-seed", fmt.Sprint(j.seed),
			"-n", fmt.Sprint(j.n), "-len", fmt.Sprint(j.nops), "-scripts", j.scripts, "-out", out,
			"-from", fmt.Sprint(from), "-step", fmt.Sprint(j.workers))
		var se strings.Builder
		cmd.Stderr = &se
		cmd.Env = append(os.Environ(), "VH_BASE="+base)
		err := cmd.Run()
		if err == nil {
			os.Remove(part)
			return nil
		}
		if b, e := os.ReadFile(out + ".next"); e == nil {
			os.Remove(out + ".next")
			fmt.Sscan(string(b), &from)
			continue
		}
		msg := se.String()
		idx, cfg, evs := readPart(part)
		inCode := strings.Contains(msg, "github.com/thesues/cannyls-go/") &&
			(strings.Contains(msg, "panic:") || strings.Contains(msg, "fatal error:") || strings.Contains(msg, "SIGSEGV"))
		if idx >= 0 && idx != again && (strings.Contains(msg, "out of memory") || err.Error() == "signal: killed") {
			again, from = idx, idx // was it this trace?
			continue
		}
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		if idx < 0 || !(inCode || strings.Contains(msg, "WATCHDOG")) {
			return fmt.Errorf("worker: %v: %s", err, msg)
		}
		b, _ := json.Marshal(M{"e": "died", "r": "died", "msg": msg})
		evs = append(evs, string(b))
		f, _ := os.OpenFile(out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		fmt.Fprintf(f, `{"id":%d,"cfg":%s,"ev":[%s]}`+"\n", idx, cfg, strings.Join(evs, ","))
		f.Close()
		from = idx + j.workers
		if deaths++; deaths >= 2 { // enough is known
			os.Remove(part)
			return nil
		}
	}
	return nil
}

func readPart(part string) (idx int, cfg string, evs []string) {
	idx = -1
	f, err := os.Open(part)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for n := 0; sc.Scan(); n++ {
		switch n {
		case 0:
			fmt.Sscan(sc.Text(), &idx)
		case 1:
			cfg = sc.Text()
		default:
			if json.Valid(sc.Bytes()) {
				evs = append(evs, sc.Text())
			}
		}
	}
	if cfg == "" {
		idx = -1
	}
	return
}

func scratchBase() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		f := filepath.Join(d, fmt.Sprintf("vh-probe-%d", os.Getpid()))
		h, err := os.OpenFile(f, os.O_CREATE|os.O_RDWR|odirect, 0600)
		if err == nil {
			h.Close()
			os.Remove(f)
			return d
		}
		os.Remove(f)
	}
	return os.TempDir()
}

func runWorker(j *job) {
	run := kinds[j.kind]
	if run == nil {
		fmt.Fprintln(os.Stderr, "no such kind", j.kind)
		os.Exit(4)
	}
	base := os.Getenv("VH_BASE") // of the supervisor, who removes it
	out, err := os.OpenFile(j.out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	w := bufio.NewWriter(out)
	for idx := j.from; idx < j.n; idx += j.step {
		dir := filepath.Join(base, fmt.Sprint(idx))
		os.RemoveAll(dir)
		os.Mkdir(dir, 0755)
		part, _ := os.Create(j.out + ".part")
		var mu sync.Mutex
		evs := []json.RawMessage{}
		first := true
		cur = func(cfg interface{}) {
			b, _ := json.Marshal(cfg)
			fmt.Fprintf(part, "%d\n%s\n", idx, b)
			first = false
		}
		emit := func(m M) {
			b, err := json.Marshal(m)
			if err != nil {
				panic(err)
			}
			mu.Lock()
			evs = append(evs, b)
			if !first {
				part.Write(append(b, '\n'))
			}
			mu.Unlock()
		}
		cfg := run(j, idx, dir, emit)
		part.Close()
		mu.Lock()
		b, _ := json.Marshal(M{"id": idx, "cfg": cfg, "ev": evs})
		mu.Unlock()
		w.Write(b)
		w.WriteString("\n")
		w.Flush()
		if atomic.LoadInt32(&hung) != 0 {
			break
		}
		os.RemoveAll(dir)
		var ms runtime.MemStats
		if runtime.ReadMemStats(&ms); ms.HeapInuse > 1<<30 && idx+j.step < j.n {
			// the code under test keeps memory, of operations that failed say: a fresh worker goes on
			runtime.GC()
			runtime.ReadMemStats(&ms)
			if ms.HeapInuse > 1<<30 {
				os.WriteFile(j.out+".next", []byte(fmt.Sprint(idx+j.step)), 0644)
				os.Exit(7)
			}
		}
	}
	out.Close()
	os.Remove(j.out + ".part")
}

// announces the configuration of the trace that starts
var cur func(cfg interface{})

func init() {
	kinds["store"] = func(j *job, idx int, dir string, emit func(M)) interface{} {
		var s Script
		if j.scripts != "" {
			s = readScript(j.scripts, idx)
			if s.Cfg.Seed == 0 {
				s.Cfg.Seed = j.seed*1000003 + int64(idx)
			}
		} else {
			s = genScript(j.profile, j.seed*1000003+int64(idx), j.nops)
		}
		e := newExec(s, dir, emit)
		if err := e.create(); err != nil {
			emit(M{"e": "create", "r": class(err), "msg": err.Error()})
			return traceCfg(e)
		}
		cur(traceCfg(e))
		if s.Cfg.Tot > 0 {
			e.emit(M{"e": "create", "r": "ok"})
		}
		e.run()
		if e.rec != nil {
			e.rec.stop()
		}
		return traceCfg(e)
	}
}

func traceCfg(e *exec) M {
	return M{"cuts": e.Cfg.Cuts, "cap": e.Cfg.Cap, "jsec": e.Cfg.Journal, "ring": e.ring, "auto": e.auto, "mode": e.Cfg.Mode, "name": e.Cfg.Name, "tot": e.Cfg.Tot, "num": e.Cfg.Num, "seed": e.Cfg.Seed}
}

func readScript(file string, idx int) (s Script) {
	readJSONLine(file, idx, &s)
	return s
}

func readJSONLine(file string, idx int, to interface{}) {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for n := 0; sc.Scan(); n++ {
		if n == idx {
			if err := json.Unmarshal(sc.Bytes(), to); err != nil {
				panic(err)
			}
			return
		}
	}
	panic("no such script")
}
