// One test per genuine defect found in thesues/cannyls-go (see
// /verif/known_findings.txt).  Every test fails on the original tree ("base")
// and passes on the repaired tree.  Run: see run.sh
package demos

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
)

func id(n int) lump.LumpId { return lump.FromU64(0, uint64(n)) }
func pat(n int, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed*31 + i*7 + i/256)
	}
	return b
}
func ld(b []byte) lump.LumpData {
	d := lump.NewLumpDataAligned(len(b), block.Min())
	copy(d.AsBytes(), b)
	return d
}
func mk(t *testing.T, cap uint64, ratio float64) (*storage.Storage, string) {
	d := t.TempDir()
	p := filepath.Join(d, "s.lusf")
	s, err := storage.CreateCannylsStorage(p, cap, ratio)
	if err != nil {
		t.Fatal(err)
	}
	return s, p
}

// crash: image of the file as a kill at this instant would leave it
func crash(t *testing.T, p string) *storage.Storage {
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	q := filepath.Join(t.TempDir(), "c.lusf")
	if err := os.WriteFile(q, b, 0644); err != nil {
		t.Fatal(err)
	}
	type res struct {
		s   *storage.Storage
		err error
	}
	ch := make(chan res, 1)
	go func() { s, e := storage.OpenCannylsStorage(q); ch <- res{s, e} }()
	select {
	case r := <-ch:
		if r.err != nil {
			t.Fatal("reopen: ", r.err)
		}
		return r.s
	case <-time.After(10 * time.Second):
		t.Fatal("reopen hangs")
	}
	return nil
}
func want(t *testing.T, s *storage.Storage, i int, b []byte) {
	t.Helper()
	g, err := s.Get(id(i))
	if b == nil {
		if err == nil {
			t.Fatalf("lump %d: expected absent, got %d bytes", i, len(g))
		}
		return
	}
	if err != nil {
		t.Fatalf("lump %d: %v", i, err)
	}
	if !bytes.Equal(g, b) {
		t.Fatalf("lump %d: wrong content (len %d want %d)", i, len(g), len(b))
	}
}

// D1 offset creation shifts the data when the padded buffer is not aligned
func TestD01_PutWithOffsetCreate(t *testing.T) {
	s, _ := mk(t, 8<<20, 0.1)
	defer s.Close()
	for n := 1; n < 3000; n++ {
		b := pat(n, n)
		if err := s.PutWithOffset(id(1), ld(b), 0, 0); err != nil {
			t.Fatal(err)
		}
		want(t, s, 1, b)
		s.Delete(id(1))
		s.Sync()
	}
}

// D3 JournalGC on a full journal drops live records
func TestD03_GCFullJournal(t *testing.T) {
	s, p := mk(t, 64<<10, 0.05)
	s.SetAutomaticGcMode(false)
	n := 0
	for ; ; n++ {
		if _, err := s.PutEmbed(id(n), []byte("0123456789")); err != nil {
			break
		}
	}
	s.JournalGC()
	s.Close()
	s, err := storage.OpenCannylsStorage(p)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	if l := len(s.List()); l != n {
		t.Fatalf("%d lumps after GC+reopen, want %d", l, n)
	}
}

// D4 wrap marker becomes visible while the front still holds old records
func TestD04_WrapCrash(t *testing.T) {
	s, p := mk(t, 32<<10, 0.1) // 3.5K journal
	defer s.Close()
	for i := 0; i < 600; i++ {
		k := i % 3
		b := pat(20+i%40, i)
		if _, err := s.PutEmbed(id(k), b); err != nil {
			t.Fatal(err)
		}
		s.Sync()
		c := crash(t, p)
		want(t, c, k, b)
		c.Close()
	}
	// a large record that does not fit at the front after the wrap
	s2, p2 := mk(t, 32<<10, 0.1)
	defer s2.Close()
	for i := 0; i < 400; i++ {
		sz := 20
		if i%7 == 0 {
			sz = 900
		}
		s2.PutEmbed(id(i%2), pat(sz, i))
		s2.Flush()
		c := crash(t, p2)
		for k := 0; k < 2; k++ {
			a, e1 := s2.Get(id(k))
			b, e2 := c.Get(id(k))
			if (e1 == nil) != (e2 == nil) || !bytes.Equal(a, b) {
				t.Fatalf("step %d lump %d differs after crash", i, k)
			}
		}
		c.Close()
	}
}

// D5 a failed overwrite loses the old value in memory only
func TestD05_FailedOverwrite(t *testing.T) {
	s, p := mk(t, 64<<10, 0.1)
	a := pat(1000, 1)
	s.PutEmbed(id(1), a)
	if _, err := s.PutEmbed(id(1), make([]byte, 70000)); err == nil {
		t.Fatal("no error")
	}
	want(t, s, 1, a)
	b := pat(3000, 2)
	if _, err := s.Put(id(2), ld(b)); err != nil {
		t.Fatal(err)
	}
	s.SetAutomaticGcMode(false)
	for i := 10; ; i++ { // fill the journal
		if _, err := s.PutEmbed(id(i), pat(40, i)); err != nil {
			break
		}
	}
	for i := 1000; ; i++ {
		if _, err := s.PutEmbed(id(i), nil); err != nil {
			break
		}
	}
	if _, err := s.Put(id(2), ld(pat(100, 3))); err == nil {
		t.Fatal("no error")
	}
	want(t, s, 2, b)
	s.Close()
	s, _ = storage.OpenCannylsStorage(p)
	defer s.Close()
	want(t, s, 2, b)
}

// D6 delete whose record does not fit is reported as done
func TestD06_DeleteJournalFull(t *testing.T) {
	s, p := mk(t, 64<<10, 0.05)
	s.SetAutomaticGcMode(false)
	n := 0
	for ; ; n++ {
		if _, err := s.PutEmbed(id(n), nil); err != nil {
			break
		}
	}
	upd, _, err := s.Delete(id(0))
	s.Close()
	s, _ = storage.OpenCannylsStorage(p)
	defer s.Close()
	if err == nil && upd {
		want(t, s, 0, nil)
	}
}

// D7 range delete races with the GC step of its own record
func TestD07_DeleteRangeGC(t *testing.T) {
	s, p := mk(t, 64<<10, 0.05)
	for i := 0; i < 50; i++ {
		s.PutEmbed(id(i), []byte("abc"))
	}
	s.RunSideJobOnce(1) // fill the queue: all 50 live
	s.DeleteRange(id(0), id(50), false)
	if len(s.List()) != 0 {
		t.Fatal("not deleted")
	}
	s.Close()
	s, _ = storage.OpenCannylsStorage(p)
	defer s.Close()
	if l := len(s.List()); l != 0 {
		t.Fatalf("%d deleted lumps are back", l)
	}
}

// D8 the GC step of a put takes its own record for garbage
func TestD08_PutOwnRecordGC(t *testing.T) {
	s, p := mk(t, 64<<10, 0.05)
	b := map[int][]byte{}
	for i := 0; i < 2000; i++ {
		k := i % 4
		v := pat(10, i)
		if _, err := s.Put(id(k), ld(v)); err != nil {
			t.Fatal(err)
		}
		b[k] = v
		if i > 10 {
			s.Sync()
			c := crash(t, p)
			for j := range b {
				want(t, c, j, b[j])
			}
			c.Close()
		}
	}
	s.Close()
}

// D9 full GC moves the head before the re-appended records are on disk
func TestD09_FullGCCrash(t *testing.T) {
	s, p := mk(t, 64<<10, 0.2)
	defer s.Close()
	s.SetAutomaticGcMode(false)
	for i := 0; i < 20; i++ {
		s.PutEmbed(id(i), []byte("abc"))
	}
	s.Sync()
	s.JournalGC()
	c := crash(t, p)
	defer c.Close()
	if l := len(c.List()); l != 20 {
		t.Fatalf("%d of 20 synced lumps after crash", l)
	}
}

// D11 lump count drifts
func TestD11_FileCounts(t *testing.T) {
	s, _ := mk(t, 64<<10, 0.2)
	defer s.Close()
	s.SetAutomaticGcMode(false)
	s.PutEmbed(id(1), []byte("a"))
	s.JournalGC()
	if c := s.Usage().FileCounts; c != 1 {
		t.Fatalf("count %d want 1", c)
	}
}

// D12 range reads/updates across blocks
func TestD12_RangeIO(t *testing.T) {
	s, _ := mk(t, 8<<20, 0.1)
	defer s.Close()
	for _, n := range []int{1, 511, 510, 512, 1023, 1024, 1500, 2047, 2048} {
		b := pat(n, n)
		s.Put(id(n), ld(b))
		for _, off := range []int{0, 1, 100, 510, 511, 512, 513, 1000} {
			for _, l := range []int{0, 1, 2, 3, 13, 511, 512, 513, 1024} {
				func() {
					defer func() {
						if r := recover(); r != nil {
							t.Fatalf("n=%d off=%d len=%d: panic %v", n, off, l, r)
						}
					}()
					g, err := s.GetWithOffset(id(n), uint32(off), uint32(l))
					if off+l <= n && (err != nil || !bytes.Equal(g, b[off:off+l])) {
						t.Fatalf("read n=%d off=%d len=%d: %v len=%d", n, off, l, err, len(g))
					}
					if err == nil && off <= n && off+l > n && !bytes.Equal(g, b[off:]) {
						t.Fatalf("read n=%d off=%d len=%d: not clipped (%d)", n, off, l, len(g))
					}
					if l == 0 {
						return
					}
					v := pat(l, n+off+l)
					err = s.PutWithOffset(id(n), ld(v), uint32(off), 0)
					if (err == nil) != (off+l <= n) {
						t.Fatalf("update n=%d off=%d len=%d: err=%v", n, off, l, err)
					}
					if err == nil {
						copy(b[off:], v)
					}
					want(t, s, n, b)
				}()
			}
		}
	}
}
func TestD12b_EmbeddedRange(t *testing.T) {
	s, _ := mk(t, 8<<20, 0.1)
	defer s.Close()
	s.PutEmbed(id(1), []byte("hello"))
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic %v", r)
		}
	}()
	s.GetWithOffset(id(1), 3, 10)
	s.GetWithOffset(id(1), 30, 10)
	s.Put(id(2), ld([]byte("hello")))
	s.GetWithOffset(id(2), 0xFFFFFFFF, 2)
	s.PutWithOffset(id(2), ld([]byte("xx")), 0xFFFFFFFF, 0)
	want(t, s, 2, []byte("hello"))
}

// D13 close against other operations deadlocks
func TestD13_CloseDeadlock(t *testing.T) {
	for r := 0; r < 60; r++ {
		s, _ := mk(t, 1<<20, 0.2)
		done := make(chan bool)
		go func() {
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := 0; i < 200; i++ {
						if _, err := s.PutEmbed(id(g), []byte("x")); err != nil {
							return
						}
					}
				}(g)
			}
			time.Sleep(time.Millisecond)
			s.Close()
			wg.Wait()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("deadlock")
		}
	}
}

// D14 a put acknowledged after Close
func TestD14_PutAfterClose(t *testing.T) {
	for r := 0; r < 200; r++ {
		s, p := mk(t, 1<<20, 0.2)
		var wg sync.WaitGroup
		last := make([]int, 4)
		for g := 0; g < 4; g++ {
			last[g] = -1
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						t.Errorf("panic %v", e)
					}
				}()
				for i := 0; i < 2000; i++ {
					if _, err := s.Put(id(g*10000+i), ld([]byte("x"))); err != nil {
						return
					}
					last[g] = i
				}
			}(g)
		}
		time.Sleep(time.Duration(r%5+1) * 200 * time.Microsecond)
		done := make(chan bool)
		go func() { s.Close(); wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("deadlock")
		}
		s2, err := storage.OpenCannylsStorage(p)
		if err != nil {
			t.Fatal(err)
		}
		for g := 0; g < 4; g++ {
			for i := 0; i <= last[g]; i++ {
				want(t, s2, g*10000+i, []byte("x"))
			}
		}
		s2.Close()
	}
}

// D15/D16 get concurrent with delete/overwrite/reuse
func TestD15_ConcurrentGet(t *testing.T) {
	s, _ := mk(t, 200<<10, 0.5)
	defer s.Close()
	stop := make(chan bool)
	var wg sync.WaitGroup
	fill := func(k int, n int) []byte { return bytes.Repeat([]byte{byte(k)}, n) }
	for k := 1; k <= 3; k++ {
		s.Put(id(k), ld(fill(k, 4000)))
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				s.Put(id(k), ld(fill(k, 4000+(i%5)*600)))
				if i%50 == 0 {
					s.Sync()
				}
			}
		}(k)
	}
	dl := time.Now().Add(4 * time.Second)
	for time.Now().Before(dl) && !t.Failed() {
		for k := 1; k <= 3; k++ {
			b, err := s.Get(id(k))
			if err != nil {
				t.Errorf("lump %d missing during overwrite: %v", k, err)
				break
			}
			for _, c := range b {
				if c != byte(k) {
					t.Errorf("lump %d returned a byte of lump %d", k, c)
					break
				}
			}
		}
	}
	close(stop)
	wg.Wait()
}

// D17 blocks of a deleted lump are reused before the delete is on disk
func TestD17_ReuseBeforeDurable(t *testing.T) {
	s, p := mk(t, 64<<10, 0.2)
	defer s.Close()
	a := pat(3000, 1)
	s.Put(id(1), ld(a))
	s.Sync()
	s.Delete(id(1))
	for i := 0; i < 5; i++ {
		s.Put(id(2+i), ld(pat(3000, 2+i)))
	}
	c := crash(t, p)
	defer c.Close()
	if g, err := c.Get(id(1)); err == nil && !bytes.Equal(g, a) {
		t.Fatal("lump 1 shows another lump's bytes after a crash")
	}
}

// D19 snapshot file lands in the working directory / is found by other stores
func TestD19_SnapshotPlace(t *testing.T) {
	wd, _ := os.Getwd()
	cw := t.TempDir()
	os.Chdir(cw)
	defer os.Chdir(wd)
	d := t.TempDir()
	p := filepath.Join(d, "a_b.lusf")
	s, err := storage.CreateCannylsStorage(p, 1<<20, 0.2)
	if err != nil {
		t.Fatal(err)
	}
	s.CreateSnapshot()
	s.Close()
	if m, _ := filepath.Glob(d + "/*.snapshot"); len(m) != 1 {
		t.Fatalf("snapshot not beside the store: %v", m)
	}
	o, err := storage.CreateCannylsStorage(filepath.Join(d, "a.lusf"), 1<<20, 0.2)
	if err != nil {
		t.Fatal(err)
	}
	o.DeleteSnapshot()
	o.Close()
	if m, _ := filepath.Glob(d + "/*.snapshot"); len(m) != 1 {
		t.Fatalf("another store deleted the snapshot: %v", m)
	}
}

// D20 partially written region at the end of the backing file
func TestD20_PartialRegion(t *testing.T) {
	d := t.TempDir()
	wd, _ := os.Getwd()
	os.Chdir(d)
	defer os.Chdir(wd)
	bf, err := nvm.CreateBackingFile("x", 200<<20, 200<<20)
	if err != nil {
		t.Fatal(err)
	}
	buf := bytes.Repeat([]byte{1}, 32<<20)
	bf.WriteOffset(buf, 0)
	name := bf.GetFileName()
	bf.Close()
	// a kill in the middle of the next region copy
	f, _ := os.OpenFile(name, os.O_RDWR|os.O_APPEND, 0)
	f.Write(make([]byte, 1<<20))
	f.Close()
	bf, err = nvm.OpenBackingFile(name)
	if err != nil {
		t.Fatal(err)
	}
	b2 := bytes.Repeat([]byte{2}, 32<<20)
	bf.WriteOffset(b2, 3)
	on, _ := bf.GetCopyOffset(3*(32<<20), 3*(32<<20)+1)
	got := make([]byte, 32<<20)
	bf.ReadFromOffset(got, on[0])
	if !bytes.Equal(got, b2) {
		t.Fatal("backup of a region is read back wrong after reopening a partially written backing file")
	}
	bf.Close()
}

// D21 too large lumps
func TestD21_TooLarge(t *testing.T) {
	s, _ := mk(t, 100<<20, 0.1)
	defer s.Close()
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic %v", r)
		}
	}()
	if err := s.PutWithOffset(id(1), ld([]byte("x")), lump.LUMP_MAX_SIZE, 0); err == nil {
		t.Fatal("accepted")
	}
	if s.Usage().DataFreeBytes != s.Usage().DataCapacity {
		t.Fatal("leak")
	}
}

// D44 largest segment of a full store
func TestD44_MaxSegmentFull(t *testing.T) {
	s, _ := mk(t, 64<<10, 0.2)
	defer s.Close()
	n := int(s.Usage().MaxSegmentSize)
	if _, err := s.Put(id(1), ld(make([]byte, n))); err != nil {
		t.Fatal(err)
	}
	if m := s.Usage().MaxSegmentSize; m != 0 {
		t.Fatalf("full store reports a free segment of %d", m)
	}
}

// D18 snapshot reader against a concurrent overwrite
func TestD18_SnapshotRace(t *testing.T) {
	wd, _ := os.Getwd()
	d := t.TempDir()
	os.Chdir(d)
	defer os.Chdir(wd)
	for r := 0; r < 8; r++ {
		p := filepath.Join(d, fmt.Sprintf("s%d.lusf", r))
		s, err := storage.CreateCannylsStorage(p, 40<<20, 0.2)
		if err != nil {
			t.Fatal(err)
		}
		v := bytes.Repeat([]byte{7}, 1<<20)
		for i := 0; i < 20; i++ {
			s.Put(id(i), ld(v))
		}
		s.Sync()
		rd, err := s.GetSnapshotReader()
		if err != nil {
			t.Fatal(err)
		}
		img, _ := os.ReadFile(p)
		go func() {
			time.Sleep(time.Duration(r*3) * time.Millisecond)
			for i := 0; i < 20; i++ {
				s.PutWithOffset(id(i), ld(bytes.Repeat([]byte{9}, 1<<20)), 0, 0)
			}
		}()
		var out bytes.Buffer
		io.CopyBuffer(struct{ io.Writer }{&out}, struct{ io.Reader }{rd}, make([]byte, 1<<20))
		if !bytes.Equal(out.Bytes(), img[:out.Len()]) || out.Len() != len(img) {
			t.Fatal("snapshot differs from the image of its creation")
		}
		time.Sleep(50 * time.Millisecond)
		s.DeleteSnapshot()
		s.Close()
		os.Remove(p)
	}
}
