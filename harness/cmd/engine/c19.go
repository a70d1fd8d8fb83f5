package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/utils/hook"

	"verif/harness/eng"
	"verif/harness/h"
)

// Crash recovery. A worker process runs one life of an engine: it recovers,
// reports what it recovered, applies its plan and closes. It ends itself with
// SIGKILL at one chosen point: the k-th store operation of a kind, before or
// after it took place, or the k-th passage of a hook point. The worker notes
// every call in a file before it makes it, and every Flush that returned.

type crashStep struct {
	ID     string
	N      int // 0: removal
	Force  bool
	Worker int
}

type crashSpec struct {
	Case   int64 // seed of vocabulary and versions
	Dir    string
	Store  string
	Shards int
	Opts   int64 // seed of the other options
	Phases [][]crashStep
	NoSync bool // no Flush after the last phase
	Kind   string
	K      int64
	Log    string
	Delay  int64
}

func crashVocab(seed int64) *eng.Vocab {
	r := rand.New(rand.NewSource(seed))
	return eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 3+r.Intn(10))
}

func crashVer(seed int64, v *eng.Vocab, id string, n int) *eng.Ver {
	r := rand.New(rand.NewSource(seed*1000003 + int64(n)))
	return eng.NewVer(r, v, id, n, eng.DocOpt{MaxTok: 6, MaxLab: 2, MaxOcc: 3})
}

func crashOpts(s *crashSpec) types.EngineOpts {
	o := storeOpts(rand.New(rand.NewSource(s.Opts)), s.Dir, s.Store)
	o.StoreShards = s.Shards
	return o
}

type crashLine struct {
	Op     string
	ID     string           `json:",omitempty"`
	N      int              `json:",omitempty"`
	Has    bool             `json:",omitempty"`
	Counts map[string]int64 `json:",omitempty"`
}

var crash struct {
	kind   string
	k      int64
	mu     sync.Mutex
	counts map[string]int64
	log    *os.File
}

func crashAt(kind string) {
	crash.mu.Lock()
	crash.counts[kind]++
	n := crash.counts[kind]
	crash.mu.Unlock()
	if kind == crash.kind && n == crash.k {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
}

func crashNote(l crashLine) {
	b, _ := json.Marshal(l)
	crash.log.Write(append(b, '\n'))
}

// crashStore passes everything on to a real backend.
type crashStore struct {
	store.Store
	path string
}

// logSizes are the sizes of the append-only files of the backend.
func (s crashStore) logSizes() map[string]int64 {
	m := map[string]int64{}
	for _, pat := range []string{"*.log", "*.vlog"} {
		l, _ := filepath.Glob(filepath.Join(s.path, pat))
		for _, f := range l {
			if st, err := os.Stat(f); err == nil {
				m[f] = st.Size()
			}
		}
	}
	return m
}

// torn ends the process with the write only partly in the file, as when it
// is killed inside the system call.
func (s crashStore) torn(kind string, op func() error) error {
	crash.mu.Lock()
	crash.counts[kind]++
	n := crash.counts[kind]
	crash.mu.Unlock()
	if kind != crash.kind || n != crash.k {
		return op()
	}
	before := s.logSizes()
	err := op()
	for f, now := range s.logSizes() {
		if was := before[f]; now > was {
			os.Truncate(f, was+1+(now-was-1)*(n*7%10)/10)
		}
	}
	syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
	return err
}

func (s crashStore) Set(k, v []byte) error {
	crashAt("set.before")
	err := s.torn("set.torn", func() error { return s.Store.Set(k, v) })
	crashAt("set.after")
	return err
}

func (s crashStore) Delete(k []byte) error {
	crashAt("delete.before")
	err := s.torn("delete.torn", func() error { return s.Store.Delete(k) })
	crashAt("delete.after")
	return err
}

func (s crashStore) ForEach(fn func(k, v []byte) error) error {
	err := s.Store.ForEach(func(k, v []byte) error {
		crashAt("recover.before")
		err := fn(k, v)
		crashAt("recover.after")
		return err
	})
	return err
}

func (s crashStore) Close() error {
	crashAt("close.before")
	err := s.Store.Close()
	crashAt("close.after")
	return err
}

func crashWorker(file string) {
	b, err := os.ReadFile(file)
	h.Must(err)
	var s crashSpec
	h.Must(json.Unmarshal(b, &s))
	crash.kind, crash.k, crash.counts = s.Kind, s.K, map[string]int64{}
	crash.log, err = os.OpenFile(s.Log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	h.Must(err)
	for _, n := range backends {
		n := n
		store.RegisterStore("crash-"+n, func(path string) (store.Store, error) {
			crashAt("open.before")
			st, err := store.OpenStore(path, n)
			if err != nil {
				return nil, err
			}
			crashAt("open.after")
			return crashStore{st, path}, nil
		})
	}
	var tick uint64
	hook.Set(func(name string) {
		crashAt("hook:" + name)
		if s.Delay > 0 {
			if x := atomic.AddUint64(&tick, 1) * 0x9E3779B97F4A7C15 >> 33; int64(x%10) < s.Delay {
				time.Sleep(time.Duration(x%200) * time.Microsecond)
			}
		}
	})
	v := crashVocab(s.Case)
	o := crashOpts(&s)
	o.StoreEngine = "crash-" + o.StoreEngine
	e := &riot.Engine{}
	e.Init(o)
	e.Flush()
	ids, docs := e.GetDBAllDocs()
	for i, id := range ids {
		n := -1
		if p, ok := docs[i].Fields.(eng.Payload); ok && p.ID == id {
			n = p.N
		}
		crashNote(crashLine{Op: "S", ID: id, N: n, Has: e.HasDoc(id)})
	}
	crashNote(crashLine{Op: "SE"})
	for p, ph := range s.Phases {
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for _, st := range ph {
					if st.Worker != w {
						continue
					}
					crashNote(crashLine{Op: "I", ID: st.ID, N: st.N})
					if st.N == 0 {
						e.RemoveDoc(st.ID, st.Force)
					} else {
						e.Index(st.ID, crashVer(s.Case, v, st.ID, st.N).Data, st.Force)
					}
				}
			}(w)
		}
		wg.Wait()
		if p < len(s.Phases)-1 || !s.NoSync {
			e.Flush()
			crashNote(crashLine{Op: "F"})
		}
	}
	e.Close()
	crashNote(crashLine{Op: "F"})
	crash.mu.Lock()
	crashNote(crashLine{Op: "E", Counts: crash.counts})
	os.Exit(0)
}

// crashRun runs one life and gives what it noted; killed tells whether it
// reached its point.
func crashRun(c *h.C, s *crashSpec) (lines []crashLine, killed bool) {
	s.Log = s.Dir + ".log"
	os.Remove(s.Log)
	b, err := json.Marshal(s)
	h.Must(err)
	h.Must(os.WriteFile(s.Dir+".json", b, 0o644))
	self, err := os.Executable()
	h.Must(err)
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_CRASH_WORKER="+s.Dir+".json", "VERIF_PART=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out strings.Builder
	cmd.Stderr = &out
	timeout := false
	h.Outside(func() {
		// a forked child must not inherit the locks of a store opened here
		crashOne.Lock()
		err = cmd.Start()
		crashOne.Unlock()
		h.Must(err)
		t := time.AfterFunc(100*time.Second, func() { timeout = true; cmd.Process.Kill() })
		err = cmd.Wait()
		t.Stop()
	})
	h.Progress()
	if timeout {
		fmt.Fprintln(os.Stderr, "crash worker made no progress:", string(b))
		os.Exit(77)
	}
	if err != nil {
		ws, ok := err.(*exec.ExitError).Sys().(syscall.WaitStatus)
		killed = ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL
		if !killed {
			c.Violate("worker-crash", map[string]interface{}{"spec": s, "output": clip(out.String(), 4000)},
				"a life of the engine ended by itself after earlier crashes: %v: %s", err, clip(out.String(), 300))
			return nil, false
		}
	}
	f, err := os.Open(s.Log)
	if err != nil {
		return nil, killed
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var l crashLine
		if json.Unmarshal(sc.Bytes(), &l) == nil {
			lines = append(lines, l)
		}
	}
	return lines, killed
}

// crashState is what may be in the store: per id the possible versions.
type crashState map[string][]int

func (st crashState) may(id string, n int) bool {
	if len(st[id]) == 0 {
		return n == 0
	}
	for _, x := range st[id] {
		if x == n {
			return true
		}
	}
	return false
}

func (st crashState) fix(ids []string, got map[string]int) {
	for _, id := range ids {
		st[id] = []int{got[id]}
	}
}

// absorb brings the state up to date with one life.
func (st crashState) absorb(c *h.C, v *eng.Vocab, lines []crashLine, wit interface{}) {
	got := map[string]int{}
	for _, l := range lines {
		switch l.Op {
		case "S":
			got[l.ID] = l.N
			if !l.Has {
				c.Violate("recovered-unindexed", wit, "document %q is in the store but was not indexed by the recovery", l.ID)
			}
			if !st.may(l.ID, l.N) {
				c.Violate("recovered-version", wit, "document %q came back as version %d, possible are %v (0: absent)", l.ID, l.N, st[l.ID])
			}
		case "SE":
			for _, id := range v.IDs {
				if got[id] == 0 && !st.may(id, 0) {
					c.Violate("recovered-version", wit, "document %q is gone after the crash, possible are versions %v", id, st[id])
				}
			}
			st.fix(v.IDs, got)
		case "I":
			if len(st[l.ID]) == 0 {
				st[l.ID] = []int{0}
			}
			st[l.ID] = append(st[l.ID], l.N)
		case "F":
			for id, l := range st {
				if len(l) > 0 {
					st[id] = l[len(l)-1:]
				}
			}
		}
	}
}

func crashPlan(r *rnd, v *eng.Vocab, n *int, phases int) (out [][]crashStep) {
	for p := 0; p < phases; p++ {
		var ph []crashStep
		for _, id := range v.IDs {
			if r.Intn(3) == 0 {
				continue
			}
			w := r.Intn(3)
			if r.Intn(3) == 0 {
				ph = append(ph, crashStep{ID: id, Force: r.Intn(5) == 0, Worker: w})
				continue
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				*n++
				ph = append(ph, crashStep{ID: id, N: *n, Force: r.Intn(8) == 0, Worker: w})
			}
		}
		out = append(out, ph)
	}
	return out
}

var c19 = &h.Prop{ID: "C19", Level: "fault_enumeration",
	Rule:        "histories of writes and flushes in a separate process that is ended with SIGKILL at an enumerated point: before, after or in the middle of the k-th opening, write, deletion, recovered record or closing of the store, or at the k-th passage of an observation point inside the engine; the next life, often killed as well, and at last an undisturbed one recover the folder. Each recovered document must be a whole version no older than the last one flushed and no younger than the last one issued, and the index must hold exactly what the store lists. A case is one crash and its recovery; distinct by history and point, non-trivial when the point was reached.",
	Assumptions: []string{"a crash is the death of the process; the operating system survives and keeps what was written to files"},
	Parts: []h.Part{
		{Name: "ldb", Run: func(c *h.C) { c19Run(c, "ldb", 0) }},
		{Name: "bolt", Run: func(c *h.C) { c19Run(c, "bolt", 1) }},
		{Name: "bg", Run: func(c *h.C) { c19Run(c, "bg", 2) }},
	}}

func c19Run(c *h.C, backend string, salt int) {
	for i := 0; i < c.N(2, 12) && !c.Violated(); i++ {
		r := c.Rand("h", i)
		base := crashSpec{Case: r.Int63n(1 << 40), Store: backend, Shards: 1 + r.Intn(3),
			Opts: r.Int63(), Delay: int64(r.Intn(4)), NoSync: r.Intn(2) == 0}
		v := crashVocab(base.Case)
		n := 0
		setup := crashPlan(r, v, &n, 1)
		base.Phases = crashPlan(r, v, &n, 3)
		later := crashPlan(r, v, &n, 2)
		// the first life is whole and fills the store; the second is measured
		probe := func(dir string) (crashState, crashSpec) {
			st := crashState{}
			s0 := base
			s0.Dir, s0.Phases = dir, setup
			lines, _ := crashRun(c, &s0)
			st.absorb(c, v, lines, s0)
			s1 := base
			s1.Dir = dir
			return st, s1
		}
		dir := filepath.Join(c.Dir, fmt.Sprint("probe", i))
		st, s1 := probe(dir)
		lines, _ := crashRun(c, &s1)
		st.absorb(c, v, lines, s1)
		var counts map[string]int64
		for _, l := range lines {
			if l.Op == "E" {
				counts = l.Counts
			}
		}
		if counts == nil {
			continue
		}
		final(c, v, st, &s1, "probe")
		os.RemoveAll(dir)
		type pt struct {
			kind string
			k    int64
		}
		var pts []pt
		var kinds []string
		for k := range counts {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		for _, kind := range kinds {
			if backend == "bolt" && strings.HasSuffix(kind, ".torn") {
				continue // no append-only file
			}
			total := int(counts[kind])
			ks := r.Perm(total)
			if m := c.N(2, 1<<30); len(ks) > m {
				if strings.HasPrefix(kind, "set.") || strings.HasPrefix(kind, "delete.") || strings.HasPrefix(kind, "close.") {
					m += 2
				}
				if len(ks) > m {
					ks = ks[:m]
				}
			}
			for _, k := range ks {
				pts = append(pts, pt{kind, int64(k + 1)})
			}
		}
		c.Count("crash_points_counted", len(pts))
		h.Workers(len(pts), 3, func(j int) {
			if c.Violated() {
				return
			}
			p := pts[j]
			r := c.Rand("p", i, p.kind, p.k)
			dir := filepath.Join(c.Dir, fmt.Sprint("db", i, "-", j))
			st, s := probe(dir)
			s.Kind, s.K = p.kind, p.k
			s.Opts = r.Int63()
			lines, killed := crashRun(c, &s)
			st.absorb(c, v, lines, s)
			c.Count("lives", 2)
			if killed {
				c.Count("crashes", 1)
			}
			desc := fmt.Sprintf("%s %d", p.kind, p.k)
			if r.Intn(2) == 0 {
				s2 := s
				s2.Phases = later
				s2.Opts = r.Int63()
				s2.Kind = []string{"recover.before", "recover.after", "open.before", "open.after", "close.before",
					"set.after", "delete.before", "hook:indexer.add", "hook:segmenter", "hook:store.write"}[r.Intn(10)]
				s2.K = int64(1 + r.Intn(6))
				lines, k2 := crashRun(c, &s2)
				st.absorb(c, v, lines, s2)
				c.Count("lives", 1)
				if k2 {
					c.Count("crashes", 1)
				}
				desc += fmt.Sprintf(", then %s %d", s2.Kind, s2.K)
				s = s2
			}
			final(c, v, st, &s, desc)
			sig := ""
			if killed {
				sig = fmt.Sprint(i, desc)
			}
			c.Case(sig, func() interface{} {
				return map[string]interface{}{"backend": backend, "store_shards": s.Shards, "killed_at": desc}
			})
			os.RemoveAll(dir)
			os.Remove(dir + ".log")
			os.Remove(dir + ".json")
		})
	}
}

var crashOne sync.Mutex

// final recovers in this process and compares everything.
func final(c *h.C, v *eng.Vocab, st crashState, s *crashSpec, desc string) {
	crashOne.Lock()
	defer crashOne.Unlock()
	o := crashOpts(s)
	o.NumShards = 1 + len(desc)%4
	c.Phase("recovery after %s, %s", desc, eng.DescOpts(o))
	w := eng.NewWorld(c, o, v)
	w.Note("crash: %s; spec %+v", desc, *s)
	w.Flush()
	ids, docs := w.E.GetDBAllDocs()
	seen := map[string]bool{}
	for i, id := range ids {
		seen[id] = true
		p, ok := docs[i].Fields.(eng.Payload)
		if !ok || p.ID != id || !st.may(id, p.N) {
			c.Violate("recovered-version", w.Witness(st[id]), "after %s document %q came back as %s, possible are versions %v (0: absent)",
				desc, id, clip(fmt.Sprintf("%+v", docs[i]), 300), st[id])
			continue
		}
		w.Live[id] = crashVer(s.Case, v, id, p.N)
	}
	for _, id := range v.IDs {
		if !seen[id] && !st.may(id, 0) {
			c.Violate("recovered-version", w.Witness(st[id]), "after %s document %q is gone, possible are versions %v", desc, id, st[id])
		}
	}
	c.Count("documents_recovered", len(ids))
	if c.Violated() {
		return
	}
	w.CheckPostings()
	checkPayloads(w)
	checkScores(w, rand.New(rand.NewSource(s.Case)))
	checkMirror(w)
	w.E.Close()
	h.Progress()
}
