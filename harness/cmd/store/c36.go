package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"

	"verif/harness/h"
)

var c36 = &h.Prop{ID: "C36", Level: "exploration",
	Rule:        "a store that one opener holds is opened by other goroutines and other processes while the holder writes: no attempt may succeed before the holder closes; then all of them compete for it, each success creates a mark that must not exist (and is deleted before closing), reads everything and adds to it; holders that are killed must leave a store that opens; and a process that starts an engine on the folder of a running engine must not come up, and must leave the running one as it is. A case is one attempt to open; distinct by backend, history and opener.",
	Assumptions: []string{"an opening attempt by bolt waits for the holder; how long it waits is not judged"},
	Parts: []h.Part{
		{Name: "held", Run: c36Held},
		{Name: "killed", Run: c36Killed},
		{Name: "engine", Run: c36Engine},
	}}

type held struct {
	Backend, Dir, Mark, Key string
	Rounds                  int
	Die                     int // writes before the process kills itself
	Engine                  bool
}

// c36Child is a process of its own: it opens the store (or starts an engine)
// and tells what happened, one JSON line per event.
func c36Child(spec string) {
	var s held
	h.Must(json.Unmarshal([]byte(spec), &s))
	out := json.NewEncoder(os.Stdout)
	in := bufio.NewReader(os.Stdin)
	if s.Engine {
		e := c36NewEngine(s.Dir, s.Backend)
		out.Encode(map[string]interface{}{"event": "up", "docs": c36Docs(e)})
		e.Close()
		os.Exit(0)
	}
	if s.Die > 0 {
		db, err := store.OpenStore(s.Dir, s.Backend)
		if err != nil {
			out.Encode(map[string]interface{}{"event": "error", "error": err.Error()})
			os.Exit(0)
		}
		for i := 0; i < s.Die; i++ {
			if err := db.Set([]byte(fmt.Sprint(s.Key, i)), []byte(fmt.Sprint("v", i))); err != nil {
				h.Must(err)
			}
		}
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
	c36Open(s, func(ev string, m map[string]interface{}) {
		m["event"] = ev
		out.Encode(m)
		if ev == "attempted" {
			in.ReadString('\n')
		}
	})
	os.Exit(0)
}

// c36Open attempts once while the store is held, and then until it has had the
// store for itself as often as it is told to.
func c36Open(s held, tell func(ev string, m map[string]interface{})) {
	visit := func(n int) bool {
		db, err := store.OpenStore(s.Dir, s.Backend)
		if err != nil || db == nil {
			return false
		}
		if n < 0 {
			tell("early", map[string]interface{}{})
			n = 0
		}
		f, err := os.OpenFile(s.Mark, os.O_CREATE|os.O_EXCL, 0o644)
		if err != nil {
			tell("shared", map[string]interface{}{"error": err.Error()})
		}
		got := map[string]string{}
		if err := db.ForEach(func(k, v []byte) error { got[string(k)] = string(v); return nil }); err != nil {
			tell("foreach", map[string]interface{}{"error": err.Error()})
		}
		key := fmt.Sprint(s.Key, ".", n)
		if err := db.Set([]byte(key), []byte(fmt.Sprint(len(got)))); err != nil {
			tell("set", map[string]interface{}{"error": err.Error()})
		}
		time.Sleep(time.Duration(rand.Intn(3000)) * time.Microsecond)
		if f != nil {
			f.Close()
			os.Remove(s.Mark)
		}
		if err := db.Close(); err != nil {
			tell("close", map[string]interface{}{"error": err.Error()})
		}
		tell("had", map[string]interface{}{"key": key, "seen": len(got)})
		return true
	}
	first := 0
	if s.Backend == "bolt" {
		tell("attempting", map[string]interface{}{}) // waits for the holder
	} else {
		if visit(-1) {
			first = 1
		}
		tell("attempted", map[string]interface{}{})
	}
	for n := first; n < s.Rounds; n++ {
		for try := 0; !visit(n); try++ {
			if try > 20000 {
				tell("starved", map[string]interface{}{})
				return
			}
			time.Sleep(time.Duration(1+rand.Intn(8)) * time.Millisecond)
		}
	}
	tell("done", map[string]interface{}{})
}

type opener struct {
	name string
	in   io.WriteCloser
	ev   chan map[string]interface{}
	kill func()
}

func c36Spawn(name string, s held) *opener {
	self, err := os.Executable()
	h.Must(err)
	b, _ := json.Marshal(s)
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_C36="+string(b), "VERIF_PART=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	h.Must(err)
	out, err := cmd.StdoutPipe()
	h.Must(err)
	h.Must(cmd.Start())
	o := &opener{name: name, in: in, ev: make(chan map[string]interface{}, 1000), kill: func() { cmd.Process.Kill() }}
	go func() {
		d := json.NewDecoder(out)
		for {
			m := map[string]interface{}{}
			if d.Decode(&m) != nil {
				break
			}
			o.ev <- m
		}
		cmd.Wait()
		o.ev <- map[string]interface{}{"event": "ended", "code": cmd.ProcessState.ExitCode()}
		close(o.ev)
	}()
	return o
}

func c36Local(name string, s held) *opener {
	pr, pw := io.Pipe()
	o := &opener{name: name, in: pw, ev: make(chan map[string]interface{}, 1000), kill: func() {}}
	go func() {
		in := bufio.NewReader(pr)
		c36Open(s, func(ev string, m map[string]interface{}) {
			m["event"] = ev
			o.ev <- m
			if ev == "attempted" {
				in.ReadString('\n')
			}
		})
		o.ev <- map[string]interface{}{"event": "ended", "code": 0}
		close(o.ev)
	}()
	return o
}

func c36Held(c *h.C) {
	for _, b := range []string{"ldb", "bg", "bolt"} {
		n := c.N(20, 150)
		if b != "ldb" {
			n = c.N(12, 100)
		}
		for k := 0; k < n && !c.Violated(); k++ {
			c36Round(c, b, k)
		}
	}
}

func c36Round(c *h.C, b string, k int) {
	r := c.Rand(b, k)
	what := fmt.Sprintf("%s, history %d", b, k)
	c.Phase("held: %s", what)
	root := filepath.Join(c.Dir, fmt.Sprint(b, k))
	h.Must(os.MkdirAll(root, 0o755))
	defer os.RemoveAll(root)
	s := held{Backend: b, Dir: filepath.Join(root, "s"), Mark: filepath.Join(root, "mark"), Rounds: 1 + r.Intn(3)}
	bad := func(key, f string, a ...interface{}) {
		c.Violate(key, map[string]interface{}{"history": what}, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	db, err := store.OpenStore(s.Dir, b)
	if err != nil {
		bad("open", "a new store does not open: %v", err)
		return
	}
	h.Must(os.WriteFile(s.Mark, nil, 0o644))
	want := map[string]string{}
	put := func(i int) {
		key, val := fmt.Sprint("h", i), fmt.Sprint("v", r.Intn(1000))
		if err := db.Set([]byte(key), []byte(val)); err != nil {
			bad("set", "the holder cannot write any more: %v", err)
		}
		want[key] = val
	}
	writes := 0
	for ; writes < r.Intn(20); writes++ {
		put(writes)
	}
	var os_ []*opener
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		s.Key = fmt.Sprint("p", i)
		os_ = append(os_, c36Spawn(fmt.Sprint("process ", i), s))
	}
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		s.Key = fmt.Sprint("g", i)
		os_ = append(os_, c36Local(fmt.Sprint("goroutine ", i), s))
	}
	// every opener attempts while the holder writes
	events := func(o *opener, until string, f func(m map[string]interface{})) {
		h.Outside(func() {
			for m := range o.ev {
				if m["event"] == "ended" && m["code"] != 0 && m["code"] != nil {
					if code, ok := m["code"].(int); ok && code != 0 {
						bad("opener", "%s ended with %d", o.name, code)
					}
				}
				f(m)
				if m["event"] == until {
					return
				}
			}
		})
	}
	report := func(o *opener) func(m map[string]interface{}) {
		return func(m map[string]interface{}) {
			switch m["event"] {
			case "early", "shared", "foreach", "set", "close":
				bad(fmt.Sprint(m["event"]), "%s: %s", o.name, map[string]string{
					"early": "opened the store while it was held", "shared": "has the store at the same time as another opener",
					"foreach": "cannot read the store", "set": "cannot write the store", "close": "cannot close the store"}[fmt.Sprint(m["event"])]+
					fmt.Sprint(" ", m["error"]))
			case "starved":
				bad("starved", "%s cannot open the store although nobody keeps it", o.name)
			}
		}
	}
	until := "attempted"
	if b == "bolt" {
		until = "attempting"
	}
	var wg sync.WaitGroup
	for _, o := range os_ {
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			events(o, until, report(o))
		}()
	}
	began := time.Now()
	attempts := make(chan bool)
	go func() { wg.Wait(); close(attempts) }()
	for more, after := true, 0; more && !c.Violated(); {
		select {
		case <-attempts:
			// bolt waits in there: some writes more while it does, in one
			// history for seconds
			if after++; b != "bolt" || after > 30 && (k > 0 || time.Since(began) > 4*time.Second) {
				more = false
			}
		default:
		}
		put(writes)
		writes++
		time.Sleep(2 * time.Millisecond)
	}
	// the holder still has what it wrote
	for key, val := range want {
		if v, err := db.Get([]byte(key)); err != nil || string(v) != val {
			bad("holder", "the holder reads %q for %q, it wrote %q (%v)", v, key, val, err)
			break
		}
	}
	h.Progress()
	h.Must(os.Remove(s.Mark)) // from here on they may come in
	if err := db.Close(); err != nil {
		bad("close", "the holder cannot close: %v", err)
	}
	for _, o := range os_ {
		go func(o *opener) { fmt.Fprintln(o.in, "go") }(o)
	}
	var mu sync.Mutex
	had := map[string]int{}
	for _, o := range os_ {
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			rep := report(o)
			events(o, "ended", func(m map[string]interface{}) {
				rep(m)
				if m["event"] == "had" {
					n := 0
					switch x := m["seen"].(type) {
					case int:
						n = x
					case float64:
						n = int(x)
					}
					mu.Lock()
					had[fmt.Sprint(m["key"])] = n
					mu.Unlock()
					h.Progress()
				}
			})
		}()
	}
	h.Outside(wg.Wait)
	if c.Violated() {
		return
	}
	// each success saw everything that was written before it, so the numbers
	// of records seen are consecutive
	var seen []int
	for _, n := range had {
		seen = append(seen, n)
	}
	sort.Ints(seen)
	for i, n := range seen {
		if n != len(want)+i {
			bad("order", "the openers found %v records, the holder left %d", seen, len(want))
			break
		}
	}
	for key, n := range had {
		want[key] = fmt.Sprint(n)
	}
	c36Content(c, what, s.Dir, b, want)
	for _, o := range os_ {
		c.Case(what+o.name, func() interface{} {
			return map[string]interface{}{"history": what, "opener": o.name, "turns": s.Rounds, "records": len(want)}
		})
	}
	c.Count("attempts_while_held", len(os_))
	c.Count("turns", len(had))
	c.Count("writes_of_holder", writes)
}

// c36Content opens a store that nobody has any more. A child being started may
// hold copies of descriptors for a moment, so a refusal is tried again.
func c36Content(c *h.C, what, dir, b string, want map[string]string) {
	var db store.Store
	var err error
	for try := 0; try < 2000; try++ {
		if db, err = store.OpenStore(dir, b); err == nil {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if err != nil {
		c.Violate("reopen", nil, "%s: a store that nobody holds does not open: %v", what, err)
		return
	}
	got := map[string]string{}
	db.ForEach(func(k, v []byte) error { got[string(k)] = string(v); return nil })
	db.Close()
	var diff []string
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			diff = append(diff, fmt.Sprintf("%s: %q, written %q", k, g, v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			diff = append(diff, "not written: "+k)
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		c.Violate("content", diff, "%s: the store does not hold what was written: %s", what, strings.Join(diff[:min(len(diff), 4)], "; "))
	}
}

// c36Killed: the lock of a process that is gone is no lock.
func c36Killed(c *h.C) {
	for _, b := range []string{"ldb", "bg", "bolt"} {
		for k := 0; k < c.N(8, 40) && !c.Violated(); k++ {
			r := c.Rand(b, k)
			what := fmt.Sprintf("%s, killed %d", b, k)
			c.Phase("%s", what)
			root := filepath.Join(c.Dir, fmt.Sprint(b, k))
			h.Must(os.MkdirAll(root, 0o755))
			s := held{Backend: b, Dir: filepath.Join(root, "s")}
			want := map[string]string{}
			for life := 0; life < 3 && !c.Violated(); life++ {
				s.Key, s.Die = fmt.Sprint("l", life, "."), 1+r.Intn(15)
				o := c36Spawn("life", s)
				h.Outside(func() {
					for m := range o.ev {
						if m["event"] == "error" {
							c.Violate("killed", nil, "%s: life %d cannot open the store after its holder was killed: %v", what, life, m["error"])
						}
					}
				})
				for i := 0; i < s.Die; i++ {
					want[fmt.Sprint(s.Key, i)] = fmt.Sprint("v", i)
				}
				c.Count("killed_holders", 1)
				h.Progress()
			}
			if c.Violated() {
				return
			}
			c36Content(c, what, s.Dir, b, want)
			c.Case(what, func() interface{} { return map[string]interface{}{"history": what, "records": len(want)} })
			os.RemoveAll(root)
		}
	}
}

func c36NewEngine(dir, b string) *riot.Engine {
	e := &riot.Engine{}
	e.Init(types.EngineOpts{NotUseGse: true, NumShards: 2, UseStore: true, StoreFolder: dir, StoreEngine: b, StoreShards: 2,
		IndexerOpts: &types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 50}})
	e.Flush()
	return e
}

func c36Docs(e *riot.Engine) []string {
	ds := []string{}
	for _, d := range e.SearchDoc(types.SearchReq{Tokens: []string{"all"}}).Docs {
		ds = append(ds, d.DocId+"="+d.Content)
	}
	sort.Strings(ds)
	return ds
}

// c36Engine: a second engine on the folder of a running one.
func c36Engine(c *h.C) {
	for _, b := range []string{"ldb", "bg", "bolt"} {
		for k := 0; k < c.N(8, 40) && !c.Violated(); k++ {
			r := c.Rand(b, k)
			what := fmt.Sprintf("%s, engine %d", b, k)
			c.Phase("%s", what)
			root := filepath.Join(c.Dir, fmt.Sprint(b, k))
			h.Must(os.MkdirAll(root, 0o755))
			dir := filepath.Join(root, "s")
			e := c36NewEngine(dir, b)
			live := map[string]string{}
			n := 0
			change := func() {
				n++
				id := fmt.Sprint("d", r.Intn(30))
				if _, ok := live[id]; ok && r.Intn(3) == 0 {
					e.Flush() // Index and RemoveDoc of one id are ordered by it
					e.RemoveDoc(id)
					e.Flush()
					delete(live, id)
					return
				}
				live[id] = fmt.Sprint("v", n)
				e.Index(id, types.DocData{Content: live[id], Tokens: []types.TokenData{{Text: "all", Locations: []int{0}}}})
			}
			docs := func() []string {
				ds := []string{}
				for id, v := range live {
					ds = append(ds, id+"="+v)
				}
				sort.Strings(ds)
				return ds
			}
			for i := 0; i < 20; i++ {
				change()
			}
			e.Flush()
			o := c36Spawn("second engine", held{Backend: b, Dir: dir, Engine: true})
			up, ended := interface{}(nil), false
			look := func(wait bool) {
				for !ended {
					var m map[string]interface{}
					if wait {
						h.Outside(func() { m = <-o.ev })
					} else {
						select {
						case m = <-o.ev:
						default:
							return
						}
					}
					if m["event"] == "up" {
						up = m["docs"]
					}
					ended = ended || m["event"] == "ended"
				}
			}
			for i := 0; i < 60 && !ended; i++ { // bolt waits as long as the holder lives
				change()
				time.Sleep(5 * time.Millisecond)
				look(false)
				h.Progress()
			}
			if b != "bolt" {
				look(true)
			}
			if up != nil {
				c.Violate("second-engine", nil, "%s: a second process started an engine on the folder of a running one", what)
				return
			}
			e.Flush()
			if got, exp := fmt.Sprint(c36Docs(e)), fmt.Sprint(docs()); got != exp {
				c.Violate("running-engine", nil, "%s: after the attempt the running engine finds %s, indexed are %s", what, got, exp)
				return
			}
			e.Close()
			if b == "bolt" { // its turn comes now
				look(true)
				if up == nil {
					c.Violate("engine-after", nil, "%s: the engine that waited for the folder did not come up", what)
					return
				}
				if got, exp := fmt.Sprint(up), fmt.Sprint(docs()); got != exp {
					c.Violate("engine-after", nil, "%s: the engine that waited for the folder finds %s, indexed are %s", what, got, exp)
					return
				}
			}
			after := c36Spawn("engine after", held{Backend: b, Dir: dir, Engine: true})
			up = nil
			h.Outside(func() {
				for m := range after.ev {
					if m["event"] == "up" {
						up = m["docs"]
					}
				}
			})
			if got, exp := fmt.Sprint(up), fmt.Sprint(docs()); got != exp {
				c.Violate("engine-after", nil, "%s: an engine started after the first was closed finds %s, indexed are %s", what, got, exp)
				return
			}
			c.Count("engines_turned_away", 1)
			c.Count("changes", n)
			c.Case(what, func() interface{} { return map[string]interface{}{"history": what, "documents": docs()} })
			os.RemoveAll(root)
			h.Progress()
		}
	}
}
