package main

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// A store that fails. failStore passes on to a real backend, except that
// operations fail as the plan of its folder says, and keeps a model of what
// the backend has to hold.

var errFault = errors.New("injected: no space left on device")

// failPlan says what fails in one folder. It changes only while the engine is
// at rest.
type failPlan struct {
	c              *h.C
	seed           int64
	set, del, has  float64
	each           float64
	close          bool
	shard          string // only this one fails, if not empty
	gate           chan bool
	waiting, tried int64

	mu    sync.Mutex
	data  map[string]map[string][]byte // path, key
	last  map[string]failOp            // key
	n     map[string]int               // passages of an operation on a key
	row   map[string]int               // failures in a row
	open  map[string]bool
	yield map[string][]byte
	full  map[string]bool // shards of which the last reading was complete

	failed, torn int
}

type failOp struct {
	del bool
	val []byte
}

var failPlans sync.Map // folder -> *failPlan

func (p *failPlan) fails(path, op, key string, prob float64) (fail, done bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	name := path + "|" + op + "|" + key
	p.n[name]++
	if prob <= 0 || p.shard != "" && !strings.HasSuffix(path, p.shard) {
		p.row[name] = 0
		return false, false
	}
	f := fnv.New64a()
	fmt.Fprint(f, p.seed, filepath.Base(path), op, key, p.n[name])
	x := f.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	if float64(x%100000) >= prob*100000 {
		p.row[name] = 0
		return false, false
	}
	p.failed++
	if p.row[name]++; p.row[name] > 20000 {
		p.c.Violate("retry", fmt.Sprint(op, key), "the engine goes on trying: %s of %q has failed %d times in a row and is tried again", op, key, p.row[name])
		p.row[name] = 0
		return false, false
	}
	// every third time it was done all the same
	if x/100000%3 == 0 {
		p.torn++
		return true, true
	}
	return true, false
}

type failStore struct {
	store.Store
	path string
	p    *failPlan
}

func (s failStore) wait() {
	atomic.AddInt64(&s.p.tried, 1)
	if g := s.p.gate; g != nil && (s.p.shard == "" || strings.HasSuffix(s.path, s.p.shard)) {
		atomic.AddInt64(&s.p.waiting, 1)
		<-g
		atomic.AddInt64(&s.p.waiting, -1)
	}
}

func (s failStore) Set(k, v []byte) error {
	s.wait()
	key := string(k)
	val := append([]byte{}, v...)
	fail, done := s.p.fails(s.path, "set", key, s.p.set)
	var err error
	if !fail || done {
		err = s.Store.Set(k, v)
	}
	s.p.mu.Lock()
	if (!fail || done) && err == nil {
		s.p.data[s.path][key] = val
	}
	s.p.last[key] = failOp{val: val}
	s.p.mu.Unlock()
	if fail {
		return errFault
	}
	return err
}

func (s failStore) Delete(k []byte) error {
	s.wait()
	key := string(k)
	fail, done := s.p.fails(s.path, "delete", key, s.p.del)
	var err error
	if !fail || done {
		err = s.Store.Delete(k)
	}
	s.p.mu.Lock()
	if (!fail || done) && err == nil {
		delete(s.p.data[s.path], key)
	}
	s.p.last[key] = failOp{del: true}
	s.p.mu.Unlock()
	if fail {
		return errFault
	}
	return err
}

func (s failStore) Has(k []byte) (bool, error) {
	if fail, _ := s.p.fails(s.path, "has", string(k), s.p.has); fail {
		return false, errFault
	}
	return s.Store.Has(k)
}

func (s failStore) ForEach(fn func(k, v []byte) error) error {
	s.p.mu.Lock()
	stop := -1
	n := len(s.p.data[s.path])
	s.p.mu.Unlock()
	if fail, _ := s.p.fails(s.path, "each", "", s.p.each); fail {
		s.p.mu.Lock()
		stop = (s.p.n[s.path+"|each|"]*7 + len(s.path)) % (n + 1)
		s.p.mu.Unlock()
	}
	i := 0
	s.p.mu.Lock()
	s.p.full[s.path] = stop < 0
	s.p.mu.Unlock()
	if stop == 0 {
		return errFault
	}
	err := s.Store.ForEach(func(k, v []byte) error {
		s.p.mu.Lock()
		s.p.yield[string(k)] = append([]byte{}, v...)
		s.p.mu.Unlock()
		if err := fn(k, v); err != nil {
			return err
		}
		if i++; i == stop {
			return errFault
		}
		return nil
	})
	if stop > 0 {
		return errFault
	}
	return err
}

func (s failStore) Close() error {
	err := s.Store.Close()
	s.p.mu.Lock()
	s.p.open[s.path] = false
	s.p.mu.Unlock()
	if s.p.close && err == nil {
		return errFault
	}
	return err
}

func init() {
	for _, n := range backends {
		n := n
		store.RegisterStore("fail-"+n, func(path string) (store.Store, error) {
			x, _ := failPlans.Load(filepath.Dir(path))
			p := x.(*failPlan)
			p.mu.Lock()
			if p.open[path] {
				p.mu.Unlock()
				p.c.Violate("not-closed", path, "the engine opens a store which it has not closed yet")
				return nil, errFault
			}
			p.open[path] = true
			if p.data[path] == nil {
				p.data[path] = map[string][]byte{}
			}
			p.mu.Unlock()
			st, err := store.OpenStore(path, n)
			if err != nil {
				return nil, err
			}
			return failStore{st, path, p}, nil
		})
	}
}

func (p *failPlan) reset() {
	p.mu.Lock()
	p.yield = map[string][]byte{}
	p.full = map[string]bool{}
	p.mu.Unlock()
}

// calm ends all failures.
func (p *failPlan) calm() {
	p.set, p.del, p.has, p.each, p.close, p.shard, p.gate = 0, 0, 0, 0, false, "", nil
}

// draw says what fails next.
func (p *failPlan) draw(r *rnd, shards int) string {
	p.calm()
	pick := func() float64 { return []float64{0, 0.1, 0.3, 0.6, 1}[r.Intn(5)] }
	p.set, p.del, p.has, p.each = pick(), pick(), pick(), pick()
	p.close = r.Intn(3) == 0
	if r.Intn(3) == 0 {
		p.shard = fmt.Sprint(".", r.Intn(shards))
	}
	return fmt.Sprintf("failing set=%v delete=%v has=%v foreach=%v close=%v shard=%q", p.set, p.del, p.has, p.each, p.close, p.shard)
}

// failDecode reads a record as the engine has to.
func failDecode(val []byte) (types.DocData, bool) {
	var d types.DocData
	err := gob.NewDecoder(bytes.NewReader(val)).Decode(&d)
	return d, err == nil
}

// hidden is a payload that encoding/gob cannot store.
type hidden struct {
	N int
	F func()
}

func unfit(v *eng.Ver) bool {
	_, ok := v.Data.Fields.(hidden)
	return ok
}

// held lists the documents in the stores.
func (p *failPlan) held() map[string]bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := map[string]bool{}
	for _, d := range p.data {
		for k := range d {
			m[k] = true
		}
	}
	return m
}

// checkTried compares the last operation that the store was asked for on each
// document of the plan with the last call.
func checkTried(w *eng.World, p *failPlan, plan [][]eng.Step, was map[string]bool) {
	final := map[string]eng.Step{}
	for _, l := range plan {
		for _, s := range l {
			final[s.ID] = s
		}
	}
	for id, s := range final {
		p.mu.Lock()
		op, ok := p.last[id]
		var held []byte
		for _, m := range p.data {
			if val, is := m[id]; is {
				held = val
			}
		}
		p.mu.Unlock()
		if s.Remove && held == nil {
			continue // the store is as it has to be
		}
		if !s.Remove && held == nil && was[id] {
			w.C.Violate("lost", w.Witness(id), "%q was in the store and is in it no more, though it was only indexed again", id)
		}
		if s.Ver != nil && unfit(s.Ver) {
			continue // nothing that can be stored
		}
		if d, ok := failDecode(held); ok && !s.Remove && fmt.Sprintf("%+v", d) == fmt.Sprintf("%+v", s.Ver.Data) {
			continue
		}
		switch {
		case !ok:
			w.C.Violate("not-tried", w.Witness(s.String()), "after Flush the store has never been asked to keep %s", s)
		case s.Remove != op.del:
			w.C.Violate("not-tried", w.Witness(s.String(), op.del), "after Flush the last operation asked of the store (delete: %v) is not that of %s", op.del, s)
		case !s.Remove:
			d, ok := failDecode(op.val)
			if g, e := fmt.Sprintf("%+v", d), fmt.Sprintf("%+v", s.Ver.Data); !ok || g != e {
				w.C.Violate("tried-data", w.Witness(id), "the store was last asked to keep %s for %q, indexed last with %s", clip(g, 400), id, clip(e, 400))
			}
		}
	}
}

// checkKept compares what the engine reads from the store with what the store
// holds and gives.
func checkKept(w *eng.World, p *failPlan) {
	held := func(all bool) []string {
		var l []string
		p.mu.Lock()
		defer p.mu.Unlock()
		for path, m := range p.data {
			if f, read := p.full[path]; all || f || !read {
				for k := range m {
					l = append(l, k)
				}
			}
		}
		sort.Strings(l)
		return l
	}
	given := func() []string {
		var l []string
		p.mu.Lock()
		defer p.mu.Unlock()
		for k := range p.yield {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	subset := func(a, b []string) bool {
		m := map[string]bool{}
		for _, x := range b {
			m[x] = true
		}
		for _, x := range a {
			if !m[x] {
				return false
			}
		}
		return true
	}
	check := func(what string, got []string) {
		if want := given(); !eng.Same(got, want) {
			w.C.Violate("kept-ids", w.Witness(what, got, want), "%s lists %q while the stores gave %q before they failed", what, got, want)
		}
		if full := held(false); !subset(full, got) {
			w.C.Violate("kept-ids", w.Witness(what, got, full), "%s lists %q, though the stores that did not fail hold %q", what, got, full)
		}
		if all := held(true); !subset(got, all) {
			w.C.Violate("kept-ids", w.Witness(what, got, all), "%s lists %q, the stores hold %q", what, got, all)
		}
	}
	p.reset()
	check("GetDBAllIds", w.E.GetDBAllIds())
	p.reset()
	ids, docs := w.E.GetDBAllDocs()
	if len(ids) != len(docs) {
		w.C.Violate("kept-docs", w.Witness(ids), "GetDBAllDocs gives %d ids and %d documents", len(ids), len(docs))
		return
	}
	check("GetDBAllDocs", ids)
	for k, id := range ids {
		p.mu.Lock()
		d, _ := failDecode(p.yield[id])
		p.mu.Unlock()
		if g, e := fmt.Sprintf("%+v", docs[k]), fmt.Sprintf("%+v", d); g != e {
			w.C.Violate("kept-data", w.Witness(id), "GetDBAllDocs gives %s for %q, which the store holds as %s", clip(g, 300), id, clip(e, 300))
		}
	}
	var ks []string
	ks = append(ks, w.V.IDs...)
	for _, id := range append(ks, "nobody") {
		p.mu.Lock()
		var is bool
		for _, m := range p.data {
			if _, ok := m[id]; ok {
				is = true
			}
		}
		before := p.failed
		p.mu.Unlock()
		has := w.E.HasDocDB(id)
		p.mu.Lock()
		ok := p.failed == before
		p.mu.Unlock()
		if ok && has != is || has && !is {
			w.C.Violate("kept-has", w.Witness(id, has), "HasDocDB(%q) = %v, the store holds it: %v", id, has, is)
		}
	}
	h.Progress()
}

func newFailPlan(c *h.C, dir string, seed int64) *failPlan {
	p := &failPlan{c: c, seed: seed, data: map[string]map[string][]byte{}, last: map[string]failOp{},
		n: map[string]int{}, row: map[string]int{}, open: map[string]bool{}}
	p.reset()
	failPlans.Store(dir, p)
	return p
}

var c37 = &h.Prop{ID: "C37", Level: "exploration",
	Rule:        "histories on engines over each backend behind a stand-in that lets writes, deletes, reads, listings and closings fail, after having done the work or not, everywhere or in one part only, and that knows what the backend has to hold. After each Flush searches, payloads and HasDoc are compared with the model of an engine whose store does not fail, the last operation asked of the store on each document with the last call, and what the engine reads from the store with what it holds; restarts whose reading breaks off have to bring back exactly the records given before. While a store stalls, searches for the other documents have to be answered, and Flush may not return. A case is one phase or restart; non-trivial when an operation failed or was held, distinct by history.",
	Assumptions: []string{"payload types are registered with encoding/gob; a store that fails returns an error"},
	Parts: []h.Part{{Name: "fail", Run: func(c *h.C) {
		for i := 0; i < c.N(90, 900) && !c.Violated(); i++ {
			c37Fail(c, i)
		}
	}}, {Name: "stall", Run: func(c *h.C) {
		for i := 0; i < c.N(60, 600) && !c.Violated(); i++ {
			c37Stall(c, i)
		}
	}}}}

func c37Fail(c *h.C, i int) {
	r := c.Rand("f", i)
	v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 3+r.Intn(16))
	dir := filepath.Join(c.Dir, fmt.Sprint("fail", i))
	defer os.RemoveAll(dir)
	backend := backends[i%3]
	o := storeOpts(r, dir, backend)
	o.StoreEngine = "fail-" + backend
	eng.ContentOpts(r, &o)
	p := newFailPlan(c, dir, r.Int63())
	defer failPlans.Delete(dir)
	shards, using := o.StoreShards, o.Using
	dl := eng.Delays(r)
	w := eng.NewWorld(c, o, v)
	w.Note("delays: %s", dl)
	vers := map[string][]*eng.Ver{}
	mk := func(r *rnd, id string, n int) *eng.Ver {
		ver := richVer(r, v, id, n, w.Doc)
		if r.Intn(12) == 0 {
			ver.Data.Fields = hidden{N: n}
			c.Count("unstorable_versions", 1)
		}
		return ver
	}
	for life := 0; life < 1+r.Intn(4); life++ {
		if life > 0 {
			w.Note("Close()")
			c.Phase("Close, %s", w.Desc)
			w.E.Close()
			h.Progress()
			p.mu.Lock()
			for path, open := range p.open {
				if open {
					c.Violate("not-closed", w.Witness(path), "Close left %s open, close=%v", filepath.Base(path), p.close)
				}
			}
			p.mu.Unlock()
			if c.Violated() {
				return
			}
			note := p.draw(r, shards)
			o = storeOpts(r, dir, backend)
			o.StoreEngine, o.StoreShards, o.Using = "fail-"+backend, shards, using
			w.Opts, w.Desc = o, eng.DescOpts(o)
			w.E = &riot.Engine{}
			w.Note("%s; restart with %s", note, w.Desc)
			c.Phase("restart with %s, %s", w.Desc, note)
			p.reset()
			before := p.failed
			w.E.Init(o)
			h.Progress()
			w.Flush()
			// the live documents are those that the stores gave
			w.Live = map[string]*eng.Ver{}
			p.mu.Lock()
			lost := 0
			for path, m := range p.data {
				for k := range m {
					if _, ok := p.yield[k]; !ok {
						lost++
						if f, read := p.full[path]; f || !read {
							c.Violate("recovery", w.Witness(k), "the store of %q did not fail, yet it was not read from it", k)
						}
					}
				}
			}
			yield := p.yield
			failed := p.failed - before
			p.mu.Unlock()
			for id, val := range yield {
				d, _ := failDecode(val)
				s := fmt.Sprintf("%+v", d)
				for _, ver := range vers[id] {
					if fmt.Sprintf("%+v", ver.Data) == s {
						w.Live[id] = ver
					}
				}
				if w.Live[id] == nil {
					c.Violate("store-data", w.Witness(id), "the store holds %s for %q, which was never indexed so", clip(s, 400), id)
					return
				}
			}
			w.CheckPostings()
			checkPayloads(w)
			checkKept(w, p)
			sig := ""
			if failed > 0 {
				sig = fmt.Sprint(i, "life", life)
			}
			c.Count("documents_recovered", len(w.Live))
			c.Count("documents_not_given", lost)
			c.Case(sig, func() interface{} {
				return map[string]interface{}{"options": w.Desc, "faults": note, "recovered": len(w.Live), "not_given": lost}
			})
		}
		for ph := 0; ph < 1+r.Intn(3) && !c.Violated(); ph++ {
			note := p.draw(r, shards)
			w.Note("%s", note)
			plan := w.Plan(r, eng.Mix{Touch: 0.6, Remove: 0.35, Force: 0.1, Repeat: 3, Absent: true, NewVerFn: mk})
			for _, l := range plan {
				for _, s := range l {
					if !s.Remove {
						vers[s.ID] = append(vers[s.ID], s.Ver)
					}
				}
			}
			p.mu.Lock()
			before, torn := p.failed, p.torn
			p.mu.Unlock()
			was := p.held()
			n := w.Apply(plan)
			w.Flush()
			p.mu.Lock()
			failed, done := p.failed-before, p.torn-torn
			p.mu.Unlock()
			checkTried(w, p, plan, was)
			w.CheckPostings()
			checkPayloads(w)
			checkKept(w, p)
			c.Count("writes", n)
			c.Count("failed_writes", failed)
			c.Count("failed_writes_done", done)
			sig := ""
			if failed > 0 {
				sig = fmt.Sprint(i, life, ph)
			}
			c.Case(sig, func() interface{} {
				return map[string]interface{}{"options": w.Desc, "faults": note, "delays": dl, "live": len(w.Live)}
			})
		}
	}
	c.Phase("Close, %s", w.Desc)
	w.E.Close()
	h.Progress()
}

func c37Stall(c *h.C, i int) {
	r := c.Rand("s", i)
	v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 4+r.Intn(16))
	dir := filepath.Join(c.Dir, fmt.Sprint("stall", i))
	defer os.RemoveAll(dir)
	backend := backends[i%3]
	o := storeOpts(r, dir, backend)
	o.StoreEngine = "fail-" + backend
	p := newFailPlan(c, dir, r.Int63())
	defer failPlans.Delete(dir)
	eng.NoDelays()
	w := eng.NewWorld(c, o, v)
	mk := func(r *rnd, id string, n int) *eng.Ver { return richVer(r, v, id, n, w.Doc) }
	w.Apply(w.Plan(r, eng.Mix{Touch: 0.8, Repeat: 2, NewVerFn: mk}))
	w.Flush()
	for ph := 0; ph < 2+r.Intn(2) && !c.Violated(); ph++ {
		p.calm()
		if r.Intn(2) == 0 {
			p.shard = fmt.Sprint(".", r.Intn(o.StoreShards))
		}
		gate := make(chan bool)
		p.gate = gate
		plan := w.Plan(r, eng.Mix{Touch: 0.5, Remove: 0.35, Force: 0.1, Repeat: 2, Absent: true, NewVerFn: mk})
		touched := map[string]bool{}
		for _, l := range plan {
			for _, s := range l {
				touched[s.ID] = true
			}
		}
		// Apply changes the model, so the documents at rest are kept aside
		rest := map[string]*eng.Ver{}
		for id, d := range w.Live {
			if !touched[id] {
				rest[id] = d
			}
		}
		keys := w.AllKeys()
		w.Note("the stores%s stall", p.shard)
		c.Phase("searches while the stores%s stall, %s", p.shard, w.Desc)
		var flushed int32
		was := p.held()
		done := make(chan bool)
		go func() {
			w.Apply(plan)
			w.Flush()
			atomic.StoreInt32(&flushed, 1)
			close(done)
		}()
		held := int64(0)
		searches := 0
		for pass := 0; pass < 3+r.Intn(4) && !c.Violated(); pass++ {
			for _, k := range keys {
				q := eng.Query{Tokens: []string{k}}
				var got []string
				for _, id := range eng.Ids(w.Search(q.Req()).Docs) {
					if !touched[id] {
						got = append(got, id)
					}
				}
				searches++
				if want := q.Eval(rest); !eng.Same(got, want) {
					c.Violate("stalled-search", w.Witness(k, got, want), "while a store stalls, %q finds %q of the documents that nobody touches, expected %q", k, got, want)
				}
			}
			for id := range rest {
				if !w.E.HasDoc(id) {
					c.Violate("stalled-has", w.Witness(id), "while a store stalls, HasDoc(%q) = false", id)
				}
			}
			if n := atomic.LoadInt64(&p.waiting); n > held {
				held = n
			}
		}
		if atomic.LoadInt64(&p.waiting) > 0 && atomic.LoadInt32(&flushed) == 1 {
			c.Violate("early-flush", w.Witness(nil), "Flush returned while a write still waits in the store")
		}
		close(gate)
		h.Progress()
		<-done
		p.gate = nil
		h.Progress()
		checkTried(w, p, plan, was)
		checkMirror(w)
		w.CheckPostings()
		checkPayloads(w)
		c.Count("searches_while_stalled", searches)
		sig := ""
		if held > 0 {
			sig = fmt.Sprint("stall", i, ph)
		}
		c.Case(sig, func() interface{} {
			return map[string]interface{}{"options": w.Desc, "stores_held": held, "searches": searches, "at_rest": len(rest)}
		})
	}
	w.E.Close()
	h.Progress()
}
