package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

var c14 = &h.Prop{ID: "C14", Level: "exploration",
	Rule:        "the whole public interface of the engine called from several goroutines at once on shared ids (Index, IndexDoc, RemoveDoc, the three searches in all modes, HasDoc, HasDocDB, the listings of the store, the counters, Segment, Tokens, Flush), in every tokenization mode, with and without the store, in a build with the race detector and under injected delays; race reports that touch the repository, crashes and dead states are violations. A case is one call; distinct by engine, kind of call and the kinds of calls that were under way when it began; non-trivial when another was.",
	Assumptions: []string{"the race detector sees the conflicting accesses of the executions that occurred"},
	Parts: []h.Part{
		{Name: "engine", Race: true, Run: c14Engine},
		{Name: "store", Race: true, Run: c14Store},
		{Name: "segmenter", Race: true, Run: c14Seg},
		{Name: "index", Race: true, Run: c14Core},
	}}

// mixer runs calls of random kinds on several goroutines and counts overlaps.
type mixer struct {
	c     *h.C
	kinds []string
	busy  []int32
	desc  string
}

func (m *mixer) run(kind int, salt interface{}, f func()) {
	mask := 0
	for k := range m.busy {
		if atomic.LoadInt32(&m.busy[k]) > 0 {
			mask |= 1 << uint(k)
		}
	}
	atomic.AddInt32(&m.busy[kind], 1)
	f()
	atomic.AddInt32(&m.busy[kind], -1)
	h.Progress()
	sig := ""
	if mask != 0 {
		sig = fmt.Sprint(salt, kind, mask)
	}
	m.c.Case(sig, func() interface{} {
		var o []string
		for k, n := range m.kinds {
			if mask>>uint(k)&1 == 1 {
				o = append(o, n)
			}
		}
		return map[string]interface{}{"engine": m.desc, "call": m.kinds[kind], "under_way": o}
	})
}

func c14Engine(c *h.C) {
	for i := 0; i < c.N(50, 500) && !c.Violated(); i++ {
		r := c.Rand("h", i)
		v := eng.NewVocab(r, 4, 2, 6)
		o := eng.RandOpts(r)
		c14One(c, i, o, v, r)
	}
}

func c14Store(c *h.C) {
	for i := 0; i < c.N(24, 200) && !c.Violated(); i++ {
		r := c.Rand("s", i)
		v := eng.NewVocab(r, 4, 2, 6)
		o := eng.RandOpts(r)
		o.UseStore = true
		o.StoreFolder = filepath.Join(c.Dir, fmt.Sprint("db", i))
		o.StoreEngine = []string{"ldb", "bg", "bolt"}[i%3]
		o.StoreShards = 1 + r.Intn(3)
		c14One(c, i, o, v, r)
		os.RemoveAll(o.StoreFolder)
	}
}

func c14Seg(c *h.C) {
	dict, stop := eng.WriteDict(c.Dir)
	for i := 0; i < c.N(40, 300) && !c.Violated(); i++ {
		r := c.Rand("g", i)
		v := eng.NewVocab(r, 4, 2, 6)
		v.Tokens = []string{"世界", "七十亿", "人口", "hello", "中国"}
		o := eng.RandOpts(r)
		o.NotUseGse = false
		o.NumGseThreads = 2 + r.Intn(3)
		o.Using = i % 7
		o.GseDict = dict
		o.StopTokenFile = stop
		o.PinYin = r.Intn(2) == 0
		o.UsePhrase = o.PinYin && r.Intn(2) == 0
		o.GseMode = r.Intn(2) == 0
		c14One(c, i, o, v, r)
	}
}

func c14One(c *h.C, i int, o types.EngineOpts, v *eng.Vocab, r *rnd) {
	dl := eng.Delays(r)
	desc := eng.DescOpts(o) + " delays " + dl
	m := &mixer{c: c, desc: desc, kinds: []string{"Index", "RemoveDoc", "Search", "SearchDoc/ID", "HasDoc",
		"counters", "Segment/Tokens", "Flush", "HasDocDB", "GetDBAll"}}
	m.busy = make([]int32, len(m.kinds))
	e := &riot.Engine{}
	e.Init(o)
	c.Phase("concurrent calls on %s", desc)
	var n int64
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := c.Rand("c", i, g)
			for k := 0; k < 60; k++ {
				id := v.IDs[r.Intn(len(v.IDs))]
				switch x := r.Intn(30); {
				case x < 9:
					ver := eng.NewVer(r, v, id, int(atomic.AddInt64(&n, 1)), eng.DocOpt{MaxTok: 4, MaxLab: 2, MaxOcc: 2})
					if !o.NotUseGse {
						ver.Data.Content = eng.RandContent(r, true)
					}
					f := r.Intn(4) == 0
					m.run(0, i, func() { e.Index(id, ver.Data, f) })
				case x < 12:
					f := r.Intn(4) == 0
					m.run(1, i, func() { e.RemoveDoc(id, f) })
				case x < 18:
					q := eng.AndQuery(r, v, nil)
					if r.Intn(2) == 0 {
						q = eng.LogicQuery(r, v)
					}
					req := q.Req()
					if r.Intn(4) == 0 {
						req.Text = eng.RandContent(r, true)
					}
					req.CountDocsOnly, req.Orderless = r.Intn(5) == 0, r.Intn(5) == 0
					if r.Intn(3) == 0 {
						req.Timeout = []int{1, 1000, 3600000}[r.Intn(3)]
					}
					if r.Intn(2) == 0 {
						req.RankOpts = &types.RankOpts{MaxOutputs: r.Intn(3), OutputOffset: r.Intn(2), ReverseOrder: r.Intn(2) == 0}
					}
					m.run(2, i, func() {
						resp := e.Search(req)
						// the caller may read all of it
						_ = fmt.Sprintf("%+v", resp)
					})
				case x < 21:
					req := types.SearchReq{Tokens: []string{v.Tokens[r.Intn(len(v.Tokens))]}}
					m.run(3, i, func() {
						if o.IDOnly {
							_ = fmt.Sprintf("%+v", e.SearchID(req))
						} else {
							_ = fmt.Sprintf("%+v", e.SearchDoc(req))
						}
					})
				case x < 24:
					m.run(4, i, func() { e.HasDoc(id) })
				case x < 25:
					m.run(5, i, func() {
						e.NumDocsIndexed()
						e.NumDocsRemoved()
						e.NumTokenIndexAdded()
						e.NumIndexed()
						e.NumRemoved()
						e.NumTokenAdded()
					})
				case x < 26:
					m.run(6, i, func() {
						t := eng.RandContent(r, true)
						if !o.NotUseGse {
							e.Segment(t)
							if o.PinYin {
								e.PinYin(t)
							}
						}
						e.Tokens(types.SearchReq{Text: t})
					})
				case x < 27:
					m.run(7, i, func() { e.Flush() })
				case x < 29:
					if o.UseStore {
						m.run(8, i, func() { e.HasDocDB(id) })
					}
				default:
					if o.UseStore {
						m.run(9, i, func() {
							e.GetDBAllIds()
							e.GetDBAllDocs()
						})
					}
				}
			}
		}(g)
	}
	wg.Wait()
	c.Count("calls", 360)
	e.Close()
}

// c14Core calls the index itself from several goroutines.
func c14Core(c *h.C) {
	for i := 0; i < c.N(80, 800) && !c.Violated(); i++ {
		r := c.Rand("x", i)
		v := eng.NewVocab(r, 4, 2, 6)
		o := types.IndexerOpts{IndexType: i % 3, DocCacheSize: 1 + r.Intn(5), BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}}
		x := &core.Indexer{}
		x.Init(o)
		dl := eng.Delays(r)
		m := &mixer{c: c, desc: fmt.Sprintf("index type=%d cache=%d delays %s", o.IndexType, o.DocCacheSize, dl),
			kinds: []string{"AddDocToCache", "RemoveDocToCache", "Lookup", "HasDoc"}}
		m.busy = make([]int32, len(m.kinds))
		c.Phase("%s", m.desc)
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := c.Rand("c", i, g)
				for k := 0; k < 60; k++ {
					id := v.IDs[r.Intn(len(v.IDs))]
					switch y := r.Intn(10); {
					case y < 4:
						d := eng.NewVer(r, v, id, k, eng.DocOpt{MaxTok: 4, MaxLab: 2, MaxOcc: 2, Bare: true}).DocIndex()
						f := r.Intn(4) == 0
						m.run(0, i, func() { x.AddDocToCache(d, f) })
					case y < 6:
						f := r.Intn(4) == 0
						m.run(1, i, func() { x.RemoveDocToCache(id, f) })
					case y < 9:
						q := eng.AndQuery(r, v, nil)
						if r.Intn(2) == 0 {
							q = eng.LogicQuery(r, v)
						}
						m.run(2, i, func() {
							docs, n := x.Lookup(q.Tokens, q.Labels, q.DocIds, r.Intn(4) == 0, q.Logic)
							_ = fmt.Sprintf("%+v %d", docs, n)
						})
					default:
						m.run(3, i, func() { x.HasDoc(id) })
					}
				}
			}(g)
		}
		wg.Wait()
		x.AddDocToCache(nil, true)
		c.Count("calls", 360)
	}
}

var c17 = &h.Prop{ID: "C17", Level: "exploration",
	Rule:  "one ranker under concurrent AddDoc, RemoveDoc and Rank on few ids with unique versions, in a build with the race detector. Every ranked document must carry fields, content, attributes and scores of a single version; that version must have been issued before Rank returned and not replaced or removed before Rank began; ids that are certainly absent must not be ranked and ids that are certainly present must be, in the order of their scores. A case is one Rank; non-trivial when a writer was under way, distinct by ranker and call.",
	Parts: []h.Part{{Name: "ranker", Race: true, Run: c17Run}}}

type rankWrite struct {
	n            int // version, 0 for a removal
	begin, ended int64
}

func c17Run(c *h.C) {
	var ranks, overl int64
	for i := 0; i < c.N(240, 2500) && !c.Violated(); i++ {
		r := c.Rand("h", i)
		x := &core.Ranker{}
		idOnly := r.Intn(4) == 0
		x.Init(idOnly)
		ids := []string{"a", "b", "c", "d", "e"}[:2+r.Intn(4)]
		var clock, busy int64
		var mu sync.Mutex
		hist := map[string][]*rankWrite{} // one writer per id, so its writes are ordered
		var wg sync.WaitGroup
		var left int32 = int32(len(ids))
		for g, id := range ids {
			wg.Add(1)
			go func(g int, id string) {
				defer wg.Done()
				defer atomic.AddInt32(&left, -1)
				r := c.Rand("w", i, g)
				for k := 1; k <= 80; k++ {
					w := &rankWrite{n: g*1000 + k}
					if r.Intn(4) == 0 {
						w.n = 0
					}
					mu.Lock()
					hist[id] = append(hist[id], w)
					mu.Unlock()
					atomic.StoreInt64(&w.begin, atomic.AddInt64(&clock, 1))
					atomic.AddInt64(&busy, 1)
					if w.n == 0 {
						x.RemoveDoc(id)
					} else {
						p := eng.Payload{ID: id, N: w.n, A: float32(w.n % 3), B: float32(w.n)}
						if idOnly {
							x.AddDoc(id, p)
						} else {
							x.AddDoc(id, p, fmt.Sprint("content ", w.n), types.Attri{Ts: int64(w.n)})
						}
					}
					atomic.AddInt64(&busy, -1)
					atomic.StoreInt64(&w.ended, atomic.AddInt64(&clock, 1))
					h.Progress()
				}
			}(g, id)
		}
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := c.Rand("r", i, g)
				for n := 0; (atomic.LoadInt32(&left) > 0 || n < 2) && n < 300 && !c.Violated(); n++ {
					var in []types.IndexedDoc
					for _, id := range append(ids, "never") {
						in = append(in, types.IndexedDoc{DocId: id})
					}
					opt := types.RankOpts{ScoringCriteria: criteria{salt: 1}, ReverseOrder: r.Intn(2) == 0}
					cnt := r.Intn(5) == 0
					others := atomic.LoadInt64(&busy)
					t0 := atomic.AddInt64(&clock, 1)
					out, num := x.Rank(in, opt, cnt)
					t1 := atomic.AddInt64(&clock, 1)
					h.Progress()
					atomic.AddInt64(&ranks, 1)
					sig := ""
					if others > 0 {
						atomic.AddInt64(&overl, 1)
						sig = fmt.Sprint(i, g, n)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"ids": ids, "id_only": idOnly, "ranked": num, "writers_under_way": others}
					})
					c17Check(c, out, num, cnt, idOnly, opt, ids, t0, t1, hist, &mu)
				}
			}(g)
		}
		wg.Wait()
	}
	c.Count("ranks", int(ranks))
	c.Count("ranks_with_writers_under_way", int(overl))
}

func c17Check(c *h.C, out interface{}, num int, cnt, idOnly bool, opt types.RankOpts, ids []string,
	t0, t1 int64, hist map[string][]*rankWrite, mu *sync.Mutex) {
	mu.Lock()
	defer mu.Unlock()
	// what may be current at some moment between t0 and t1
	may := map[string]map[int]bool{}
	for _, id := range ids {
		may[id] = map[int]bool{}
		l := hist[id]
		last := 0
		for _, w := range l {
			if e := atomic.LoadInt64(&w.ended); e != 0 && e < t0 {
				last = w.n
			} else if b := atomic.LoadInt64(&w.begin); b != 0 && b < t1 {
				may[id][w.n] = true
			}
		}
		may[id][last] = true
	}
	lo, hi := 0, 0
	for _, m := range may {
		if !m[0] {
			lo++
		}
		if len(m) > 1 || !m[0] {
			hi++
		}
	}
	fail := func(key, format string, args ...interface{}) {
		c.Violate(key, fmt.Sprintf("ranked %+v, possible versions %v", out, may), "ranker under concurrent writes: %s", fmt.Sprintf(format, args...))
	}
	if num < lo || num > hi {
		fail("count", "counted %d documents, between %d and %d can be there", num, lo, hi)
	}
	if cnt {
		return
	}
	seen := map[string]bool{}
	var prev []float32
	one := func(d types.ScoredID, n int) {
		if seen[d.DocId] {
			fail("twice", "%q ranked twice", d.DocId)
		}
		seen[d.DocId] = true
		if n == 0 || !may[d.DocId][n] {
			fail("version", "%q ranked as version %d, which cannot be current; possible: %v", d.DocId, n, may[d.DocId])
		}
		if prev != nil {
			a, b := prev, d.Scores
			if opt.ReverseOrder {
				a, b = b, a
			}
			if before(b, a) {
				fail("order", "not in order of scores")
			}
		}
		prev = d.Scores
	}
	switch l := out.(type) {
	case types.ScoredDocs:
		for _, d := range l {
			p, _ := d.Fields.(eng.Payload)
			if a, ok := d.Attri.(types.Attri); !ok || int(a.Ts) != p.N || d.Content != fmt.Sprint("content ", p.N) || p.ID != d.DocId ||
				!eqScores(d.Scores, []float32{p.A, p.B}) {
				fail("mixture", "%q carries a mixture of versions: fields %+v content %q attri %+v scores %v", d.DocId, d.Fields, d.Content, d.Attri, d.Scores)
			}
			one(d.ScoredID, p.N)
		}
	case types.ScoredIDs:
		for _, d := range l {
			if len(d.Scores) != 2 {
				fail("scores", "%q carries the scores %v", d.DocId, d.Scores)
				return
			}
			one(d, int(d.Scores[1]))
		}
	}
	for _, id := range ids {
		if !may[id][0] && !seen[id] {
			fail("absent", "%q is not ranked although it was present all the time", id)
		}
	}
	if len(seen) != num {
		fail("count", "counted %d and returned %d", num, len(seen))
	}
}
