package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

var c13 = &h.Prop{ID: "C13", Level: "exploration",
	Rule: "several goroutines, each writing its own documents and calling Flush in its own time while the others write on, over random engine options, with and without the persistent store, under injected delays at the internal hand-over points. After its Flush each goroutine checks that its own documents are exactly as it left them: found under each key, counted, ranked with the payload of the last version, known to HasDoc and to the store. A case is one check after a Flush; non-trivial when the goroutine wrote since its previous Flush, distinct by history and step.",
	Parts: []h.Part{
		{Name: "memory", Run: func(c *h.C) { c13Run(c, false, c.N(600, 4000)) }},
		{Name: "store", Run: func(c *h.C) { c13Run(c, true, c.N(160, 1000)) }},
		large(2, lHas|lPayload, eng.AndQuery),
	}}

// own is the part of the model one goroutine owns.
type own struct {
	ids  []string
	live map[string]*eng.Ver
	hist []string
}

func c13Run(c *h.C, store bool, n int) {
	var checks, overlapped int64
	for i := 0; i < n && !c.Violated(); i++ {
		r := c.Rand("h", i)
		v := eng.NewVocab(r, 3+r.Intn(4), r.Intn(3), 4+r.Intn(20))
		o := eng.RandOpts(r)
		o.IDOnly = false
		eng.ContentOpts(r, &o)
		if store {
			o.UseStore = true
			o.StoreFolder = filepath.Join(c.Dir, fmt.Sprint("db", i))
			o.StoreEngine = []string{"ldb", "ldb", "bg", "bolt"}[r.Intn(4)]
			if r.Intn(2) == 0 {
				o.StoreEngine = eng.SlowStore(o.StoreEngine)
			}
			o.StoreShards = 1 + r.Intn(3)
		}
		dl := eng.Delays(r)
		w := eng.NewWorld(c, o, v)
		w.Note("delays: %s", dl)
		ng := 2 + r.Intn(3)
		owns := make([]*own, ng)
		for g := range owns {
			owns[g] = &own{live: map[string]*eng.Ver{}}
		}
		for k, id := range v.IDs {
			owns[k%ng].ids = append(owns[k%ng].ids, id)
		}
		var active int64
		var wg sync.WaitGroup
		for g := range owns {
			wg.Add(1)
			go func(g int, o *own, r *rand.Rand) {
				defer wg.Done()
				atomic.AddInt64(&active, 1)
				for step := 0; step < 4+r.Intn(3) && !c.Violated(); step++ {
					wrote := o.writes(w, r)
					c.Phase("Flush by one of %d goroutines, %s, delays %s", ng, w.Desc, dl)
					w.E.Flush()
					h.Progress()
					if atomic.LoadInt64(&active) > 1 {
						atomic.AddInt64(&overlapped, 1)
					}
					o.check(w, r, store)
					atomic.AddInt64(&checks, 1)
					sig := ""
					if wrote > 0 {
						sig = fmt.Sprint(i, g, step)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "delays": dl, "goroutines": ng, "own": append([]string{}, o.hist...)}
					})
				}
				atomic.AddInt64(&active, -1)
			}(g, owns[g], c.Rand("g", i, g))
		}
		wg.Wait()
		w.E.Close()
	}
	c.Count("checks_after_flush", int(checks))
	c.Count("flushes_while_others_ran", int(overlapped))
	c.Count("hook_points_passed", int(eng.PointHits))
}

func (o *own) writes(w *eng.World, r *rand.Rand) int {
	n := 0
	var order []string
	for _, id := range o.ids {
		if r.Intn(3) > 0 {
			order = append(order, id)
		}
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for _, id := range order {
		if o.live[id] != nil && r.Intn(3) == 0 {
			s := eng.Step{Remove: true, ID: id, Force: r.Intn(6) == 0}
			o.hist = append(o.hist, s.String())
			w.Do(s)
			delete(o.live, id)
			n++
			continue
		}
		for k := 1 + r.Intn(2)*r.Intn(3); k > 0; k-- {
			s := eng.Step{ID: id, Ver: w.Shape(r, eng.NewVer(r, w.V, id, w.Next(), w.Doc)), Force: r.Intn(6) == 0}
			o.hist = append(o.hist, s.String())
			w.Do(s)
			o.live[id] = s.Ver
			n++
		}
	}
	return n
}

func (o *own) check(w *eng.World, r *rand.Rand, store bool) {
	filter := map[string]bool{}
	for _, id := range o.ids {
		filter[id] = true
	}
	fail := func(key, format string, args ...interface{}) {
		w.C.Violate(key, w.Witness(o.hist), "after a Flush among concurrent writers: %s", fmt.Sprintf(format, args...))
	}
	keys := append(append([]string{}, w.V.Tokens...), w.V.Labels...)
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	if len(keys) > 5 {
		keys = keys[:5]
	}
	for _, k := range keys {
		q := eng.Query{Tokens: []string{k}, DocIds: filter}
		if r.Intn(4) == 0 {
			q.Tokens, q.Labels = nil, []string{k}
		}
		req := q.Req()
		req.RankOpts = &types.RankOpts{ScoringCriteria: criteria{salt: 1}}
		resp := w.Search(req)
		want := q.Eval(o.live)
		got := eng.Ids(resp.Docs)
		if !eng.Same(got, want) || resp.NumDocs != len(want) {
			fail("result-set", "key %q finds %q of its own documents (count %d), expected %q", k, got, resp.NumDocs, want)
			continue
		}
		for _, d := range resp.Docs.(types.ScoredDocs) {
			if s := diffPayload(o.live[d.DocId], d); s != "" {
				fail("payload", "%s", s)
			}
		}
	}
	for _, id := range o.ids {
		if has := w.E.HasDoc(id); has != (o.live[id] != nil) {
			fail("has-doc", "HasDoc(%q) = %v, live = %v", id, has, o.live[id] != nil)
		}
		if store {
			if has := w.E.HasDocDB(id); has != (o.live[id] != nil) {
				fail("store", "HasDocDB(%q) = %v, live = %v", id, has, o.live[id] != nil)
			}
		}
	}
	if store && r.Intn(2) == 0 {
		ids := w.E.GetDBAllIds()
		var got []string
		for _, id := range ids {
			if filter[id] {
				got = append(got, id)
			}
		}
		var want []string
		for id := range o.live {
			want = append(want, id)
		}
		sort.Strings(want)
		if !eng.Same(got, want) {
			fail("store", "the store holds %q of its own documents, expected %q", got, want)
		}
	}
	h.Progress()
}
