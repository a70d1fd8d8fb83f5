package main

import (
	"fmt"
	"sort"
	"sync"

	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// checkPayload asks for documents by key and compares each returned payload
// with the live version.
func checkPayload(w *eng.World, q eng.Query) int {
	resp := w.Search(q.Req())
	docs, ok := resp.Docs.(types.ScoredDocs)
	if !ok {
		return 0
	}
	for _, d := range docs {
		v := w.Live[d.DocId]
		if v == nil {
			w.C.Violate("dead-doc", w.Witness(q, d), "search %s returned %q, which is not indexed", q, d.DocId)
			return -1
		}
		if s := diffPayload(v, d); s != "" {
			w.C.Violate("payload", w.Witness(q, d, v.Data), "search %s returned %q with %s", q, d.DocId, s)
			return -1
		}
	}
	return len(docs)
}

func diffPayload(v *eng.Ver, d types.ScoredDoc) string {
	if d.Content != v.Data.Content {
		return fmt.Sprintf("content %q, indexed last with %q", d.Content, v.Data.Content)
	}
	if g, e := fmt.Sprintf("%T%+v", d.Fields, d.Fields), fmt.Sprintf("%T%+v", v.Data.Fields, v.Data.Fields); g != e {
		return fmt.Sprintf("fields %s, indexed last with %s", g, e)
	}
	if g, e := fmt.Sprintf("%T%+v", d.Attri, d.Attri), fmt.Sprintf("%T%+v", v.Data.Attri, v.Data.Attri); g != e {
		return fmt.Sprintf("attri %s, indexed last with %s", g, e)
	}
	return ""
}

var c03 = &h.Prop{ID: "C03", Level: "exploration",
	Rule: "histories that index few documents over and over, up to five versions of one document between two flushes, with random cache sizes, forced updates, thread counts and delays; after each Flush every posting list, HasDoc and every stored payload is compared with the last version issued; several goroutines racing on the same ids have to leave exactly one version, the last of one of them. A case is one flushed phase; it is non-trivial when a live document was replaced, and distinct by history.",
	Parts: []h.Part{
		{Name: "engine", Run: func(c *h.C) {
			for i := 0; i < c.N(700, 12000) && !c.Violated(); i++ {
				r := c.Rand("h", i)
				v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(3), 2+r.Intn(8))
				dl := eng.Delays(r)
				o := eng.RandOpts(r)
				eng.ContentOpts(r, &o)
				w := eng.NewWorld(c, o, v)
				w.Note("delays: %s", dl)
				force := []float64{0, 0.1, 0.5, 1}[r.Intn(4)]
				for ph := 0; ph < 2+r.Intn(4); ph++ {
					before := len(w.Live)
					plan := w.Plan(r, eng.Mix{Touch: 0.8, Remove: 0.1, Force: force, Repeat: 5,
						NewVerFn: func(r *rnd, id string, n int) *eng.Ver { return richVer(r, v, id, n, w.Doc) }})
					n := w.Apply(plan)
					w.Flush()
					w.CheckPostings()
					checkScores(w, c.Rand("scores", i, ph))
					for _, k := range w.AllKeys() {
						checkPayload(w, eng.Query{Tokens: []string{k}})
					}
					c.Count("writes", n)
					sig := ""
					if before > 0 && n > 0 {
						sig = fmt.Sprint(i, ph)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "plan": fmt.Sprint(plan)}
					})
				}
				w.E.Close()
			}
			c.Count("hook_points_passed", int(eng.PointHits))
		}},
		{Name: "race", Run: func(c *h.C) {
			for i := 0; i < c.N(150, 2500) && !c.Violated(); i++ {
				r := c.Rand("r", i)
				v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(3), 1+r.Intn(8))
				dl := eng.Delays(r)
				o := eng.RandOpts(r)
				eng.ContentOpts(r, &o)
				w := eng.NewWorld(c, o, v)
				w.Note("delays: %s", dl)
				mk := func(r *rnd, id string, n int) *eng.Ver { return richVer(r, v, id, n, w.Doc) }
				for ph := 0; ph < 2+r.Intn(3); ph++ {
					n, k := raceWrites(w, r, mk)
					w.CheckPostings()
					checkScores(w, c.Rand("scores", i, ph))
					if !w.Opts.IDOnly {
						checkPayloads(w)
					}
					c.Count("racing_writes", n)
					c.Count("raced_documents", k)
					c.Case(fmt.Sprint("race", i, ph), func() interface{} {
						return map[string]interface{}{"options": w.Desc, "delays": dl, "documents": k, "writes": n}
					})
				}
				w.E.Close()
			}
		}},
		{Name: "index", Run: func(c *h.C) {
			for i := 0; i < c.N(5000, 100000) && !c.Violated(); i++ {
				r := c.Rand("x", i)
				v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(3), 2+r.Intn(10))
				w := eng.NewCore(c, r, v)
				force := []float64{0, 0.1, 0.5, 1}[r.Intn(4)]
				for ph := 0; ph < 2+r.Intn(4); ph++ {
					before := len(w.Live)
					n := w.Random(r, 0.9, 0.15, force)
					w.Flush()
					w.CheckPostings()
					sig := ""
					if before > 0 && n > 0 {
						sig = fmt.Sprint(i, ph)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"index": w.Desc, "history": w.Log[:min(len(w.Log), 40)]}
					})
				}
			}
		}},
		large(2, lPayload, eng.AndQuery),
	}}

var c04 = &h.Prop{ID: "C04", Level: "exploration",
	Rule: "histories of index, flush, remove, flush, re-index with other content, with repeated removals and removals of unknown ids; after each Flush every key the removed documents ever had is searched in all search modes. A case is one flushed phase; it is non-trivial when a live document was removed, and distinct by history.",
	Parts: []h.Part{
		{Name: "engine", Run: func(c *h.C) {
			for i := 0; i < c.N(700, 12000) && !c.Violated(); i++ {
				r := c.Rand("h", i)
				v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(4), 2+r.Intn(10))
				dl := eng.Delays(r)
				o := eng.RandOpts(r)
				eng.ContentOpts(r, &o)
				w := eng.NewWorld(c, o, v)
				w.Note("delays: %s", dl)
				for ph := 0; ph < 2+r.Intn(5); ph++ {
					rm := []float64{0, 0.5, 0.9, 1}[r.Intn(4)]
					plan := w.Plan(r, eng.Mix{Touch: 0.5 + r.Float64()/2, Remove: rm, Force: 0.2, Repeat: 1, Absent: true})
					removed := 0
					for _, l := range plan {
						for _, s := range l {
							if s.Remove && w.Live[s.ID] != nil {
								removed++
							}
						}
					}
					w.Apply(plan)
					if r.Intn(4) == 0 { // the same removals once more
						for _, l := range plan {
							for _, s := range l {
								if s.Remove {
									w.Do(s)
								}
							}
						}
					}
					w.Flush()
					w.CheckPostings()
					checkModes(w, r)
					checkScores(w, c.Rand("scores", i, ph))
					c.Count("removed", removed)
					sig := ""
					if removed > 0 {
						sig = fmt.Sprint(i, ph)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "plan": fmt.Sprint(plan)}
					})
				}
				w.E.Close()
			}
			c.Count("hook_points_passed", int(eng.PointHits))
		}},
		{Name: "index", Run: func(c *h.C) {
			for i := 0; i < c.N(5000, 100000) && !c.Violated(); i++ {
				r := c.Rand("x", i)
				v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(4), 2+r.Intn(20))
				w := eng.NewCore(c, r, v)
				for ph := 0; ph < 2+r.Intn(5); ph++ {
					before := len(w.Live)
					w.Random(r, 0.4+r.Float64()*0.6, []float64{0, 0.5, 0.9, 1}[r.Intn(4)], 0.2)
					w.Flush()
					w.CheckPostings()
					sig := ""
					if before > 0 {
						sig = fmt.Sprint(i, ph)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"index": w.Desc, "history": w.Log[:min(len(w.Log), 40)]}
					})
				}
			}
		}},
		large(2, lHas, eng.AndQuery),
	}}

// checkModes compares the ways of asking for one key's documents: union
// search, unordered search and the bare count.
func checkModes(w *eng.World, r *rnd) {
	for _, k := range w.AllKeys() {
		q := eng.Query{Tokens: []string{k}}
		want := q.Eval(w.Live)
		req := q.Req()
		switch r.Intn(4) {
		case 0:
			req.Orderless = true
		case 1:
			req.CountDocsOnly = true
		case 2:
			req.Logic.Should = true
		case 3:
			req.Tokens, req.Logic.Expr.Must = nil, []string{k}
		}
		resp := w.Search(req)
		if resp.NumDocs != len(want) {
			w.C.Violate("num-docs", w.Witness(req, resp), "search %+v counts %d documents, %d match", req, resp.NumDocs, len(want))
		}
		if !req.CountDocsOnly {
			if got := eng.Ids(resp.Docs); !eng.Same(got, want) {
				w.C.Violate("result-set", w.Witness(req, got), "search %+v returned %q, the live documents give %q", req, got, want)
			}
		}
	}
}

var c05 = &h.Prop{ID: "C05", Level: "exploration",
	Rule: "metamorphic: one history of writes applied to engines that differ in shards, threads, buffer lengths, cache size, index type and forced updates must give the same documents for every search; chaos: histories whose own outcome is undefined (writes racing on one id) must not crash or wedge the engine, and removing everything and indexing again must give exactly the new documents. A case is one engine and history; all are distinct; non-trivial when documents were found.",
	Parts: []h.Part{
		{Name: "transparent", Run: func(c *h.C) {
			for i := 0; i < c.N(120, 2500) && !c.Violated(); i++ {
				r := c.Rand("h", i)
				v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(4), 3+r.Intn(20))
				// the history: phases of per-id runs
				type ph []eng.Step
				var phases []ph
				n := 0
				live := map[string]bool{}
				last := map[string]*eng.Ver{}
				for p := 0; p < 1+r.Intn(4); p++ {
					var steps ph
					for _, id := range v.IDs {
						if r.Intn(3) == 0 {
							continue
						}
						if live[id] && r.Intn(4) == 0 {
							steps = append(steps, eng.Step{Remove: true, ID: id})
							live[id] = false
							continue
						}
						for k := 1 + r.Intn(2); k > 0; k-- {
							n++
							ver := eng.NewVer(r, v, id, n, eng.DocOpt{MaxTok: 6, MaxLab: 2, MaxOcc: 2})
							if p := last[id]; p != nil && r.Intn(3) == 0 {
								ver.Evolve(r, p)
							}
							last[id] = ver
							steps = append(steps, eng.Step{ID: id, Ver: ver})
						}
						live[id] = true
					}
					phases = append(phases, steps)
				}
				var qs []eng.Query
				for k := 0; k < 12; k++ {
					if r.Intn(3) == 0 {
						q := eng.LogicQuery(r, v)
						q.DocIds = nil
						qs = append(qs, q)
					} else {
						qs = append(qs, eng.AndQuery(r, v, nil))
					}
				}
				var first []string
				var firstDesc string
				for cfg := 0; cfg < 6; cfg++ {
					o := eng.RandOpts(r)
					o.IDOnly = false
					switch cfg {
					case 0: // one of everything
						o.NumShards, o.NumGseThreads, o.IndexerOpts.DocCacheSize = 1, 1, 1000
					case 1: // as many shards as documents, no batching
						o.NumShards, o.IndexerOpts.DocCacheSize = 16, 1
					case 2: // cache exactly as large as a phase
						o.NumShards, o.IndexerOpts.DocCacheSize = 1, max(1, len(phases[0]))
					}
					eng.Delays(r)
					w := eng.NewWorld(c, o, v)
					force := []float64{0, 0.2, 1}[r.Intn(3)]
					for _, p := range phases {
						for _, s := range p {
							s.Force = r.Float64() < force
							w.Do(s)
							if s.Remove {
								delete(w.Live, s.ID)
							} else {
								w.Live[s.ID] = s.Ver
							}
						}
						w.Flush()
					}
					var all []string
					found := 0
					for _, q := range qs {
						resp := w.Search(q.Req())
						ids := eng.Ids(resp.Docs)
						sort.Strings(ids)
						found += len(ids)
						all = append(all, fmt.Sprintf("%d %q", resp.NumDocs, ids))
						if docs, ok := resp.Docs.(types.ScoredDocs); ok {
							for _, d := range docs {
								if lv := w.Live[d.DocId]; lv != nil {
									if s := diffPayload(lv, d); s != "" {
										c.Violate("payload", w.Witness(q, d), "search %s returned %q with %s", q, d.DocId, s)
									}
								}
							}
						}
					}
					if cfg == 0 {
						first, firstDesc = all, w.Desc
					}
					for k := range all {
						if all[k] != first[k] {
							c.Violate("transparency", w.Witness(firstDesc, first[k], all[k]),
								"search %s gives %s with %s but %s with %s", qs[k], first[k], firstDesc, all[k], w.Desc)
						}
					}
					sig := ""
					if found > 0 {
						sig = fmt.Sprint(i, cfg)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "phases": len(phases), "found": found}
					})
					w.E.Close()
				}
			}
		}},
		{Name: "chaos", Run: func(c *h.C) {
			for i := 0; i < c.N(200, 4000) && !c.Violated(); i++ {
				r := c.Rand("h", i)
				v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 2+r.Intn(6))
				o := eng.RandOpts(r)
				o.IndexerOpts.DocCacheSize = 1 + r.Intn(4)
				dl := eng.Delays(r)
				w := eng.NewWorld(c, o, v)
				w.Note("delays: %s", dl)
				for rep := 0; rep < 2; rep++ {
					var wg sync.WaitGroup
					nw := 1 + r.Intn(4)
					for g := 0; g < nw; g++ {
						gr := c.Rand("g", i, rep, g)
						wg.Add(1)
						go func() {
							defer wg.Done()
							for k := 0; k < 40; k++ {
								id := v.IDs[gr.Intn(len(v.IDs))]
								switch gr.Intn(8) {
								case 0, 1, 2:
									w.Do(eng.Step{Remove: true, ID: id, Force: gr.Intn(4) == 0})
								case 3:
									if gr.Intn(4) == 0 {
										w.E.Flush()
									} else {
										w.Search(eng.AndQuery(gr, v, nil).Req())
									}
								default:
									w.Do(eng.Step{ID: id, Ver: w.Shape(gr, eng.NewVer(gr, v, id, w.Next(), w.Doc)), Force: gr.Intn(4) == 0})
								}
							}
						}()
					}
					wg.Wait()
					w.Flush()
					for _, id := range v.IDs {
						w.Do(eng.Step{Remove: true, ID: id, Force: r.Intn(3) == 0})
					}
					w.Flush()
					w.Live = map[string]*eng.Ver{}
					w.CheckPostings()
					w.Apply(w.Plan(r, eng.Mix{Touch: 1, Force: 0.1, Repeat: 2}))
					w.Flush()
					w.CheckPostings()
					checkScores(w, r)
					for _, k := range w.AllKeys() {
						checkPayload(w, eng.Query{Tokens: []string{k}})
					}
					c.Count("live_after", len(w.Live))
				}
				c.Case(fmt.Sprint(i), func() interface{} {
					return map[string]interface{}{"options": w.Desc, "history": w.Log[:min(len(w.Log), 60)]}
				})
				w.E.Close()
			}
			c.Count("hook_points_passed", int(eng.PointHits))
		}},
	}}
