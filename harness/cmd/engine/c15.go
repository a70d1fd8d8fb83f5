package main

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

var c15 = &h.Prop{ID: "C15", Level: "exploration",
	Rule: "a set of stable documents, indexed and flushed once, next to documents that several goroutines index, replace and remove all the time while searches run, under injected delays. Every search during the churn must return each matching stable document exactly once, with its own payload, scores, locations and place in the order; every churned document it returns must be one version that was current at some moment of the search or before it, its keys, payload and scores of versions that were issued and not yet replaced before the last Flush, and at most once. A case is one search during the churn; non-trivial when churned documents match too, distinct by history and query.",
	Parts: []h.Part{
		{Name: "engine", Run: func(c *h.C) { c15Run(c, c.N(700, 8000), "") }},
		{Name: "long", Run: func(c *h.C) { c15Run(c, c.N(40, 500), "long") }},
		{Name: "slow", Run: func(c *h.C) { c15Run(c, c.N(180, 2000), "slow") }},
	}}

// c15Run works on short lists in many configurations, on long ones, where a
// search walks while entries move, or with searches that take long in some of
// the shards while documents are removed and indexed again.
func c15Run(c *h.C, n int, mode string) {
	var churn, withChurn int64
	for i := 0; i < n && !c.Violated(); i++ {
		r := c.Rand("h", i)
		v := eng.NewVocab(r, 3+r.Intn(4), r.Intn(3), 8+r.Intn(30))
		o := eng.RandOpts(r)
		writes, searches, rounds, removes := 12, 400, 3, 4
		if mode == "long" {
			v = eng.NewVocab(r, 1+r.Intn(3), r.Intn(2), 150+r.Intn(300))
			o.NumShards = 1 + r.Intn(2)
			writes, searches = 150, 2000
		}
		if mode == "slow" {
			v = eng.NewVocab(r, 1+r.Intn(3), r.Intn(2), 2+r.Intn(8))
			o.NumShards = 2 + r.Intn(5)
			writes, searches, rounds, removes = 1, 400, 80, 2
		}
		o.IDOnly = r.Intn(4) == 0
		dl := eng.Delays(r)
		if mode == "slow" {
			dl = eng.DelayLong(r, []string{"indexer.lookup", "ranker.rank"}[r.Intn(2)])
		}
		w := eng.NewWorld(c, o, v)
		w.Note("delays: %s", dl)
		stable := map[string]*eng.Ver{}
		var churned []string
		for k, id := range v.IDs {
			if k%2 == 0 {
				ver := eng.NewVer(r, v, id, w.Next(), w.Doc)
				w.Do(eng.Step{ID: id, Ver: ver})
				stable[id] = ver
			} else {
				churned = append(churned, id)
			}
		}
		w.Flush()
		// versions of the churned documents: issued[id] lists them in order;
		// floor[id] is the first one that may still be seen
		var mu sync.Mutex
		issued := map[string][]*eng.Ver{}
		floor := map[string]int{}
		nw := 1 + r.Intn(3)
		var left int32 = int32(nw)
		var wg sync.WaitGroup
		for g := 0; g < nw; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer atomic.AddInt32(&left, -1)
				r := c.Rand("w", i, g)
				var mine []string
				for k, id := range churned {
					if k%nw == g {
						mine = append(mine, id)
					}
				}
				if len(mine) == 0 {
					return
				}
				for round := 0; round < rounds && !c.Violated(); round++ {
					dirty := map[string]bool{}
					for n := 0; n < writes; n++ {
						id := mine[r.Intn(len(mine))]
						atomic.AddInt64(&churn, 1)
						mu.Lock()
						l := issued[id]
						mu.Unlock()
						if r.Intn(removes) == 0 && !dirty[id] {
							mu.Lock()
							issued[id] = append(issued[id], nil)
							mu.Unlock()
							w.Do(eng.Step{Remove: true, ID: id, Force: r.Intn(3) == 0})
							dirty[id] = true
						} else if !(dirty[id] && len(l) > 0 && l[len(l)-1] == nil) {
							ver := eng.NewVer(r, v, id, w.Next(), w.Doc)
							mu.Lock()
							issued[id] = append(issued[id], ver)
							mu.Unlock()
							w.Do(eng.Step{ID: id, Ver: ver, Force: r.Intn(3) == 0})
							dirty[id] = true
						}
					}
					w.E.Flush()
					h.Progress()
					mu.Lock()
					for id := range dirty {
						floor[id] = len(issued[id]) - 1
					}
					mu.Unlock()
				}
			}(g)
		}
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := c.Rand("r", i, g)
				for n := 0; (atomic.LoadInt32(&left) > 0 || n < 3) && n < searches && !c.Violated(); n++ {
					var q eng.Query
					if r.Intn(3) == 0 {
						q = eng.LogicQuery(r, v)
						q.DocIds = nil
					} else {
						q = eng.AndQuery(r, v, stable)
					}
					mu.Lock()
					fl := map[string]int{}
					for id, f := range floor {
						fl[id] = f
					}
					mu.Unlock()
					req := q.Req()
					req.RankOpts = &types.RankOpts{ScoringCriteria: criteria{salt: 1}, ReverseOrder: r.Intn(3) == 0}
					req.Orderless = r.Intn(6) == 0
					resp := w.Search(req)
					mu.Lock()
					is := map[string][]*eng.Ver{}
					for id, l := range issued {
						is[id] = l[:len(l):len(l)]
					}
					mu.Unlock()
					k := checkChurn(w, q, *req.RankOpts, req.Orderless, resp, stable, is, fl)
					sig := ""
					if k > 0 {
						sig = fmt.Sprint(i, g, n, q)
						atomic.AddInt64(&withChurn, 1)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "delays": dl, "query": q.String(), "returned": len(eng.Ids(resp.Docs)), "churned_among_them": k}
					})
				}
			}(g)
		}
		wg.Wait()
		w.E.Flush()
		// in the end everything is exact again
		for id, ver := range stable {
			w.Live[id] = ver
		}
		for id, l := range issued {
			if last := l[len(l)-1]; last != nil {
				w.Live[id] = last
			}
		}
		w.CheckPostings()
		w.E.Close()
	}
	c.Count("writes_during_searches", int(churn))
	c.Count("searches_with_churned_documents", int(withChurn))
	c.Count("hook_points_passed", int(eng.PointHits))
}

// checkChurn returns the number of churned documents in the response.
func checkChurn(w *eng.World, q eng.Query, eff types.RankOpts, orderless bool, resp types.SearchResp,
	stable map[string]*eng.Ver, issued map[string][]*eng.Ver, floor map[string]int) int {
	docs := eng.ScoredOf(resp.Docs)
	full, _ := resp.Docs.(types.ScoredDocs) // not of an engine that keeps ids only
	fail := func(key, format string, args ...interface{}) {
		w.C.Violate(key, w.Witness(q, docs), "during concurrent writes, search %s: %s", q, fmt.Sprintf(format, args...))
	}
	seen := map[string]bool{}
	var ids []string
	churned := 0
	for k, d := range docs {
		if seen[d.DocId] {
			fail("twice", "%q is returned twice", d.DocId)
			return churned
		}
		seen[d.DocId] = true
		var p eng.Payload
		if ver := stable[d.DocId]; ver != nil {
			ids = append(ids, d.DocId)
			if full != nil && !orderless {
				if s := diffPayload(ver, full[k]); s != "" {
					fail("stable-payload", "the untouched document %q: %s", d.DocId, s)
				}
			}
			p, _ = ver.Data.Fields.(eng.Payload)
			if !q.IsLogic() && w.Opts.IndexerOpts.IndexType == types.LocsIndex {
				for t, tok := range q.Tokens {
					if exp := ver.Keys[tok]; t < len(d.TokenLocs) && fmt.Sprint(d.TokenLocs[t]) != fmt.Sprint(exp) {
						fail("stable-locations", "the untouched document %q has %q at %v, reported %v", d.DocId, tok, exp, d.TokenLocs[t])
					}
				}
			}
		} else {
			churned++
			l := issued[d.DocId]
			fit := -1
			if orderless { // it carries no scores and no payload
				fit = 0
			}
			for n := floor[d.DocId]; n < len(l) && !orderless; n++ {
				if l[n] == nil {
					continue
				}
				f, ok := l[n].Data.Fields.(eng.Payload)
				if full != nil {
					var is eng.Payload
					is, ok = full[k].Fields.(eng.Payload)
					ok = ok && l[n].N == is.N
				} else { // the scores tell the version
					ok = ok && eqScores((criteria{salt: 1}).of(f), d.Scores)
				}
				if ok {
					fit, p = n, f
				}
			}
			if fit < 0 {
				fail("churned-version", "%q with the scores %v is not of a version that can be current (issued %v, flushed up to %d)", d.DocId, d.Scores, versions(l), floor[d.DocId])
				return churned
			}
			if full != nil && !orderless {
				if s := diffPayload(l[fit], full[k]); s != "" {
					fail("churned-payload", "%q carries a mixture of versions: %s", d.DocId, s)
				}
			}
			key := false
			for n := floor[d.DocId]; n < len(l); n++ {
				key = key || l[n] != nil && q.Match(l[n])
			}
			if !key || !q.In(d.DocId) {
				fail("churned-keys", "%q matches in no version that can be current (issued %v, flushed up to %d)", d.DocId, versions(l), floor[d.DocId])
			}
		}
		if s := (criteria{salt: 1}).of(p); !orderless && !eqScores(s, d.Scores) {
			fail("scores", "%q carries the scores %v and fields that give %v", d.DocId, d.Scores, s)
		}
		if k > 0 && !orderless {
			a, b := docs[k-1].Scores, d.Scores
			if eff.ReverseOrder {
				a, b = b, a
			}
			if before(b, a) {
				fail("order", "not in order of the scores at %d", k)
			}
		}
	}
	want := q.Eval(stable)
	sort.Strings(ids)
	if !eng.Same(ids, want) {
		key := "stable-set"
		if q.ShouldOnly() && q.DocIds != nil {
			key = "should-only"
		}
		fail(key, "of the untouched documents it returned %q, expected %q", ids, want)
	}
	if resp.NumDocs != len(docs) {
		fail("num-docs", "it counted %d and returned %d", resp.NumDocs, len(docs))
	}
	return churned
}

func versions(l []*eng.Ver) (out []string) {
	for _, v := range l {
		if v == nil {
			out = append(out, "removed")
		} else {
			out = append(out, fmt.Sprint("v", v.N))
		}
	}
	return
}
