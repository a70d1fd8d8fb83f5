package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// gate is a scoring criteria that holds some documents back.
type gate struct {
	hold    map[string]bool
	open    chan bool
	entered int32
	base    criteria
	slow    time.Duration
}

func (g *gate) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	if g.hold[doc.DocId] {
		atomic.AddInt32(&g.entered, 1)
		<-g.open
	}
	if g.slow > 0 {
		time.Sleep(g.slow)
	}
	return g.base.Score(doc, fields)
}

var c12 = &h.Prop{ID: "C12", Level: "exploration",
	Rule:        "searches whose scoring is held back for chosen documents: without a timeout the search must wait for every shard; with a timeout it must return while the documents are still held, say so, and give only documents, scores and an order that the full result has, including all of the shards that could answer; late answers must neither block the engine nor change what was returned. A case is one search; non-trivial when a held document matches, distinct by corpus, request and held documents.",
	Assumptions: []string{"a shard that is not held back answers within 20 s of its search"},
	Parts:       []h.Part{{Name: "wait", Run: c12Wait}, {Name: "timeout", Run: c12Timeout}, {Name: "staged", Run: c12Staged}, {Name: "late", Run: c12Late}}}

func c12World(c *h.C, r *rand.Rand, minShards int) *eng.World {
	v := eng.NewVocab(r, 2+r.Intn(3), r.Intn(2), 10+r.Intn(40))
	o := eng.RandOpts(r)
	o.NumShards = minShards + r.Intn(4)
	o.NumRankerThreads = 4 // a held ranker must not hold the following search
	o.NumIndexerThreads = 2
	w := eng.NewWorld(c, o, v)
	w.Doc.MaxTok = 5
	w.Apply(w.Plan(r, eng.Mix{Touch: 1, Remove: 0, Force: 0.1, Repeat: 1}))
	w.Flush()
	return w
}

func c12Wait(c *h.C) {
	h.Workers(c.N(400, 3000), 6, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("w", i)
		w := c12World(c, r, 1)
		for k := 0; k < 4; k++ {
			tok := w.V.Tokens[r.Intn(len(w.V.Tokens))]
			q := eng.Query{Tokens: []string{tok}}
			if r.Intn(4) == 0 {
				q = eng.Query{Logic: types.Logic{Expr: types.Expr{Should: w.V.Tokens}}}
			}
			match := q.Eval(w.Live)
			g := &gate{hold: map[string]bool{}, open: make(chan bool), base: criteria{salt: r.Intn(2)}}
			for n := 1 + r.Intn(2); n > 0 && len(match) > 0; n-- {
				g.hold[match[r.Intn(len(match))]] = true
			}
			eff := types.RankOpts{ScoringCriteria: g.base, ReverseOrder: r.Intn(2) == 0,
				OutputOffset: r.Intn(3), MaxOutputs: r.Intn(10)}
			req := q.Req()
			ro := eff
			ro.ScoringCriteria = g
			req.RankOpts = &ro
			req.Timeout = []int{0, 0, -1, -1000, math.MinInt64, 3600000, math.MaxInt32, 1 << 44, math.MaxInt64}[r.Intn(9)]
			var released int32
			done := make(chan types.SearchResp, 1)
			go func() {
				resp := w.E.Search(req)
				if atomic.LoadInt32(&released) == 0 && len(match) > 0 {
					c.Violate("did-not-wait", w.Witness(q, g.hold, req.Timeout), "a search with timeout %d returned while the scoring of %v was still held (search %s)", req.Timeout, g.hold, q)
				}
				done <- resp
			}()
			for t := 0; len(match) > 0 && atomic.LoadInt32(&g.entered) == 0 && t < 20000; t++ {
				time.Sleep(time.Millisecond)
			}
			time.Sleep(3 * time.Millisecond)
			atomic.StoreInt32(&released, 1)
			close(g.open)
			resp := <-done
			h.Progress()
			if resp.Timeout {
				c.Violate("false-timeout", w.Witness(q, req.Timeout), "a search with timeout %d ms that waited for everything says it timed out", req.Timeout)
			}
			checkRankResp(w, resp, q, eff)
			for _, count := range []bool{true, false} { // the modes without scores
				req := q.Req()
				req.CountDocsOnly, req.Orderless = count, !count
				req.Timeout = []int{0, 3600000, math.MaxInt32, math.MaxInt64}[r.Intn(4)]
				resp := w.Search(req)
				ids := eng.Ids(resp.Docs)
				if resp.Timeout || resp.NumDocs != len(match) || count && len(ids) > 0 || !count && !eng.Same(ids, match) {
					c.Violate("modes", w.Witness(q, req.Timeout, count), "a search with timeout %d ms (count only: %v, otherwise orderless) gives %d documents %q and timeout=%v, %d match (search %s)", req.Timeout, count, resp.NumDocs, ids, resp.Timeout, len(match), q)
				}
			}
			sig := ""
			if len(match) > 0 {
				sig = fmt.Sprint(i, k, q, g.hold)
			}
			c.Case(sig, func() interface{} {
				return map[string]interface{}{"options": w.Desc, "query": q.String(), "held": fmt.Sprint(g.hold), "timeout": req.Timeout}
			})
		}
		w.E.Close()
	})
}

func c12Timeout(c *h.C) {
	h.Workers(c.N(192, 1500), 8, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("t", i)
		w := c12World(c, r, 2)
		q := eng.Query{Logic: types.Logic{Expr: types.Expr{Should: append(append([]string{}, w.V.Tokens...), w.V.Labels...)}}}
		base := criteria{salt: []int{0, 1, 5}[r.Intn(3)]}
		all := q.Eval(w.Live)
		missing := map[string][]string{}
		held := 0
		for k := 0; k < 4 && len(all) > 0; k++ {
			id := all[r.Intn(len(all))]
			eff := types.RankOpts{ScoringCriteria: base, ReverseOrder: r.Intn(2) == 0}
			if k == 3 { // cut as well
				eff.OutputOffset, eff.MaxOutputs = r.Intn(4), 1+r.Intn(6)
			}
			one := func(ms int) (types.SearchResp, time.Duration, chan bool, bool) {
				g := &gate{hold: map[string]bool{id: true}, open: make(chan bool), base: base}
				req := q.Req()
				ro := eff
				ro.ScoringCriteria = g
				req.RankOpts = &ro
				req.Timeout = ms
				done := make(chan types.SearchResp, 1)
				t0 := time.Now()
				var el time.Duration
				go func() { resp := w.E.Search(req); el = time.Since(t0); done <- resp }()
				select {
				case resp := <-done:
					h.Progress()
					held++
					return resp, el, g.open, true
				case <-time.After(time.Duration(ms)*time.Millisecond + 60*time.Second):
					close(g.open)
					return types.SearchResp{}, 0, nil, false
				}
			}
			var resp types.SearchResp
			var opens []chan bool
			for _, ms := range []int{40 + r.Intn(60), 2000, 20000} {
				var el time.Duration
				var open chan bool
				var ok bool
				resp, el, open, ok = one(ms)
				if !ok {
					c.Violate("no-timeout", w.Witness(q, id), "a search with a timeout of %d ms did not return for a minute while the scoring of %q was held", ms, id)
					return
				}
				opens = append(opens, open)
				if !resp.Timeout {
					c.Violate("timeout-not-reported", w.Witness(q, id, ms), "a search that was cut short by its timeout of %d ms does not say so", ms)
				}
				if el < time.Duration(ms)*time.Millisecond {
					c.Violate("early", w.Witness(q, id, ms, el), "a search with a timeout of %d ms gave up after %v", ms, el)
				}
				if k == 3 {
					break
				}
				// every document of the shards that were not held should be there
				seen := map[string]bool{}
				for _, d := range eng.Ids(resp.Docs) {
					seen[d] = true
				}
				var miss []string
				for _, d := range all {
					if !seen[d] {
						miss = append(miss, d)
					}
				}
				missing[id] = miss
				if consistent(missing, len(all)) == "" {
					break
				}
			}
			before := fmt.Sprintf("%+v", resp)
			checkPartial(w, resp, q, eff, id, all)
			for _, o := range opens {
				close(o)
			}
			// the engine still answers, and completely
			req := q.Req()
			ro := types.RankOpts{ScoringCriteria: base}
			req.RankOpts = &ro
			checkRankResp(w, w.Search(req), q, ro)
			if after := fmt.Sprintf("%+v", resp); after != before {
				c.Violate("late-answer", w.Witness(before, after), "a response changed after it was returned, when a late shard answered")
			}
			c.Case(fmt.Sprint(i, k, id), func() interface{} {
				return map[string]interface{}{"options": w.Desc, "held": id, "matches": len(all), "returned": len(eng.Ids(resp.Docs)), "missing": missing[id]}
			})
		}
		if s := consistent(missing, len(all)); s != "" {
			c.Violate("missing", w.Witness(missing), "%s", s)
		}
		c.Count("searches_cut_short", held)
		w.E.Close()
	})
}

// c12Late: search after search in which no shard answers before the timeout,
// more of them than there are workers; every late answer must find its way,
// and the engine must go on answering.
func c12Late(c *h.C) {
	h.Workers(c.N(120, 800), 6, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("l", i)
		v := eng.NewVocab(r, 2+r.Intn(3), r.Intn(2), 3+r.Intn(12))
		o := eng.RandOpts(r)
		o.NumShards = 1 + r.Intn(3)
		w := eng.NewWorld(c, o, v)
		w.Apply(w.Plan(r, eng.Mix{Touch: 1, Force: 0.1, Repeat: 1}))
		w.Flush()
		q := eng.Query{Logic: types.Logic{Expr: types.Expr{Should: append(append([]string{}, v.Tokens...), v.Labels...)}}}
		base := criteria{salt: r.Intn(2)}
		all := q.Eval(w.Live)
		cut := 0
		// saturated: nothing is let go before the end, so that the queues
		// fill up behind the busy workers
		saturate := r.Intn(2) == 0
		rounds := o.NumRankerThreads*2 + 3
		if saturate {
			rounds = o.NumRankerThreads + o.RankerBufLen + o.NumIndexerThreads + o.IndexerBufLen + 3
		}
		var opens []chan bool
		for k := 0; k < rounds && len(all) > 0; k++ {
			g := &gate{hold: map[string]bool{}, open: make(chan bool), base: base}
			for _, id := range all {
				g.hold[id] = true
			}
			req := q.Req()
			req.RankOpts = &types.RankOpts{ScoringCriteria: g}
			req.Timeout = 2 + r.Intn(10)
			c.Phase("a search no shard answers in %d ms, %s", req.Timeout, w.Desc)
			done := make(chan types.SearchResp, 1)
			go func() { done <- w.E.Search(req) }()
			var resp types.SearchResp
			select {
			case resp = <-done:
				h.Progress()
			case <-time.After(60 * time.Second):
				c.Violate("no-timeout", w.Witness(q), "a search with a timeout of %d ms did not return for a minute behind %d others that are held", req.Timeout, len(opens))
				close(g.open)
				for _, o := range opens {
					close(o)
				}
				return
			}
			if !resp.Timeout {
				c.Violate("timeout-not-reported", w.Witness(q, req.Timeout), "a search that was cut short by its timeout of %d ms does not say so", req.Timeout)
			}
			for _, id := range eng.Ids(resp.Docs) {
				c.Violate("partial-set", w.Witness(q, id), "the result of a timed out search holds %q, which was never scored", id)
			}
			cut++
			if saturate {
				opens = append(opens, g.open)
				continue
			}
			close(g.open)
			if r.Intn(3) == 0 {
				c.Phase("a search without timeout after %d that were cut short, %s", cut, w.Desc)
				ro := types.RankOpts{ScoringCriteria: base}
				req := q.Req()
				req.RankOpts = &ro
				checkRankResp(w, w.Search(req), q, ro)
			}
		}
		for _, o := range opens {
			close(o)
		}
		c.Phase("a search without timeout after %d that were cut short, %s", cut, w.Desc)
		ro := types.RankOpts{ScoringCriteria: base}
		req := q.Req()
		req.RankOpts = &ro
		checkRankResp(w, w.Search(req), q, ro)
		w.CheckPostings()
		sig := ""
		if cut > 0 {
			sig = fmt.Sprint(i)
		}
		c.Count("searches_without_any_answer_in_time", cut)
		c.Case(sig, func() interface{} {
			return map[string]interface{}{"options": w.Desc, "matches": len(all), "cut_short": cut}
		})
		w.E.Close()
	})
}

// stages lets the rankers finish one after the other: the n-th goroutine that
// asks for a score gets its answer n steps after the start.
type stages struct {
	sync.Mutex
	start time.Time
	step  time.Duration
	at    map[string]int
	base  criteria
}

func (s *stages) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	g := goid()
	s.Lock()
	n, ok := s.at[g]
	if !ok {
		n = len(s.at) + 1
		s.at[g] = n
	}
	s.Unlock()
	if d := time.Until(s.start.Add(time.Duration(n) * s.step)); d > 0 {
		time.Sleep(d)
	}
	return s.base.Score(doc, fields)
}

func goid() string {
	b := make([]byte, 64)
	return strings.Fields(string(b[:runtime.Stack(b, false)]))[1]
}

// c12Staged: every shard answers within a timeout of the one before it, but
// all of them together take several timeouts. The search must still stop at
// its timeout. A machine that stalls for that long could make a right search
// look late, so only one that is late three times, each time with a longer
// timeout, is reported.
func c12Staged(c *h.C) {
	h.Workers(c.N(24, 120), 6, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("s", i)
		w := c12World(c, r, 6)
		q := eng.Query{Logic: types.Logic{Expr: types.Expr{Should: append(append([]string{}, w.V.Tokens...), w.V.Labels...)}}}
		base := criteria{salt: r.Intn(2)}
		all := q.Eval(w.Live)
		var s *stages
		var resp types.SearchResp
		late := ""
		for _, ms := range []int{150 + r.Intn(100), 700, 3000} {
			T := time.Duration(ms) * time.Millisecond
			s = &stages{start: time.Now(), step: T * 6 / 10, at: map[string]int{}, base: base}
			req := q.Req()
			req.RankOpts = &types.RankOpts{ScoringCriteria: s}
			req.Timeout = ms
			resp = w.E.Search(req)
			el := time.Since(s.start)
			h.Progress()
			s.Lock()
			n := len(s.at)
			s.Unlock()
			last := time.Duration(n) * s.step
			late = ""
			if n < 5 { // too few shards have a match for this to take several timeouts
				break
			}
			if !resp.Timeout {
				late = fmt.Sprintf("did not time out after %d ms although %d shards took %v to answer", ms, n, last)
			} else if el >= last {
				late = fmt.Sprintf("with a timeout of %d ms returned after %v, when all %d shards had answered", ms, el, n)
			}
			if late == "" {
				break
			}
		}
		if late != "" {
			c.Violate("late", w.Witness(q), "a search %s (three times, with longer and longer timeouts)", late)
		}
		if resp.Timeout {
			checkPartial(w, resp, q, types.RankOpts{ScoringCriteria: base}, "", all)
		}
		sig := ""
		s.Lock()
		if n := len(s.at); n >= 5 {
			sig = fmt.Sprint(i, n)
			c.Count("staged_shards", n)
		}
		s.Unlock()
		c.Case(sig, func() interface{} {
			return map[string]interface{}{"options": w.Desc, "matches": len(all), "returned": len(eng.Ids(resp.Docs))}
		})
		w.E.Close()
	})
}

// consistent checks that holding one document loses exactly its shard: the
// held document is missing, documents missing with it are missing for each
// other, and something of the other shards is there.
func consistent(missing map[string][]string, total int) string {
	for id, m := range missing {
		in := false
		for _, d := range m {
			in = in || d == id
			if o, ok := missing[d]; ok && !eng.Same(o, m) {
				return fmt.Sprintf("holding %q loses %q but holding %q loses %q", id, m, d, o)
			}
		}
		if !in {
			return fmt.Sprintf("the document %q was returned although its scoring never ended", id)
		}
		if len(m) == total && total >= 10 {
			return fmt.Sprintf("with %q held back, none of the %d other documents was returned", id, total-1)
		}
	}
	return ""
}

// checkPartial: documents, scores and order of the partial result are those
// of the full one with some documents missing.
func checkPartial(w *eng.World, resp types.SearchResp, q eng.Query, eff types.RankOpts, held string, all []string) {
	cr := eff.ScoringCriteria.(criteria)
	docs := eng.ScoredOf(resp.Docs)
	match := map[string]bool{}
	for _, id := range all {
		match[id] = true
	}
	seen := map[string]bool{}
	for i, d := range docs {
		if !match[d.DocId] || seen[d.DocId] || d.DocId == held {
			w.C.Violate("partial-set", w.Witness(q, docs), "the result of a timed out search holds %q, which is no match, repeated, or was never scored", d.DocId)
		}
		seen[d.DocId] = true
		if v := w.Live[d.DocId]; v != nil {
			if s := cr.of(v.Data.Fields.(eng.Payload)); !eqScores(s, d.Scores) {
				w.C.Violate("partial-scores", w.Witness(q, docs), "the result of a timed out search gives %q the scores %v, not %v", d.DocId, d.Scores, s)
			}
		}
		if i > 0 {
			a, b := docs[i-1].Scores, d.Scores
			if eff.ReverseOrder {
				a, b = b, a
			}
			if before(b, a) {
				w.C.Violate("partial-order", w.Witness(q, docs), "the result of a timed out search is not in order: %v", docs)
			}
		}
	}
	if eff.MaxOutputs > 0 && len(docs) > eff.MaxOutputs {
		w.C.Violate("partial-limit", w.Witness(q, docs), "a timed out search with limit %d returned %d documents", eff.MaxOutputs, len(docs))
	}
	if resp.NumDocs > len(all) || eff.MaxOutputs == 0 && resp.NumDocs != len(docs)+min(eff.OutputOffset, resp.NumDocs) {
		w.C.Violate("partial-count", w.Witness(q, docs, resp.NumDocs), "a timed out search counts %d documents, returns %d, and %d match", resp.NumDocs, len(docs), len(all))
	}
}
