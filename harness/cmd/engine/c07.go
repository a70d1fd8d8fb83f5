package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// anyPayload draws fields, attributes and content of any shape.
func anyPayload(r *rnd, d *eng.Ver) {
	val := func() interface{} {
		switch r.Intn(9) {
		case 0:
			return nil
		case 1:
			return d.N
		case 2:
			return fmt.Sprint("s", d.N)
		case 3:
			return map[string]int{d.ID: d.N}
		case 4:
			return []float64{float64(d.N), 0.5}
		case 5:
			return types.Attri{Title: d.ID, Ts: int64(d.N)}
		case 6:
			return &eng.Payload{ID: d.ID, N: d.N}
		case 7:
			return ""
		}
		return eng.Payload{ID: d.ID, N: d.N}
	}
	d.Data.Fields, d.Data.Attri = val(), val()
	switch r.Intn(4) {
	case 0:
		d.Data.Content = ""
	case 1:
		d.Data.Content = fmt.Sprintf("内容 %d\x00\n\xff", d.N)
	}
}

type one struct{}

func (one) Score(types.IndexedDoc, interface{}) []float32 { return []float32{1} }

var c07 = &h.Prop{ID: "C07", Level: "exploration",
	Rule: "documents with payloads of any shape (nil, scalars, maps, pointers, invalid UTF-8) are indexed, replaced and removed; every document returned by any search must carry exactly the content, fields and attributes of its live version, the fields given to the scoring criteria included, and an id-only engine must return the same ids. A case is one search; non-trivial when documents were returned, distinct by history and query.",
	Parts: []h.Part{{Name: "engine", Run: func(c *h.C) {
		for i := 0; i < c.N(1000, 10000) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 2+r.Intn(5), r.Intn(3), 3+r.Intn(14))
			o := eng.RandOpts(r)
			o.IDOnly = r.Intn(8) == 0
			eng.Delays(r)
			w := eng.NewWorld(c, o, v)
			for ph := 0; ph < 1+r.Intn(4); ph++ {
				w.Apply(w.Plan(r, eng.Mix{Touch: 0.8, Remove: 0.25, Force: 0.15, Repeat: 3,
					NewVerFn: func(r *rnd, id string, n int) *eng.Ver {
						d := eng.NewVer(r, v, id, n, w.Doc)
						anyPayload(r, d)
						return d
					}}))
				w.Flush()
				for k := 0; k < 10; k++ {
					q := eng.AndQuery(r, v, w.Live)
					if k%3 == 0 {
						q = eng.Query{}
						q.Logic.Expr.Should = append(append([]string{}, v.Tokens...), v.Labels...)
					}
					req := q.Req()
					req.RankOpts = &types.RankOpts{ScoringCriteria: fieldsCheck{w, q}}
					resp := w.Search(req)
					ids := eng.Ids(resp.Docs)
					if o.IDOnly {
						if _, ok := resp.Docs.(types.ScoredIDs); !ok {
							c.Violate("id-only", w.Witness(q, resp), "an id-only engine returned %T", resp.Docs)
						}
						if !eng.Same(ids, q.Eval(w.Live)) {
							c.Violate("result-set", w.Witness(q, ids), "id-only search %s returned %q", q, ids)
						}
					} else {
						docs, ok := resp.Docs.(types.ScoredDocs)
						if !ok {
							c.Violate("doc-type", w.Witness(q, resp), "the engine returned %T", resp.Docs)
						}
						for _, d := range docs {
							lv := w.Live[d.DocId]
							if lv == nil {
								c.Violate("dead-doc", w.Witness(q, d), "search %s returned %q, which is not indexed", q, d.DocId)
							} else if s := diffPayload(lv, d); s != "" {
								c.Violate("payload", w.Witness(q, d), "search %s returned %q with %s", q, d.DocId, s)
							} else if p, ok := lv.Data.Fields.(*eng.Payload); ok && d.Fields != interface{}(p) {
								c.Violate("payload", w.Witness(q, d), "search %s returned %q with another fields pointer", q, d.DocId)
							}
						}
					}
					sig := ""
					if len(ids) > 0 {
						sig = fmt.Sprint(i, ph, q)
					}
					c.Count("docs", len(ids))
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "query": q.String(), "docs": fmt.Sprintf("%+v", resp.Docs)}
					})
				}
			}
			w.E.Close()
		}
	}}}}

type fieldsCheck struct {
	w *eng.World
	q eng.Query
}

func (f fieldsCheck) Score(d types.IndexedDoc, fields interface{}) []float32 {
	lv := f.w.Live[d.DocId]
	if lv != nil && fmt.Sprintf("%T%+v", fields, fields) != fmt.Sprintf("%T%+v", lv.Data.Fields, lv.Data.Fields) {
		f.w.C.Violate("fields-given-to-criteria", f.w.Witness(f.q, fields), "scoring %q was given fields %T%+v", d.DocId, fields, fields)
	}
	return []float32{1}
}

var c10 = &h.Prop{ID: "C10", Level: "exploration",
	Rule: "one search asked in every mode: plain, counting only, unordered, with a limit, with a timeout, through SearchDoc or SearchID, twice, and on an id-only engine of the same history; set, count, searched tokens and scores must agree. A case is one search in all modes; non-trivial when documents match, distinct by history and query.",
	Parts: []h.Part{{Name: "engine", Run: func(c *h.C) {
		for i := 0; i < c.N(350, 7000) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 2+r.Intn(5), r.Intn(3), 3+r.Intn(14))
			o := eng.RandOpts(r)
			o.NumShards = 1 + r.Intn(2)*r.Intn(4)
			o.IDOnly = false
			eng.Delays(r)
			w := eng.NewWorld(c, o, v)
			o2 := o
			o2.IDOnly = true
			x := &riot.Engine{}
			x.Init(o2)
			for ph := 0; ph < 1+r.Intn(3); ph++ {
				plan := w.Plan(r, eng.Mix{Touch: 0.8, Remove: 0.25, Force: 0.15, Repeat: 2})
				w.Apply(plan)
				for _, l := range plan {
					for _, s := range l {
						if s.Remove {
							x.RemoveDoc(s.ID, s.Force)
						} else {
							x.Index(s.ID, s.Ver.Data, s.Force)
						}
					}
				}
				w.Flush()
				x.Flush()
				for k := 0; k < 10; k++ {
					q := eng.AndQuery(r, v, w.Live)
					if r.Intn(3) == 0 {
						q = eng.LogicQuery(r, v)
						q.DocIds = nil
					}
					n := checkAllModes(w, x, q, o.NumShards == 1, r)
					sig := ""
					if n > 0 {
						sig = fmt.Sprint(i, ph, q)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "query": q.String(), "docs": n}
					})
				}
			}
			w.E.Close()
			x.Close()
		}
	}}}}

func scoreLines(docs []types.ScoredID, scores bool) []string {
	var out []string
	for _, d := range docs {
		if scores {
			out = append(out, fmt.Sprintf("%q %v %v %v", d.DocId, d.Scores, d.TokenSnippetLocs, d.TokenLocs))
		} else {
			out = append(out, fmt.Sprintf("%q %v %v", d.DocId, d.TokenSnippetLocs, d.TokenLocs))
		}
	}
	sort.Strings(out)
	return out
}

func checkAllModes(w *eng.World, x *riot.Engine, q eng.Query, sameShard bool, r *rnd) int {
	base := q.Req()
	resp := w.Search(base)
	full := eng.ScoredOf(resp.Docs)
	want := fmt.Sprintf("%q", scoreLines(full, true))
	wantLoc := fmt.Sprintf("%q", scoreLines(full, false))
	fail := func(key, format string, args ...interface{}) {
		w.C.Violate(key, w.Witness(q, resp), "search %s (%d documents): %s", q, len(full), fmt.Sprintf(format, args...))
	}
	if resp.NumDocs != len(full) {
		fail("num-docs", "counts %d", resp.NumDocs)
	}
	if !eng.Same(eng.Ids(resp.Docs), q.Eval(w.Live)) {
		fail("result-set", "the live documents give %q", q.Eval(w.Live))
	}
	tok := fmt.Sprintf("%q", resp.Tokens)
	if tok != fmt.Sprintf("%q", q.Tokens) {
		fail("tokens", "reports the tokens %s", tok)
	}
	// again
	if got := fmt.Sprintf("%q", scoreLines(eng.ScoredOf(w.Search(base).Docs), true)); got != want {
		fail("repeat", "a second time it gives %s instead of %s", got, want)
	}
	// count only
	cr := base
	cr.CountDocsOnly = true
	cr.Orderless = r.Intn(2) == 0
	cr.Timeout = r.Intn(2) * 3600000
	cresp := w.Search(cr)
	if cresp.NumDocs != len(full) || len(eng.Ids(cresp.Docs)) != 0 || cresp.Timeout {
		fail("count-only", "counting only gives %+v", cresp)
	}
	// unordered, limits do not apply
	or := base
	or.Orderless = true
	or.Timeout = r.Intn(2) * 3600000
	if r.Intn(2) == 0 {
		or.RankOpts = &types.RankOpts{MaxOutputs: 1, OutputOffset: r.Intn(3)}
	}
	oresp := w.Search(or)
	if got := fmt.Sprintf("%q", scoreLines(eng.ScoredOf(oresp.Docs), false)); got != wantLoc || oresp.NumDocs != len(full) {
		fail("orderless", "unordered it gives %s (%d) instead of %s", got, oresp.NumDocs, wantLoc)
	}
	if a, b := fmt.Sprintf("%q", cresp.Tokens), fmt.Sprintf("%q", oresp.Tokens); a != tok || b != tok {
		fail("tokens", "reports the tokens %s, but %s when counting only and %s unordered", tok, a, b)
	}
	// a limit does not change the count
	lr := base
	lr.RankOpts = &types.RankOpts{MaxOutputs: 1 + r.Intn(3), OutputOffset: r.Intn(3)}
	lresp := w.Search(lr)
	lo := min(lr.RankOpts.OutputOffset, len(full))
	if n := len(eng.Ids(lresp.Docs)); lresp.NumDocs != len(full) || n != min(lr.RankOpts.MaxOutputs, len(full)-lo) || fmt.Sprintf("%q", lresp.Tokens) != tok {
		fail("limit", "with %+v it counts %d and returns %d", lr.RankOpts, lresp.NumDocs, n)
	}
	// a timeout that is not reached changes nothing
	tr := base
	tr.Timeout = 3600000
	tresp := w.Search(tr)
	if got := fmt.Sprintf("%q", scoreLines(eng.ScoredOf(tresp.Docs), true)); got != want || tresp.Timeout || tresp.NumDocs != len(full) || fmt.Sprintf("%q", tresp.Tokens) != tok {
		fail("timeout", "with a long timeout it gives %s, timeout=%v", got, tresp.Timeout)
	}
	// SearchDoc
	var sd types.SearchDoc
	var sid types.SearchID
	riot.Try(func() { sd = w.E.SearchDoc(base) }, func(e interface{}) { fail("search-doc", "SearchDoc panicked: %v", e) })
	var sds []types.ScoredID
	for _, d := range sd.Docs {
		sds = append(sds, d.ScoredID)
	}
	if got := fmt.Sprintf("%q", scoreLines(sds, true)); got != want || sd.NumDocs != len(full) || fmt.Sprintf("%q", sd.Tokens) != tok {
		fail("search-doc", "SearchDoc gives %s", got)
	}
	riot.Try(func() { sid = x.SearchID(base) }, func(e interface{}) { fail("search-id", "SearchID panicked: %v", e) })
	if got := fmt.Sprintf("%q", scoreLines(sid.Docs, sameShard)); sameShard && got != want || !sameShard && got != wantLoc || sid.NumDocs != len(full) || fmt.Sprintf("%q", sid.Tokens) != tok {
		fail("search-id", "SearchID on an id-only engine gives %s instead of %s", got, want)
	}
	// every typed or id-only search, in every mode
	for _, m := range []struct {
		name string
		req  types.SearchReq
	}{{"counting only", cr}, {"unordered", or}, {"with a limit", lr}, {"with a long timeout", tr}} {
		check := func(api string, ds []types.ScoredID, b types.BaseResp) {
			bad := b.NumDocs != len(full) || b.Timeout || fmt.Sprintf("%q", b.Tokens) != tok
			switch {
			case m.req.CountDocsOnly:
				bad = bad || len(ds) != 0
			case m.req.Orderless:
				bad = bad || fmt.Sprintf("%q", scoreLines(ds, false)) != wantLoc
			case m.req.RankOpts != nil:
				bad = bad || len(ds) != min(lr.RankOpts.MaxOutputs, len(full)-lo)
				for _, d := range ds {
					bad = bad || !strings.Contains(wantLoc, fmt.Sprintf("%q", fmt.Sprintf("%q %v %v", d.DocId, d.TokenSnippetLocs, d.TokenLocs)))
				}
			default:
				bad = bad || fmt.Sprintf("%q", scoreLines(ds, false)) != wantLoc
			}
			if bad {
				fail("typed-modes", "%s %s gives %+v with %d documents %v", api, m.name, b, len(ds), ds)
			}
		}
		riot.Try(func() { sd = w.E.SearchDoc(m.req) }, func(e interface{}) { fail("search-doc", "SearchDoc %s panicked: %v", m.name, e) })
		sds = sds[:0]
		for _, d := range sd.Docs {
			sds = append(sds, d.ScoredID)
		}
		check("SearchDoc", sds, sd.BaseResp)
		riot.Try(func() { sid = x.SearchID(m.req) }, func(e interface{}) { fail("search-id", "SearchID %s panicked: %v", m.name, e) })
		check("SearchID", sid.Docs, sid.BaseResp)
		xresp := x.Search(m.req)
		check("Search on an id-only engine", eng.ScoredOf(xresp.Docs), xresp.BaseResp)
	}
	h.Progress()
	return len(full)
}
