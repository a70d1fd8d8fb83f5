package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// criteria scores by the fields alone, so that the model can compute it.
type criteria struct {
	salt int
	bad  func(string) // called when the fields are not those of a version
}

func (s criteria) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	p, ok := fields.(eng.Payload)
	if !ok || p.ID != doc.DocId {
		if s.bad != nil {
			s.bad(fmt.Sprintf("scoring %q was given fields %T%+v", doc.DocId, fields, fields))
		}
		return nil
	}
	return s.of(p)
}

func (s criteria) of(p eng.Payload) []float32 {
	switch s.salt % criteriaKinds {
	case 0:
		return []float32{p.B}
	case 1:
		return []float32{p.A, p.B}
	case 2: // some documents are dropped
		if int(p.B)%3 == 0 {
			return nil
		}
		return []float32{p.A}
	case 3: // all tie
		return []float32{1}
	case 4: // different lengths
		out := []float32{p.A}
		for i := 0; i < int(p.B)%3; i++ {
			out = append(out, float32(int(p.B)%2))
		}
		return out
	case 5:
		return []float32{-p.A, -p.B, float32(p.N)}
	case 6: // all dropped
		if int(p.A) < 4 {
			return []float32{}
		}
		return []float32{float32(math.Inf(1)), p.B}
	}
	if s.salt%criteriaKinds == 8 { // equal for a long time, then different or shorter
		n := 3 + s.salt/criteriaKinds%6
		out := make([]float32, n, n+2)
		out = append(out, p.B)
		if int(p.A)%2 == 0 {
			out = append(out, p.A)
		}
		return out
	}
	if s.salt%criteriaKinds == 9 { // neighbouring numbers
		x := float32(s.salt%7) + 1
		for i := 0; i < int(p.B)%5; i++ {
			x = math.Nextafter32(x, 100)
		}
		return []float32{x, -p.A}
	}
	return []float32{p.A * 1e-38, p.B * 1e30, float32(p.N)}
}

const criteriaKinds = 10

// before is the documented order: the first score that differs decides,
// larger first; with a common prefix the longer one comes first.
func before(a, b []float32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return len(a) > len(b)
}

func eqScores(a, b []float32) bool { return !before(a, b) && !before(b, a) && len(a) == len(b) }

var c06 = &h.Prop{ID: "C06", Level: "exploration",
	Rule: "random corpora scored by criteria over the documents' fields, with ties, scores of different lengths and dropped documents; searches with every kind of order, offset and limit, given in the request or as engine defaults. The model sorts the matching documents itself; the score sequence must be equal, every document must carry its own scores, and documents whose rank is unique must sit exactly there. A case is one search; non-trivial when at least two documents score, distinct by corpus and request.",
	Parts: []h.Part{{Name: "engine", Run: func(c *h.C) {
		for i := 0; i < c.N(800, 8000) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 2+r.Intn(3), r.Intn(3), 3+r.Intn(40))
			o := eng.RandOpts(r)
			bad := func(s string) { c.Violate("fields-given-to-criteria", nil, "%s", s) }
			def := types.RankOpts{ScoringCriteria: criteria{r.Intn(300), bad}, ReverseOrder: r.Intn(2) == 0,
				OutputOffset: r.Intn(3) * r.Intn(4), MaxOutputs: r.Intn(2) * r.Intn(20)}
			o.DefRankOpts = &def
			eng.Delays(r)
			w := eng.NewWorld(c, o, v)
			for ph := 0; ph < 1+r.Intn(2); ph++ {
				w.Apply(w.Plan(r, eng.Mix{Touch: 0.95, Remove: 0.1, Force: 0.1, Repeat: 1}))
				w.Flush()
			}
			for k := 0; k < 25; k++ {
				q := eng.Query{Tokens: []string{v.Tokens[r.Intn(len(v.Tokens))]}}
				switch r.Intn(4) {
				case 0:
					q = eng.AndQuery(r, v, w.Live)
				case 1:
					q = eng.LogicQuery(r, v)
					q.DocIds = nil
				case 2: // everything
					q = eng.Query{}
					q.Logic.Expr.Should = append(append([]string{}, v.Tokens...), v.Labels...)
				}
				req := q.Req()
				eff := def
				if r.Intn(5) > 0 {
					ro := types.RankOpts{ReverseOrder: r.Intn(2) == 0}
					switch r.Intn(4) {
					case 0:
					case 1:
						ro.MaxOutputs = 1 + r.Intn(8)
					case 2:
						ro.OutputOffset = r.Intn(len(v.IDs) + 4)
					case 3:
						ro.OutputOffset, ro.MaxOutputs = r.Intn(len(v.IDs)+2), 1+r.Intn(len(v.IDs)+3)
					}
					if r.Intn(4) > 0 {
						ro.ScoringCriteria = criteria{r.Intn(300), bad}
					}
					req.RankOpts = &ro
					eff = ro
					if eff.ScoringCriteria == nil {
						eff.ScoringCriteria = def.ScoringCriteria
					}
				}
				if r.Intn(4) == 0 {
					req.Timeout = 3600000
				}
				n := checkRank(w, req, q, eff)
				sig := ""
				if n > 1 {
					sig = fmt.Sprint(i, q, eff)
				}
				c.Case(sig, func() interface{} {
					return map[string]interface{}{"options": w.Desc, "query": q.String(),
						"rank": fmt.Sprintf("%+v", eff), "scored": n}
				})
			}
			w.E.Close()
		}
	}}, {Name: "deep", Run: func(c *h.C) {
		// thousands of documents in few shards, pages at any depth
		for i := 0; i < c.N(5, 60) && !c.Violated(); i++ {
			r := c.Rand("deep", i)
			v := eng.NewVocab(r, 2, 1, 1100+r.Intn(3000))
			if i == 0 {
				v = largeVocab(18000)
				v.Tokens = v.Tokens[:2]
			}
			o := eng.RandOpts(r)
			o.NumShards = 1 + r.Intn(3)/2
			bad := func(s string) { c.Violate("fields-given-to-criteria", nil, "%s", s) }
			def := types.RankOpts{ScoringCriteria: criteria{r.Intn(300), bad}}
			o.DefRankOpts = &def
			w := eng.NewWorld(c, o, v)
			w.Doc.MaxTok = 3
			w.Apply(w.Plan(r, eng.Mix{Touch: 0.95, Force: 0.001, Repeat: 1}))
			w.Flush()
			q := eng.Query{}
			q.Logic.Expr.Should = append(append([]string{}, v.Tokens...), v.Labels...)
			for k := 0; k < 12; k++ {
				if k > 5 {
					q = eng.Query{Tokens: []string{v.Tokens[r.Intn(len(v.Tokens))]}}
				}
				n := len(q.Eval(w.Live))
				eff := types.RankOpts{ScoringCriteria: criteria{r.Intn(300), bad}, ReverseOrder: r.Intn(2) == 0,
					OutputOffset: r.Intn(n + 2), MaxOutputs: []int{0, 1, 10, 100, 1 + r.Intn(n+1), n + 1}[r.Intn(6)]}
				req := q.Req()
				req.RankOpts = &eff
				m := checkRank(w, req, q, eff)
				c.Max("deepest_page", eff.OutputOffset)
				c.Max("most_scored", m)
				c.Case(fmt.Sprint("deep", i, k), func() interface{} {
					return map[string]interface{}{"options": w.Desc, "offset": eff.OutputOffset, "limit": eff.MaxOutputs, "scored": m}
				})
			}
			w.E.Close()
		}
	}}}}

func checkRank(w *eng.World, req types.SearchReq, q eng.Query, eff types.RankOpts) int {
	return checkRankResp(w, w.Search(req), q, eff)
}

// checkRankResp compares a response with the model's ranking.
func checkRankResp(w *eng.World, resp types.SearchResp, q eng.Query, eff types.RankOpts) int {
	cr := eff.ScoringCriteria.(criteria)
	type sd struct {
		id string
		s  []float32
	}
	var all []sd
	for _, id := range q.Eval(w.Live) {
		if s := cr.of(w.Live[id].Data.Fields.(eng.Payload)); len(s) > 0 {
			all = append(all, sd{id, s})
		}
	}
	sort.SliceStable(all, func(i, j int) bool {
		if eff.ReverseOrder {
			return before(all[j].s, all[i].s)
		}
		return before(all[i].s, all[j].s)
	})
	lo := min(eff.OutputOffset, len(all))
	hi := len(all)
	if eff.MaxOutputs > 0 {
		hi = min(lo+eff.MaxOutputs, len(all))
	}
	want := all[lo:hi]
	got := eng.ScoredOf(resp.Docs)
	fail := func(key, format string, args ...interface{}) {
		var gs []string
		for _, g := range got {
			gs = append(gs, fmt.Sprint(g.DocId, g.Scores))
		}
		w.C.Violate(key, w.Witness(q, eff, gs, want), "search %s ranked by %+v: %s; returned %s, expected %v",
			q, eff, fmt.Sprintf(format, args...), strings.Join(gs, " "), want)
	}
	if len(got) != len(want) {
		fail("page", "%d documents instead of %d", len(got), len(want))
		return -1
	}
	if resp.NumDocs != len(all) {
		fail("num-docs", "counted %d, %d score", resp.NumDocs, len(all))
		return -1
	}
	if resp.Timeout {
		fail("timeout", "reported a timeout")
		return -1
	}
	byID := map[string]sd{}
	for _, d := range all {
		byID[d.id] = d
	}
	seen := map[string]bool{}
	for i, g := range got {
		d, ok := byID[g.DocId]
		if !ok || seen[g.DocId] {
			fail("membership", "document %q does not belong at %d", g.DocId, i)
			return -1
		}
		seen[g.DocId] = true
		if !eqScores(g.Scores, d.s) {
			fail("scores", "document %q carries %v", g.DocId, g.Scores)
			return -1
		}
		if !eqScores(g.Scores, want[i].s) {
			fail("order", "rank %d holds %v", i, g.Scores)
			return -1
		}
	}
	return len(all)
}

var c08 = &h.Prop{ID: "C08", Level: "exploration",
	Rule:        "corpora that went through updates and removals; the BM25 value of every matching document is compared (relative tolerance 1e-4, the index computes in float32) with the documented formula evaluated in float64 over the live documents of the index. A case is one lookup; non-trivial when a document with a positive score matches, distinct by history and query.",
	Assumptions: []string{"statistics are per shard, so the engine part uses one shard"},
	Parts: []h.Part{
		{Name: "index", Run: func(c *h.C) {
			for i := 0; i < c.N(10000, 100000) && !c.Violated(); i++ {
				r := c.Rand("x", i)
				v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(3), 2+r.Intn(25))
				sizes := []int{1, 2, 3, 4, 5, 8, 32, 1000}
				bm := &types.BM25Parameters{K1: float32(r.Intn(30)) / 10, B: float32(r.Intn(11)) / 10}
				if r.Intn(8) == 0 {
					bm.K1, bm.B = float32(r.Intn(2000))/10, float32(r.Intn(13))/10
				}
				w := eng.NewCoreOpts(c, v, types.IndexerOpts{IndexType: 1 + r.Intn(2),
					DocCacheSize: sizes[r.Intn(len(sizes))], BM25Parameters: bm})
				for ph := 0; ph < 1+r.Intn(4); ph++ {
					w.Random(r, 0.8, 0.25, 0.1)
					w.Flush()
					for k := 0; k < 8; k++ {
						q := eng.AndQuery(r, v, w.Live)
						docs, _ := w.Lookup(q, false)
						pos := 0
						for _, d := range docs {
							want, ok := bm25(w.Live, q, d.DocId, w.Opts.IndexType, bm)
							if !ok {
								continue
							}
							if want > 0 {
								pos++
							}
							if !close4(float64(d.BM25), want) {
								c.Violate("bm25", w.Witness(q, d, want), "lookup %s gives %q the BM25 %v, the formula over the live documents gives %v", q, d.DocId, d.BM25, want)
							}
						}
						sig := ""
						if pos > 0 {
							sig = fmt.Sprint(i, ph, q)
						}
						c.Count("scores", len(docs))
						c.Case(sig, func() interface{} {
							return map[string]interface{}{"index": w.Desc, "query": q.String(), "docs": fmt.Sprintf("%+v", docs)}
						})
					}
				}
			}
		}},
		{Name: "large", Run: func(c *h.C) {
			for i := 0; i < c.N(2, 12) && !c.Violated(); i++ {
				r := c.Rand("large", i)
				v := largeVocab(35000 + r.Intn(40000))
				v.Tokens = v.Tokens[:2+r.Intn(5)]
				bm := &types.BM25Parameters{K1: 1.5, B: 0.6}
				w := eng.NewCoreOpts(c, v, types.IndexerOpts{IndexType: 1 + r.Intn(2), DocCacheSize: []int{3000, 100000}[i%2], BM25Parameters: bm})
				for ph, touch := range []float64{1, 0.3} {
					for _, k := range r.Perm(len(v.IDs)) {
						if id := v.IDs[k]; r.Float64() < touch {
							if ph > 0 && w.Live[id] != nil && r.Intn(2) == 0 {
								w.Remove(id, false)
							} else {
								w.Add(eng.NewVer(r, v, id, ph+1, w.Doc), false)
							}
						}
					}
					w.Flush()
					for k := 0; k < 6; k++ {
						q := eng.AndQuery(r, v, w.Live)
						if k > 3 {
							q.DocIds = nil
						}
						st := newBMStats(w.Live, q)
						docs, _ := w.Lookup(q, false)
						pos := 0
						for _, d := range docs {
							want, ok := st.bm25(w.Live, q, d.DocId, w.Opts.IndexType, bm)
							if !ok {
								continue
							}
							if want > 0 {
								pos++
							}
							if !close4(float64(d.BM25), want) {
								c.Violate("bm25", w.Witness(d, want), "lookup %s on %d documents gives %q the BM25 %v, the formula over the live documents gives %v", clip(q.String(), 300), len(w.Live), d.DocId, d.BM25, want)
								break
							}
						}
						c.Count("scores", len(docs))
						c.Max("most_documents", len(w.Live))
						sig := ""
						if pos > 0 {
							sig = fmt.Sprint("large", i, ph, k)
						}
						c.Case(sig, nil)
					}
				}
			}
		}},
		{Name: "long", Run: func(c *h.C) {
			// documents of more tokens, and tokens at larger places, than 16 bits hold
			dict, _ := eng.WriteDict(c.Dir)
			seg := &gse.Segmenter{}
			h.Must(seg.LoadDict(dict))
			for i := 0; i < c.N(4, 24) && !c.Violated(); i++ {
				r := c.Rand("long", i)
				v := eng.NewVocab(r, 4, 0, 6)
				o := eng.RandOpts(r)
				o.NumShards, o.NotUseGse, o.GseDict, o.Using = 1, false, dict, i%2
				o.IndexerOpts.IndexType = 1 + i%2
				bm := &types.BM25Parameters{K1: 1.7, B: 0.8}
				o.IndexerOpts.BM25Parameters = bm
				w := eng.NewWorld(c, o, v)
				w.Tok, w.LenOf = nil, nil
				m := &eng.TokModel{O: o, Seg: seg}
				w.KeysOf = m.KeysOf
				w.LenOf = func(d types.DocData) int { _, n := m.KeysLen(d); return n }
				words := []string{"hello", "world", "世界", "中国", "york"}
				mix := eng.Mix{Touch: 0.8, Remove: 0.2, Repeat: 1, NewVerFn: func(r *rnd, id string, n int) *eng.Ver {
					d := eng.NewVer(r, v, id, n, w.Doc)
					var b strings.Builder
					ws := words[:1+r.Intn(len(words))]
					for k := []int{3, 300, 33000 + r.Intn(20000), 66000 + r.Intn(40000)}[r.Intn(4)]; k > 0; k-- {
						b.WriteString(ws[r.Intn(len(ws))])
						b.WriteByte(' ')
					}
					d.Data.Content = b.String()
					return d
				}}
				for ph := 0; ph < 2; ph++ {
					w.Apply(w.Plan(r, mix))
					w.Flush()
					for k, tok := range words {
						q := eng.Query{Tokens: []string{tok}}
						if k%2 == 1 {
							q.Tokens = append(q.Tokens, words[0])
						}
						pos := 0
						for _, d := range eng.ScoredOf(w.Search(q.Req()).Docs) {
							want, ok := bm25(w.Live, q, d.DocId, o.IndexerOpts.IndexType, bm)
							if !ok || len(d.Scores) != 1 {
								continue
							}
							if want > 0 {
								pos++
							}
							c.Max("most_tokens_in_a_document", w.Live[d.DocId].TokenLen)
							if !close4(float64(d.Scores[0]), want) {
								c.Violate("bm25", map[string]interface{}{"document": d.DocId, "tokens": w.Live[d.DocId].TokenLen, "query": q.String()}, "search %s scores %q, which has %d tokens, %v, BM25 over the live documents is %v", q, d.DocId, w.Live[d.DocId].TokenLen, d.Scores, want)
							}
						}
						c.Count("scores", pos)
						sig := ""
						if pos > 0 {
							sig = fmt.Sprint("long", i, ph, k)
						}
						c.Case(sig, nil)
					}
				}
				w.E.Close()
			}
		}},
		{Name: "engine", Run: func(c *h.C) {
			dict, _ := eng.WriteDict(c.Dir)
			seg := &gse.Segmenter{}
			h.Must(seg.LoadDict(dict))
			for i := 0; i < c.N(400, 4000) && !c.Violated(); i++ {
				r := c.Rand("h", i)
				v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 2+r.Intn(20))
				o := eng.RandOpts(r)
				o.NumShards = 1
				o.IndexerOpts.IndexType = 1 + r.Intn(2)
				var bm *types.BM25Parameters
				if r.Intn(2) == 0 {
					bm = &types.BM25Parameters{K1: 1.2, B: 0.5}
					o.IndexerOpts.BM25Parameters = bm
				} else {
					bm = &types.BM25Parameters{K1: 2, B: 0.75} // the documented defaults
				}
				eng.Delays(r)
				mix := eng.Mix{Touch: 0.8, Remove: 0.25, Force: 0.1, Repeat: 2}
				mode := r.Intn(4)
				switch mode {
				case 1: // documents without content count their tokens in every mode
					o.Using = r.Intn(7)
				case 2: // words of the content count, then given tokens
					o.NotUseGse, o.GseDict, o.Using = false, dict, r.Intn(2)
				case 3: // the pieces of the content and their combinations count
					o.NotUseGse, o.Using = r.Intn(2) == 0, []int{0, 4, 5, 6}[r.Intn(4)]
					if !o.NotUseGse {
						o.GseDict, o.Using = dict, 3+r.Intn(4)
					}
				}
				if mode >= 2 { // and the pinyin keys
					o.PinYin = r.Intn(3) == 0
				}
				w := eng.NewWorld(c, o, v)
				w.Tok, w.LenOf = nil, nil
				switch mode {
				case 1:
					mix.NewVerFn = func(r *rnd, id string, n int) *eng.Ver {
						d := eng.NewVer(r, v, id, n, w.Doc)
						d.Data.Content = ""
						return d
					}
				case 2, 3:
					m := &eng.TokModel{O: o, Seg: seg}
					w.KeysOf = m.KeysOf
					w.LenOf = func(d types.DocData) int { _, n := m.KeysLen(d); return n }
					mix.NewVerFn = func(r *rnd, id string, n int) *eng.Ver {
						d := eng.NewVer(r, v, id, n, w.Doc)
						d.Data.Content = eng.RandContent(r, r.Intn(2) == 0)
						return d
					}
				}
				for ph := 0; ph < 1+r.Intn(3); ph++ {
					w.Apply(w.Plan(r, mix))
					w.Flush()
					for k := 0; k < 10; k++ {
						q := eng.AndQuery(r, v, w.Live)
						if mode >= 2 && r.Intn(2) == 0 {
							ks := w.AllKeys()
							q.Tokens = append(q.Tokens, ks[r.Intn(len(ks))])
						}
						resp := w.Search(q.Req())
						pos := 0
						last := math.Inf(1)
						for _, d := range eng.ScoredOf(resp.Docs) {
							want, ok := bm25(w.Live, q, d.DocId, w.Opts.IndexerOpts.IndexType, bm)
							if len(d.Scores) != 1 {
								c.Violate("scores", w.Witness(q, d), "document %q has scores %v", d.DocId, d.Scores)
								continue
							}
							if float64(d.Scores[0]) > last {
								c.Violate("order", w.Witness(q, resp.Docs), "search %s is not in the order of BM25", q)
							}
							last = float64(d.Scores[0])
							if !ok {
								continue
							}
							if want > 0 {
								pos++
							}
							if !close4(float64(d.Scores[0]), want) {
								c.Violate("bm25", w.Witness(q, d, want), "search %s scores %q %v, BM25 over the live documents is %v", q, d.DocId, d.Scores, want)
							}
						}
						sig := ""
						if pos > 0 {
							sig = fmt.Sprint(i, ph, q)
						}
						c.Case(sig, nil)
					}
				}
				w.E.Close()
			}
		}},
	}}

func close4(a, b float64) bool {
	return math.Abs(a-b) <= 1e-4*math.Max(1e-3, math.Max(math.Abs(a), math.Abs(b)))
}

// bm25 evaluates the documented formula: smoothed idf log2(N/df + 1),
// document length in tokens over the average length of the live documents.
// Documents in which a searched token has no location are left out for
// location indexes, which do not score them.
func bm25(live map[string]*eng.Ver, q eng.Query, id string, typ int, p *types.BM25Parameters) (float64, bool) {
	return newBMStats(live, q).bm25(live, q, id, typ, p)
}

// bmStats are the statistics of the live documents that the formula needs.
type bmStats struct {
	total float64
	df    map[string]float64
}

func newBMStats(live map[string]*eng.Ver, q eng.Query) bmStats {
	st := bmStats{df: map[string]float64{}}
	for _, x := range live {
		st.total += float64(x.TokenLen)
	}
	for _, t := range q.Tokens {
		if st.df[t] > 0 {
			continue
		}
		for _, x := range live {
			if _, ok := x.Keys[t]; ok {
				st.df[t]++
			}
		}
	}
	return st
}

func (st bmStats) bm25(live map[string]*eng.Ver, q eng.Query, id string, typ int, p *types.BM25Parameters) (float64, bool) {
	d := live[id]
	if d == nil {
		return 0, false
	}
	n := float64(len(live))
	avg := st.total / n
	if len(q.Tokens) == 0 {
		return 0, true
	}
	s := 0.0
	for _, t := range q.Tokens {
		f := float64(len(d.Keys[t]))
		if f == 0 && typ == types.LocsIndex {
			return 0, false
		}
		if f == 0 || avg == 0 {
			continue
		}
		df := st.df[t]
		k1, b := float64(p.K1), float64(p.B)
		div := f + k1*(1-b+b*float64(d.TokenLen)/avg)
		if div < 0.1*f { // too close to a division by zero to compare
			return 0, false
		}
		s += math.Log2(n/df+1) * f * (k1 + 1) / div
	}
	return s, true
}

var c09 = &h.Prop{ID: "C09", Level: "exploration",
	Rule: "location indexes over documents with up to five occurrences of each token; for every match the locations must be those indexed, and the proximity and the chosen snippet positions are compared with a brute force over all choices of one occurrence per token. A case is one matching document; non-trivial when there is more than one choice, distinct by document and query.",
	Parts: []h.Part{
		{Name: "index", Run: func(c *h.C) {
			for i := 0; i < c.N(8000, 80000) && !c.Violated(); i++ {
				r := c.Rand("x", i)
				v := eng.NewVocab(r, 2+r.Intn(5), r.Intn(3), 2+r.Intn(10))
				w := eng.NewCoreOpts(c, v, types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 1 + r.Intn(8)})
				w.Doc.MaxOcc = 5
				long := i%8 == 3 // many words are searched
				if long {
					v = eng.NewVocab(r, 9+r.Intn(25), r.Intn(3), 2+r.Intn(5))
					w = eng.NewCoreOpts(c, v, types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 1 + r.Intn(8)})
					w.Doc.MaxOcc, w.Doc.MaxTok = 2+r.Intn(3), 40
				}
				for ph := 0; ph < 1+r.Intn(3); ph++ {
					w.Random(r, 0.9, 0.2, 0.1)
					w.Flush()
					for k := 0; k < 8; k++ {
						q := distinctTokens(eng.AndQuery(r, v, w.Live), long)
						if long && k%2 == 0 || k == 7 {
							q.Tokens = repeatTokens(r, q.Tokens)
						}
						docs, _ := w.Lookup(q, false)
						c.Max("most_tokens", len(q.Tokens))
						for _, d := range docs {
							ch := checkLocs(c, w.Live[d.DocId], q, d.TokenLocs, d.TokenSnippetLocs, int(d.TokenProximity), true, func() interface{} { return w.Witness(q, d) })
							sig := ""
							if ch > 1 {
								sig = fmt.Sprint(i, ph, d.DocId, q)
							}
							c.Max("most_choices", ch)
							c.Case(sig, func() interface{} {
								return map[string]interface{}{"query": q.String(), "doc": fmt.Sprintf("%+v", d), "choices": ch}
							})
						}
					}
				}
			}
		}},
		{Name: "engine", Run: func(c *h.C) {
			for i := 0; i < c.N(600, 4000) && !c.Violated(); i++ {
				r := c.Rand("h", i)
				v := eng.NewVocab(r, 2+r.Intn(5), r.Intn(3), 2+r.Intn(12))
				o := eng.RandOpts(r)
				o.IndexerOpts.IndexType = types.LocsIndex
				var prox h.StrMap
				o.DefRankOpts = &types.RankOpts{ScoringCriteria: proxCriteria{&prox}}
				w := eng.NewWorld(c, o, v)
				w.Doc.MaxOcc = 4
				w.Apply(w.Plan(r, eng.Mix{Touch: 0.95, Force: 0.1, Repeat: 2}))
				w.Flush()
				for k := 0; k < 12; k++ {
					q := distinctTokens(eng.AndQuery(r, v, w.Live), false)
					if k == 11 {
						q.Tokens = repeatTokens(r, q.Tokens)
					}
					prox.Reset()
					req := q.Req()
					less := r.Intn(4) == 0
					req.Orderless = less
					resp := w.Search(req)
					if !less {
						checkByProximity(w, q, &prox)
					}
					for _, d := range eng.ScoredOf(resp.Docs) {
						p, _ := prox.Get(d.DocId).(int32)
						ch := checkLocs(c, w.Live[d.DocId], q, d.TokenLocs, d.TokenSnippetLocs, int(p), !less, func() interface{} { return w.Witness(q, d, p) })
						sig := ""
						if ch > 1 {
							sig = fmt.Sprint(i, d.DocId, q)
						}
						c.Case(sig, nil)
					}
				}
				w.E.Close()
			}
		}},
	}}

// checkByProximity repeats a search under the library's criteria that ranks by
// proximity.
func checkByProximity(w *eng.World, q eng.Query, prox *h.StrMap) {
	req := q.Req()
	req.RankOpts = &types.RankOpts{ScoringCriteria: riot.RankByTokenProximity{}}
	var want, got []string
	for _, id := range q.Eval(w.Live) {
		p, ok := prox.Get(id).(int32)
		if !ok {
			return // reported by the other properties
		}
		if p >= 0 {
			want = append(want, fmt.Sprintf("%s %.5g", id, 1/(float64(p)+1)))
		}
	}
	last := float32(2)
	for _, d := range eng.ScoredOf(w.Search(req).Docs) {
		if len(d.Scores) != 1 {
			got = append(got, fmt.Sprint(d.DocId, d.Scores))
			continue
		}
		got = append(got, fmt.Sprintf("%s %.5g", d.DocId, d.Scores[0]))
		if d.Scores[0] > last {
			w.C.Violate("by-proximity", w.Witness(q, got), "search %s ranked by proximity is not in the order of its scores", q)
		}
		last = d.Scores[0]
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		w.C.Violate("by-proximity", w.Witness(q, got, want), "search %s ranked by proximity gives %q, expected %q", q, got, want)
	}
	w.C.Count("by_proximity", len(want))
}

type proxCriteria struct{ m *h.StrMap }

func (p proxCriteria) Score(d types.IndexedDoc, f interface{}) []float32 {
	p.m.Put(d.DocId, d.TokenProximity)
	return []float32{1}
}

// repeatTokens searches some words twice.
func repeatTokens(r *rnd, ts []string) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t)
		if r.Intn(4) == 0 {
			out = append(out, t)
		}
	}
	if len(out) > 0 && r.Intn(2) == 0 {
		out = append(out, out[r.Intn(len(out))])
	}
	return out
}

func distinctTokens(q eng.Query, long bool) eng.Query {
	seen := map[string]bool{}
	var ts []string
	for _, t := range q.Tokens {
		if !seen[t] && (long || len(ts) < 4) {
			ts = append(ts, t)
			seen[t] = true
		}
	}
	q.Tokens = ts
	q.DocIds = nil
	return q
}

// checkLocs returns the number of choices of occurrences.
func checkLocs(c *h.C, v *eng.Ver, q eng.Query, locs [][]int, snip []int, prox int, withProx bool, wit func() interface{}) int {
	if v == nil || len(q.Tokens) == 0 {
		return 0
	}
	choices := 1
	for _, t := range q.Tokens {
		if len(v.Keys[t]) == 0 {
			return 0 // a token without locations: nothing to say
		}
		if choices < 1<<40 {
			choices *= len(v.Keys[t])
		}
	}
	if len(locs) != len(q.Tokens) || len(snip) != len(q.Tokens) {
		c.Violate("locations", wit(), "search %s: %d location lists and %d snippet positions for %d tokens", q, len(locs), len(snip), len(q.Tokens))
		return choices
	}
	for i, t := range q.Tokens {
		if fmt.Sprint(locs[i]) != fmt.Sprint(v.Keys[t]) {
			c.Violate("locations", wit(), "search %s: token %q of %q at %v, indexed at %v", q, t, v.ID, locs[i], v.Keys[t])
			return choices
		}
		in := false
		for _, l := range v.Keys[t] {
			in = in || l == snip[i]
		}
		if !in {
			c.Violate("snippet", wit(), "search %s: snippet position %d is no occurrence of %q in %q %v", q, snip[i], t, v.ID, v.Keys[t])
			return choices
		}
	}
	dist := func(p []int) int {
		s := 0
		for i := 0; i+1 < len(p); i++ {
			x := p[i+1] - p[i] - len(q.Tokens[i])
			if x < 0 {
				x = -x
			}
			s += x
		}
		return s
	}
	// the least sum, token by token: cost[k] ends in the k-th location
	abs := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	cost := make([]int, len(v.Keys[q.Tokens[0]]))
	for i := 1; i < len(q.Tokens); i++ {
		from, to := v.Keys[q.Tokens[i-1]], v.Keys[q.Tokens[i]]
		next := make([]int, len(to))
		for k, y := range to {
			next[k] = -1
			for j, x := range from {
				if s := cost[j] + abs(y-x-len(q.Tokens[i-1])); next[k] < 0 || s < next[k] {
					next[k] = s
				}
			}
		}
		cost = next
	}
	best := cost[0]
	for _, s := range cost {
		if s < best {
			best = s
		}
	}
	if d := dist(snip); d != best {
		c.Violate("snippet", wit(), "search %s: snippet positions %v of %q have distance %d, the least is %d", q, snip, v.ID, d, best)
	}
	if withProx && prox != best {
		c.Violate("proximity", wit(), "search %s: proximity of %q is %d, the least is %d", q, v.ID, prox, best)
	}
	return choices
}
