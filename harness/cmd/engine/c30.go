package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

var c30 = &h.Prop{ID: "C30", Level: "exploration",
	Rule: "histories of concurrent writes and flushes while another goroutine reads the counters: they must never decrease nor exceed what was issued, and after Flush equal the calls made (removals once per shard, keys as the sum over the documents), after a restart on the same store the documents recovered. A case is one comparison after a Flush; distinct by history, non-trivial when something was written.",
	Parts: []h.Part{{Name: "engine", Run: func(c *h.C) {
		var reads int64
		for i := 0; i < c.N(450, 3000) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(4), 3+r.Intn(20))
			o := eng.RandOpts(r)
			if i%8 == 0 {
				o.UseStore, o.StoreFolder, o.StoreShards = true, filepath.Join(c.Dir, fmt.Sprint("db", i)), 1+r.Intn(3)
				o.StoreEngine = []string{"ldb", "bg", "bolt"}[i/8%3]
			}
			dl := eng.Delays(r)
			w := eng.NewWorld(c, o, v)
			var idx, rem, keys uint64
			var issued, removed uint64
			stop := make(chan bool)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				var pi, pr, pt uint64
				for {
					select {
					case <-stop:
						return
					default:
					}
					a, b, t := w.E.NumDocsIndexed(), w.E.NumDocsRemoved(), w.E.NumTokenIndexAdded()
					atomic.AddInt64(&reads, 1)
					if a < pi || b < pr || t < pt {
						c.Violate("decrease", w.Witness(), "a counter went down: indexed %d to %d, removed %d to %d, keys %d to %d", pi, a, pr, b, pt, t)
					}
					if n, m := atomic.LoadUint64(&issued), atomic.LoadUint64(&removed); a > n || b > m {
						c.Violate("excess", w.Witness(), "the counters say %d indexed and %d removed when %d and %d were issued", a, b, n, m)
					}
					pi, pr, pt = a, b, t
				}
			}()
			var keysN uint64
			check := func(what string) {
				ni, nr, nt := w.E.NumDocsIndexed(), w.E.NumDocsRemoved(), w.E.NumTokenIndexAdded()
				if ni != idx || w.E.NumIndexed() != ni {
					c.Violate("indexed", w.Witness(dl), "%s: NumDocsIndexed %d, NumIndexed %d, %d documents were indexed", what, ni, w.E.NumIndexed(), idx)
				}
				if nr != rem*uint64(o.NumShards) || w.E.NumRemoved() != nr {
					c.Violate("removed", w.Witness(dl), "%s: NumDocsRemoved %d, NumRemoved %d, after %d removals on %d shards", what, nr, w.E.NumRemoved(), rem, o.NumShards)
				}
				if nt != keys || w.E.NumTokenAdded() != nt {
					c.Violate("keys", w.Witness(dl), "%s: NumTokenIndexAdded %d, NumTokenAdded %d, the documents have %d keys", what, nt, w.E.NumTokenAdded(), keys)
				}
			}
			for ph := 0; ph < 1+r.Intn(4); ph++ {
				plan := w.Plan(r, eng.Mix{Touch: 0.6, Remove: 0.3, Force: 0.15, Repeat: 3, Absent: true})
				for _, l := range plan {
					for _, s := range l {
						if s.Remove {
							rem++
						} else {
							idx++
							keys += uint64(len(s.Ver.Keys))
						}
					}
				}
				atomic.StoreUint64(&issued, idx)
				atomic.StoreUint64(&removed, rem*uint64(o.NumShards))
				atomic.StoreUint64(&keysN, keys)
				n := w.Apply(plan)
				w.Flush()
				check("after Flush")
				if r.Intn(3) == 0 {
					w.E.HasDoc("nobody")
					w.CheckSet(eng.AndQuery(r, v, w.Live))
					w.Flush()
					check("after searches and another Flush")
				}
				sig := ""
				if n > 0 {
					sig = fmt.Sprint(i, ph)
				}
				c.Case(sig, func() interface{} {
					return map[string]interface{}{"options": w.Desc, "indexed": idx, "removals": rem, "keys": keys}
				})
			}
			close(stop)
			wg.Wait()
			w.E.Close()
			if o.UseStore {
				e := &riot.Engine{}
				e.Init(o)
				e.Flush()
				h.Progress()
				nk := 0
				for _, d := range w.Live {
					nk += len(d.Keys)
				}
				if e.NumDocsIndexed() != uint64(len(w.Live)) || e.NumDocsRemoved() != 0 || e.NumTokenIndexAdded() != uint64(nk) {
					c.Violate("restart", w.Witness(), "after a restart with %d documents and %d keys the counters say %d, %d removed, %d keys", len(w.Live), nk, e.NumDocsIndexed(), e.NumDocsRemoved(), e.NumTokenIndexAdded())
				}
				c.Case(fmt.Sprint(i, "restart"), nil)
				e.Close()
			}
		}
		c.Count("concurrent_reads", int(reads))
	}}, large(2, lCounters, eng.AndQuery), {Name: "recovered", Run: large(1, lCounters|lRestart, eng.AndQuery).Run}}}

var c31 = &h.Prop{ID: "C31", Level: "exploration",
	Rule: "two to four engines with different options in one process, sharing document ids and keys, driven from their own goroutines at the same time; every engine has BM25 parameters, default order and limit of its own and must answer searches, scores, payloads, HasDoc and the counters exactly as its own history says, while others are created, written, flushed and closed. A case is one check of one engine; non-trivial when its content differs from the others', distinct by history.",
	Parts: []h.Part{{Name: "engines", Run: func(c *h.C) {
		for i := 0; i < c.N(480, 2500) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 3+r.Intn(5), r.Intn(3), 4+r.Intn(10))
			eng.Delays(r)
			n := 2 + r.Intn(3)
			shared := &types.BM25Parameters{K1: 0.5 + float32(i%3), B: float32(i%5) / 5}
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					r := c.Rand("e", i, k)
					o := eng.RandOpts(r)
					if r.Intn(6) == 0 {
						o.UseStore, o.StoreShards, o.StoreFolder = true, 1+r.Intn(2), filepath.Join(c.Dir, fmt.Sprint("of", i, "-", k), "db")
						o.StoreEngine = []string{"ldb", "bolt"}[r.Intn(2)]
					}
					var bm *types.BM25Parameters
					switch r.Intn(3) {
					case 0:
						bm = &types.BM25Parameters{K1: float32(r.Intn(30)) / 10, B: float32(r.Intn(11)) / 10}
						o.IndexerOpts.BM25Parameters = bm
					case 1: // one value for several engines
						bm = shared
						o.IndexerOpts.BM25Parameters = bm
					default:
						bm = &types.BM25Parameters{K1: 2, B: 0.75} // the documented defaults
					}
					if r.Intn(2) == 0 {
						o.NumShards = 1
					}
					reverse := r.Intn(3) == 0
					if reverse {
						o.DefRankOpts = &types.RankOpts{ReverseOrder: true}
					} else if r.Intn(3) == 0 {
						o.DefRankOpts = &types.RankOpts{MaxOutputs: 1000 + k}
					}
					own := fmt.Sprint(i, "-", k)
					if i%2 == 0 { // the files of an engine before it, changed since
						own = fmt.Sprint(k)
					}
					tok := ownWords(c, r, &o, v, own)
					exact := tok == nil && o.NumShards == 1 && o.IndexerOpts.IndexType > types.DocIdsIndex
					w := eng.NewWorld(c, o, v)
					if tok != nil {
						w.Tok = tok
						c.Count("engines_with_own_words", 1)
					}
					idx := uint64(0)
					for ph := 0; ph < 2+r.Intn(3) && !c.Violated(); ph++ {
						plan := w.Plan(r, eng.Mix{Touch: 0.5, Remove: 0.4, Force: 0.1, Repeat: 2, Absent: true})
						for _, l := range plan {
							for _, s := range l {
								if !s.Remove {
									idx++
								}
							}
						}
						w.Apply(plan)
						w.Flush()
						w.CheckPostings()
						for n := 0; n < 4; n++ {
							q := eng.AndQuery(r, v, w.Live)
							resp := w.Search(q.Req())
							last := float32(math.Inf(1))
							for _, d := range eng.ScoredOf(resp.Docs) {
								if len(d.Scores) != 1 {
									c.Violate("scores", w.Witness(q, d), "document %q of one of the engines has scores %v", d.DocId, d.Scores)
									continue
								}
								s := d.Scores[0]
								if reverse {
									s = -s
								}
								if s > last {
									c.Violate("order", w.Witness(q, resp.Docs), "search %s of one of the engines is not in the order of its defaults (reverse %v)", q, reverse)
								}
								last = s
								if want, ok := bm25(w.Live, q, d.DocId, o.IndexerOpts.IndexType, bm); ok && exact {
									c.Count("scores", 1)
									if !close4(float64(d.Scores[0]), want) {
										c.Violate("bm25", w.Witness(q, d, want), "search %s of one of the engines scores %q %v, BM25 with its parameters %+v is %v", q, d.DocId, d.Scores, *bm, want)
									}
								}
							}
							if ds, ok := resp.Docs.(types.ScoredDocs); ok {
								for _, d := range ds {
									if lv := w.Live[d.DocId]; lv == nil || d.Content != lv.Data.Content || !reflect.DeepEqual(d.Attri, lv.Data.Attri) || !reflect.DeepEqual(d.Fields, lv.Data.Fields) {
										c.Violate("payload", w.Witness(q, d), "search %s of one of the engines gives %q the payload %q %+v %+v", q, d.DocId, d.Content, d.Attri, d.Fields)
									}
								}
							}
						}
						if got := w.E.NumDocsIndexed(); got != idx {
							c.Violate("counter", w.Witness(), "one of %d engines counts %d indexed documents instead of %d", n, got, idx)
						}
						if o.UseStore {
							if got := w.E.GetDBAllIds(); len(got) != len(w.Live) {
								c.Violate("store", w.Witness(got), "the store of one of %d engines holds %q, live are %d", n, got, len(w.Live))
							}
						}
						c.Case(fmt.Sprint(i, k, ph), func() interface{} {
							return map[string]interface{}{"engines": n, "options": w.Desc, "live": len(w.Live)}
						})
					}
					w.E.Close()
				}(k)
			}
			wg.Wait()
		}
	}}}}

// ownWords gives the engine a dictionary and stop words of its own.
func ownWords(c *h.C, r *rnd, o *types.EngineOpts, v *eng.Vocab, name string) *eng.TokModel {
	if r.Intn(2) == 0 {
		return nil
	}
	o.NotUseGse = false
	o.Using = []int{0, 1, 2}[r.Intn(3)]
	m := &eng.TokModel{Seg: &gse.Segmenter{}, Stops: map[string]bool{}}
	var dict, stop strings.Builder
	for n, t := range append(append([]string{"内容"}, eng.DictWords...), v.Tokens...) {
		if r.Intn(2) == 0 && !strings.ContainsAny(t, " \x00") {
			fmt.Fprintf(&dict, "%s %d n\n", t, 10+n)
		}
		if r.Intn(3) == 0 {
			m.Stops[t] = true
			stop.WriteString(t + "\n")
		}
	}
	if dict.Len() == 0 {
		dict.WriteString("世界 10 n\n")
	}
	// the files of the engines have the same names in different folders
	dir := filepath.Join(c.Dir, "own"+name)
	h.Must(os.MkdirAll(dir, 0o755))
	o.GseDict = filepath.Join(dir, "dict.txt")
	h.Must(os.WriteFile(o.GseDict, []byte(dict.String()), 0o644))
	if r.Intn(4) > 0 {
		o.StopTokenFile = filepath.Join(dir, "stop.txt")
		h.Must(os.WriteFile(o.StopTokenFile, []byte(stop.String()), 0o644))
	} else {
		m.Stops = map[string]bool{}
	}
	m.O = *o
	m.Seg.LoadDict(o.GseDict)
	return m
}

// hostile documents and requests

func hostileDoc(r *rnd, v *eng.Vocab, n int) types.DocData {
	var d types.DocData
	texts := append([]string{"", " ", "\x00", "\xff\xfe", "世", strings.Repeat("x", 3000), "h1", "h2", "h1", "H1"}, "h3")
	t := func() string { return texts[r.Intn(len(texts))] }
	locs := func() []int {
		switch r.Intn(7) {
		case 0:
			return nil
		case 1:
			return []int{}
		case 2:
			return []int{-1, -5}
		case 3:
			return []int{9, 3, 3, 0}
		case 4:
			return []int{math.MaxInt64, math.MinInt64, 0}
		case 5:
			l := make([]int, 200)
			for i := range l {
				l[i] = r.Intn(50)
			}
			return l
		}
		return []int{r.Intn(9)}
	}
	for k := r.Intn(5); k > 0; k-- {
		d.Tokens = append(d.Tokens, types.TokenData{Text: t(), Locations: locs()})
	}
	for k := r.Intn(4); k > 0; k-- {
		d.Labels = append(d.Labels, t())
	}
	switch r.Intn(5) {
	case 0:
		d.Content = strings.Repeat("很长 long ", 50)
	case 1:
		d.Content = "\xff\xfe \x00"
	case 2:
		d.Content = " "
	}
	switch r.Intn(5) {
	case 0:
		d.Fields = func() {}
	case 1:
		d.Fields = make(chan int)
	case 2:
		d.Attri = map[string]interface{}{"x": nil}
	case 3:
		var p *eng.Payload
		d.Fields, d.Attri = p, p
	}
	return d
}

// oddCriteria answers oddly.
type oddCriteria int

func (o oddCriteria) Score(d types.IndexedDoc, f interface{}) []float32 {
	nan := float32(math.NaN())
	switch o {
	case 0:
		return []float32{nan}
	case 1:
		return []float32{float32(math.Inf(-1)), nan, 0}
	case 2:
		return make([]float32, len(d.DocId)*7)
	}
	return []float32{}
}

func hostileReq(r *rnd, v *eng.Vocab) types.SearchReq {
	keys := append([]string{"", " ", "\x00", "h1", "h2", "h3", "世", "\xff\xfe", strings.Repeat("x", 3000)}, v.Tokens...)
	ks := func(n int) []string {
		var out []string
		for ; n > 0; n-- {
			out = append(out, keys[r.Intn(len(keys))])
		}
		return out
	}
	var q types.SearchReq
	q.Text = []string{"", "", " ", "    ", "h1  h1", "\xff", "世 世", strings.Repeat("h1 ", 40)}[r.Intn(8)]
	q.Tokens, q.Labels = ks(r.Intn(4)), ks(r.Intn(3))
	if r.Intn(8) == 0 {
		k := keys[r.Intn(len(keys))]
		q.Tokens = []string{k, k, k, k, k, k}
	}
	if r.Intn(3) == 0 {
		q.Logic.Must, q.Logic.Should, q.Logic.NotIn = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		q.Logic.Expr.Must, q.Logic.Expr.Should, q.Logic.Expr.NotIn = ks(r.Intn(3)), ks(r.Intn(3)), ks(r.Intn(3))
	}
	q.DocIds = []map[string]bool{nil, nil, {}, {"": true}, {"0": true, "d0": false}}[r.Intn(5)]
	ints := []int{0, 1, -1, 7, math.MaxInt64, math.MinInt64, math.MaxInt64 / 2, math.MaxInt32}
	if r.Intn(2) == 0 {
		ro := &types.RankOpts{ReverseOrder: r.Intn(2) == 0, OutputOffset: ints[r.Intn(len(ints))], MaxOutputs: ints[r.Intn(len(ints))]}
		if r.Intn(3) == 0 {
			ro.ScoringCriteria = oddCriteria(r.Intn(4))
		}
		q.RankOpts = ro
	}
	q.Timeout = []int{0, 0, -1, math.MinInt64, 1, 100000, math.MaxInt32, math.MaxInt64}[r.Intn(8)]
	q.CountDocsOnly, q.Orderless = r.Intn(6) == 0, r.Intn(6) == 0
	return q
}

var c32 = &h.Prop{ID: "C32", Level: "exploration",
	Rule: "ordinary documents next to hostile ones (empty or repeated keys, keys that are labels too, unsorted, negative or huge locations, invalid UTF-8, payloads that cannot be encoded), hostile requests (no keys, repeated keys, every flag without clause, negative and huge offsets, limits and timeouts, criteria that give NaN or nothing) and calls on unknown ids, from several goroutines, with and without the store; every call must return, and after each round all ordinary documents must answer exactly as the model says and survive a restart. A case is one hostile call; distinct by history and call.",
	Parts: []h.Part{{Name: "engine", Run: func(c *h.C) {
		for i := 0; i < c.N(160, 3000) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 2+r.Intn(5), r.Intn(3), 4+r.Intn(8))
			o := eng.RandOpts(r)
			o.Using = []int{0, 2, 4, 5, 6}[r.Intn(5)] // contents are split by some modes
			store := i%8 == 0
			if store {
				o.UseStore, o.StoreFolder, o.StoreShards = true, filepath.Join(c.Dir, fmt.Sprint("db", i)), 1+r.Intn(3)
				o.StoreEngine = []string{"ldb", "bg", "bolt"}[i/8%3]
			}
			eng.Delays(r)
			w := eng.NewWorld(c, o, v)
			mk := func(r *rnd, id string, n int) *eng.Ver {
				ver := eng.NewVer(r, v, id, n, w.Doc)
				if o.Using != 2 {
					ver.Data.Content = ""
				}
				return ver
			}
			for ph := 0; ph < 1+r.Intn(3); ph++ {
				plan := w.Plan(r, eng.Mix{Touch: 0.6, Remove: 0.2, Force: 0.1, Repeat: 2, NewVerFn: mk})
				var wg sync.WaitGroup
				for g := 0; g < 2; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						r := c.Rand("x", i, ph, g)
						for k := 0; k < 25; k++ {
							var call string
							hid := fmt.Sprint("hostile ", g, r.Intn(4))
							switch x := r.Intn(10); {
							case x < 3:
								d := hostileDoc(r, v, k)
								// the keys of ordinary documents stay theirs
								call = fmt.Sprintf("Index(%q, %d tokens, %d labels)", hid, len(d.Tokens), len(d.Labels))
								c.Phase("%s on %s", call, w.Desc)
								w.E.Index(hid, d, r.Intn(4) == 0)
							case x < 4:
								call = fmt.Sprintf("RemoveDoc(%q)", hid)
								w.E.RemoveDoc(hid, r.Intn(4) == 0)
							case x < 5:
								call = "RemoveDoc, HasDoc of unknown ids"
								w.E.RemoveDoc("nobody", r.Intn(3) == 0)
								if w.E.HasDoc("nobody") || w.E.HasDoc("") {
									c.Violate("unknown", w.Witness(), "HasDoc of an unknown document")
								}
								if store && w.E.HasDocDB("nobody") {
									c.Violate("unknown", w.Witness(), "HasDocDB of an unknown document")
								}
							default:
								q := hostileReq(r, v)
								call = clip(fmt.Sprintf("Search(%q rank %+v)", q, q.RankOpts), 400)
								c.Phase("%s on %s", call, w.Desc)
								w.E.Search(q)
							}
							h.Progress()
							c.Case(fmt.Sprint(i, ph, g, k, call), func() interface{} {
								return map[string]interface{}{"options": w.Desc, "call": call}
							})
						}
					}(g)
				}
				w.Apply(plan)
				wg.Wait()
				w.Flush()
				hostileCheck(w, r, w.E)
			}
			w.E.Close()
			if store {
				e := &riot.Engine{}
				e.Init(o)
				e.Flush()
				w.E = e
				w.Note("restart")
				hostileCheck(w, r, e)
				e.Close()
			}
		}
	}}}}

// hostileCheck compares the ordinary documents with the model; the hostile
// ones are left out by their ids.
func hostileCheck(w *eng.World, r *rnd, e *riot.Engine) {
	f := map[string]bool{}
	for _, id := range w.V.IDs {
		f[id] = true
		if has := e.HasDoc(id); has != (w.Live[id] != nil) {
			w.C.Violate("has-doc", w.Witness(id, has), "next to hostile documents, HasDoc(%q) = %v, live = %v", id, has, w.Live[id] != nil)
		}
	}
	for _, k := range w.AllKeys() {
		w.CheckSet(eng.Query{Tokens: []string{k}, DocIds: f})
	}
	for k := 0; k < 3; k++ {
		q := eng.LogicQuery(r, w.V)
		if q.ShouldOnly() {
			continue
		}
		q.DocIds = f
		w.CheckSet(q)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var c33 = &h.Prop{ID: "C33", Level: "exploration",
	Rule: "requests, documents and options are compared, deeply, with copies taken before the calls, and responses with copies taken when they were returned, after further searches, updates, removals and flushes from other goroutines; responses are overwritten by the caller and the request repeated; several goroutines use the same requests and documents at once, in a build with the race detector. A case is one request or response; non-trivial when writes happened in between, distinct by history and request.",
	Parts: []h.Part{{Name: "engine", Run: func(c *h.C) {
		for i := 0; i < c.N(200, 4000) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 4+r.Intn(14))
			o := eng.RandOpts(r)
			eng.Delays(r)
			w := eng.NewWorld(c, o, v)
			type kept struct {
				resp types.SearchResp
				text string
				what string
			}
			var ks []kept
			type given struct {
				id   string
				data types.DocData
				text string
			}
			var docs []given
			for ph := 0; ph < 2+r.Intn(3); ph++ {
				plan := w.Plan(r, eng.Mix{Touch: 0.7, Remove: 0.25, Force: 0.2, Repeat: 2})
				for _, l := range plan {
					for _, s := range l {
						if !s.Remove {
							docs = append(docs, given{s.ID, s.Ver.Data, fmt.Sprintf("%+v", s.Ver.Data)})
						}
					}
				}
				w.Apply(plan)
				w.Flush()
				for k := 0; k < 10; k++ {
					q := eng.AndQuery(r, v, w.Live)
					if r.Intn(3) == 0 {
						q = eng.LogicQuery(r, v)
					}
					req, cp := q.Req(), q.Req()
					cp.Tokens, cp.Labels = cpy(q.Tokens), cpy(q.Labels)
					cp.Logic.Expr.Must, cp.Logic.Expr.Should, cp.Logic.Expr.NotIn = cpy(q.Logic.Expr.Must), cpy(q.Logic.Expr.Should), cpy(q.Logic.Expr.NotIn)
					if q.DocIds != nil {
						cp.DocIds = map[string]bool{}
						for k, v := range q.DocIds {
							cp.DocIds[k] = v
						}
					}
					room := r.Intn(2) == 0
					if room {
						// room behind the slices that an append would write to
						req.Tokens = append(append(make([]string, 0, 8), q.Tokens...), "spare")[:len(q.Tokens)]
						req.Labels = append(append(make([]string, 0, 8), q.Labels...), "spare")[:len(q.Labels)]
						if len(q.Tokens) == 0 {
							cp.Tokens = []string{}
						}
						if len(q.Labels) == 0 {
							cp.Labels = []string{}
						}
						ro := types.RankOpts{OutputOffset: r.Intn(3) - 1, MaxOutputs: r.Intn(4) - 1, ReverseOrder: r.Intn(2) == 0}
						ro2 := ro
						req.RankOpts, cp.RankOpts = &ro, &ro2
					}
					resp := w.Search(req)
					if !reflect.DeepEqual(req, cp) {
						c.Violate("request", w.Witness(req, cp), "Search changed its request from %+v to %+v", cp, req)
					}
					if room && (req.Tokens[:len(req.Tokens)+1][len(req.Tokens)] != "spare" || req.Labels[:len(req.Labels)+1][len(req.Labels)] != "spare") {
						c.Violate("request", w.Witness(req), "Search wrote behind the slices of its request: %q %q", req.Tokens[:len(req.Tokens)+1], req.Labels[:len(req.Labels)+1])
					}
					if r.Intn(3) == 0 {
						// the response shares nothing with the request
						before := fmt.Sprintf("%+v", resp)
						if room {
							for x := range req.Tokens {
								req.Tokens[x] = "scribble"
							}
							for x := range req.Labels {
								req.Labels[x] = "scribble"
							}
							*req.RankOpts = types.RankOpts{}
						}
						if now := fmt.Sprintf("%+v", resp); now != before {
							c.Violate("request-shared", w.Witness(cp), "the caller used its request again and the response of %s changed from %s to %s", q, clip(before, 300), clip(now, 300))
						}
						if room {
							copy(req.Tokens, cp.Tokens)
							copy(req.Labels, cp.Labels)
							*req.RankOpts = *cp.RankOpts
						}
						other := w.Search(req)
						for x := range other.Tokens {
							other.Tokens[x] = "scribble"
						}
						if !reflect.DeepEqual(req, cp) {
							c.Violate("response-shared", w.Witness(cp), "the caller changed the tokens of a response and its request changed from %+v to %+v", cp, req)
						}
						c.Count("requests_reused", 1)
					}
					if ds, ok := resp.Docs.(types.ScoredDocs); ok && r.Intn(3) == 0 {
						// the documents of a response belong to the caller; ties
						// may fall either way at a limit, so all are compared
						cp.RankOpts = nil
						ds, _ = w.Search(cp).Docs.(types.ScoredDocs)
						want := fmt.Sprintf("%q", scoreLines(eng.ScoredOf(ds), true))
						for k := range ds {
							for _, l := range append(ds[k].TokenLocs, ds[k].TokenSnippetLocs) {
								for x := range l {
									l[x] = -7
								}
							}
							for x := range ds[k].Scores {
								ds[k].Scores[x] = -7
							}
							for x := range ds[k].TokenLocs {
								ds[k].TokenLocs[x] = nil
							}
							ds[k].DocId, ds[k].Content = "scribble", "scribble"
						}
						if got := fmt.Sprintf("%q", scoreLines(eng.ScoredOf(w.Search(cp).Docs), true)); got != want {
							c.Violate("scribble", w.Witness(cp), "after the caller changed the documents of a response to %s, the same search gives %s instead of %s", q, clip(got, 300), clip(want, 300))
						}
						c.Count("responses_overwritten", 1)
						continue
					}
					ks = append(ks, kept{resp, fmt.Sprintf("%+v", resp), q.String()})
					c.Case(fmt.Sprint(i, ph, q), func() interface{} {
						return map[string]interface{}{"options": w.Desc, "query": q.String(), "response": clip(fmt.Sprintf("%+v", resp), 300)}
					})
				}
				for _, k := range ks {
					if now := fmt.Sprintf("%+v", k.resp); now != k.text {
						c.Violate("response", w.Witness(k.what), "the response of an earlier search %s changed from %s to %s", k.what, clip(k.text, 300), clip(now, 300))
						break
					}
				}
				for _, d := range docs {
					if now := fmt.Sprintf("%+v", d.data); now != d.text {
						c.Violate("document", w.Witness(d.id), "the data given for %q changed from %s to %s", d.id, clip(d.text, 300), clip(now, 300))
						break
					}
				}
			}
			w.E.Close()
		}
	}}, {Name: "shared", Race: true, Run: c33Shared}, {Name: "late", Race: true, Run: c33Late}}}

// recorder scores nothing before it is opened, and remembers what it was asked
// to score.
type recorder struct {
	sync.Mutex
	open chan bool
	ids  map[string]bool
}

func (g *recorder) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	g.Lock()
	g.ids[doc.DocId] = true
	g.Unlock()
	<-g.open
	return []float32{1}
}

// c33Late has searches return by their timeout while the shards still have to
// look them up, behind searches that are held, and uses the requests and the
// tokens of the answers again; what is scored late must be what was asked for.
func c33Late(c *h.C) {
	h.Workers(c.N(60, 900), 6, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("late", i)
		v := eng.NewVocab(r, 2+r.Intn(4), 1+r.Intn(3), 4+r.Intn(14))
		o := eng.RandOpts(r)
		o.NumShards = 1 + r.Intn(3)
		w := eng.NewWorld(c, o, v)
		w.Apply(w.Plan(r, eng.Mix{Touch: 0.9, Force: 0.2, Repeat: 1}))
		w.Flush()
		open := make(chan bool)
		type asked struct {
			text string
			want map[string]bool
			rec  *recorder
		}
		var all []asked
		rounds := o.NumRankerThreads + o.RankerBufLen + o.NumIndexerThreads + 6
		for k := 0; k < rounds; k++ {
			q := eng.AndQuery(r, v, w.Live)
			if r.Intn(3) == 0 {
				q = eng.LogicQuery(r, v)
			} else if r.Intn(2) == 0 {
				q.DocIds = map[string]bool{}
				for id := range w.Live {
					if r.Intn(2) == 0 {
						q.DocIds[id] = r.Intn(2) == 0
					}
				}
			}
			if k < rounds-6 { // enough for every worker and every queue
				q = eng.Query{Logic: types.Logic{Expr: types.Expr{Should: append(append([]string{}, v.Tokens...), v.Labels...)}}}
			}
			a := asked{q.String(), map[string]bool{}, &recorder{open: open, ids: map[string]bool{}}}
			match := q.Eval(w.Live)
			if q.IsLogic() && q.ShouldOnly() { // see the finding of C02
				match = q.EvalNoFilter(w.Live)
			}
			for _, id := range match {
				a.want[id] = true
			}
			req := q.Req()
			req.RankOpts = &types.RankOpts{ScoringCriteria: a.rec}
			req.Timeout = 1 + r.Intn(4)
			c.Phase("a search with a timeout of %d ms whose request is used again, %s", req.Timeout, w.Desc)
			resp := w.Search(req)
			// everything is the caller's again
			key := func(l []string) {
				for x := range l {
					l[x] = v.Tokens[r.Intn(len(v.Tokens))]
					if r.Intn(2) == 0 {
						l[x] = v.Labels[r.Intn(len(v.Labels))]
					}
				}
			}
			key(req.Tokens)
			key(req.Labels)
			key(req.Logic.Expr.Must)
			key(req.Logic.Expr.Should)
			key(req.Logic.Expr.NotIn)
			key(resp.Tokens)
			if req.DocIds != nil {
				for id := range w.Live {
					if a.want[id] {
						delete(req.DocIds, id)
					} else {
						req.DocIds[id] = true
					}
				}
			}
			all = append(all, a)
		}
		close(open)
		late, missing := 0, true
		for t := 0; t < 30 && missing; t++ {
			time.Sleep(20 * time.Millisecond)
			late, missing = 0, false
			for _, a := range all {
				a.rec.Lock()
				late += len(a.rec.ids)
				for id := range a.want {
					missing = missing || !a.rec.ids[id]
				}
				a.rec.Unlock()
			}
		}
		w.E.Flush()
		for _, a := range all {
			a.rec.Lock()
			for id := range a.rec.ids {
				if !a.want[id] {
					c.Violate("late", w.Witness(a.text, id), "the caller used its request %s again after the search had timed out, and a shard then looked up %q, which was not asked for", a.text, id)
				}
			}
			sig := ""
			if len(a.rec.ids) > 0 {
				sig = fmt.Sprint("late", i, a.text)
			}
			n := len(a.rec.ids)
			a.rec.Unlock()
			c.Case(sig, func() interface{} {
				return map[string]interface{}{"options": w.Desc, "query": a.text, "scored_late": n}
			})
		}
		c.Count("documents_scored_after_the_timeout", late)
		w.E.Close()
	})
}

// c33Shared has several goroutines use the same requests and documents at
// once, and change what they are answered; the race detector watches.
func c33Shared(c *h.C) {
	for i := 0; i < c.N(40, 700) && !c.Violated(); i++ {
		r := c.Rand("s", i)
		v := eng.NewVocab(r, 2+r.Intn(5), 1+r.Intn(2), 4+r.Intn(10))
		o := eng.RandOpts(r)
		eng.Delays(r)
		w := eng.NewWorld(c, o, v)
		w.Apply(w.Plan(r, eng.Mix{Touch: 0.9, Force: 0.2, Repeat: 1}))
		w.Flush()
		type shared struct {
			q    eng.Query
			req  types.SearchReq
			want string
		}
		var qs []shared
		for k := 0; k < 6; k++ {
			q := eng.AndQuery(r, v, w.Live)
			if k%2 == 1 {
				q = eng.LogicQuery(r, v)
			}
			req := q.Req()
			req.Tokens = append(make([]string, 0, 9), q.Tokens...)
			req.Labels = append(make([]string, 0, 9), q.Labels...)
			req.RankOpts = &types.RankOpts{ReverseOrder: r.Intn(2) == 0, OutputOffset: -r.Intn(2), MaxOutputs: -r.Intn(2)}
			if r.Intn(2) == 0 {
				req.RankOpts.ScoringCriteria = types.RankByBM25{}
			}
			req.Orderless = r.Intn(4) == 0
			qs = append(qs, shared{q, req, fmt.Sprintf("%q", scoreLines(eng.ScoredOf(w.Search(req).Docs), true))})
		}
		docs := []types.DocData{}
		for k := 0; k < 4; k++ {
			docs = append(docs, eng.NewVer(r, v, "shared", k, eng.DocOpt{MaxTok: 3, MaxLab: 2, MaxOcc: 3}).Data)
		}
		var writing int32
		if r.Intn(2) == 0 {
			writing = 1
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := c.Rand("g", i, g)
				for k := 0; k < 20; k++ {
					if writing == 1 && r.Intn(3) == 0 {
						w.E.Index(fmt.Sprint("of ", g), docs[r.Intn(len(docs))], r.Intn(4) == 0)
						h.Progress()
						continue
					}
					s := qs[r.Intn(len(qs))]
					resp := w.Search(s.req)
					l := eng.ScoredOf(resp.Docs)
					if got := fmt.Sprintf("%q", scoreLines(l, true)); writing == 0 && got != s.want {
						c.Violate("shared", w.Witness(s.q), "the request %s, used by several goroutines, gives %s instead of %s", s.q, clip(got, 300), clip(s.want, 300))
					}
					for _, d := range l { // what is answered is the caller's
						for _, t := range append(d.TokenLocs, d.TokenSnippetLocs) {
							for x := range t {
								t[x] = -g
							}
						}
						for x := range d.Scores {
							d.Scores[x] = float32(g)
						}
					}
					if ds, ok := resp.Docs.(types.ScoredDocs); ok {
						for x := range ds {
							ds[x].DocId = "scribble"
						}
					}
					sig := ""
					if len(l) > 0 {
						sig = fmt.Sprint(i, g, k, s.q)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "query": s.q.String(), "response": clip(fmt.Sprintf("%+v", l), 300)}
					})
				}
			}(g)
		}
		wg.Wait()
		w.E.Close()
	}
}

func cpy(s []string) []string {
	if s == nil {
		return nil
	}
	return append([]string{}, s...)
}
