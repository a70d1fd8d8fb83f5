package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// Large runs: tens of thousands of documents in one or two shards, so that
// posting lists, caches, registries and stores get long.

func largeVocab(n int) *eng.Vocab {
	v := &eng.Vocab{Absent: []string{"nowhere"}}
	for i := 0; i < 9; i++ {
		v.Tokens = append(v.Tokens, fmt.Sprintf("t%d", i))
	}
	v.Labels = []string{"l0", "l1", "t0"}
	for i := 0; i < n; i++ {
		v.IDs = append(v.IDs, fmt.Sprintf("d%d", i*7919))
	}
	return v
}

// diffSets tells in short how two sets of ids differ.
func diffSets(got, want []string) string {
	cnt := map[string]int{}
	for _, id := range want {
		cnt[id]++
	}
	for _, id := range got {
		cnt[id]--
	}
	var miss, extra []string
	for _, id := range want {
		if cnt[id] > 0 {
			miss = append(miss, id)
			cnt[id] = 0
		}
	}
	for _, id := range got {
		if cnt[id] < 0 {
			extra = append(extra, id)
			cnt[id] = 0
		}
	}
	if len(miss)+len(extra) == 0 {
		return ""
	}
	return fmt.Sprintf("%d are missing (%.200q), %d should not be there or not so often (%.200q)", len(miss), miss[:min(5, len(miss))], len(extra), extra[:min(5, len(extra))])
}

// what a large run looks at
const (
	lHas = 1 << iota
	lPayload
	lCounters
	lMirror // implies a store
	lRestart
	lSlow // queries take time quadratic in the number of documents
)

// checkLarge compares one search with the model.
func checkLarge(w *eng.World, q eng.Query, what int) int {
	want := q.Eval(w.Live)
	resp := w.Search(q.Req())
	got := eng.Ids(resp.Docs)
	if s := diffSets(got, want); s != "" {
		key := "result-set"
		if q.ShouldOnly() && q.DocIds != nil && eng.Same(got, q.EvalNoFilter(w.Live)) {
			key = "should-only-search-ignores-docids"
		}
		w.C.Violate(key, w.Witness(s), "search %s on %d documents: %s", clip(q.String(), 300), len(w.Live), s)
		return -1
	}
	if resp.NumDocs != len(want) {
		w.C.Violate("num-docs", w.Witness(resp.NumDocs), "search %s on %d documents counted %d, %d match", clip(q.String(), 300), len(w.Live), resp.NumDocs, len(want))
	}
	if docs, ok := resp.Docs.(types.ScoredDocs); ok && what&lPayload != 0 {
		for _, d := range docs {
			if lv := w.Live[d.DocId]; lv != nil {
				if s := diffPayload(lv, d); s != "" {
					w.C.Violate("payload", w.Witness(d.DocId), "search %s returned %q with %s", clip(q.String(), 300), d.DocId, clip(s, 300))
					return -1
				}
			}
		}
	}
	w.C.Max("most_matches", len(want))
	return len(want)
}

// large makes a part that runs one engine with very many documents.
func large(cases, what int, gen queryGen) h.Part {
	backend := what&(lMirror|lRestart) != 0
	return h.Part{Name: "large", Run: func(c *h.C) {
		for i := 0; i < c.N(cases, 6*cases) && !c.Violated(); i++ {
			r := c.Rand("large", i)
			n := 12000 + r.Intn(4000)
			if i == 0 && !backend {
				n = 42000 + r.Intn(4000) // so that one posting list has more than 1<<15 entries
			} else if i == 1 && !backend {
				n = 67000 + r.Intn(2000) // more than 1<<16 documents, in two shards
			}
			if what&lSlow != 0 {
				n = []int{36000, 14000}[i%2] + r.Intn(2000)
			}
			v := largeVocab(n)
			keys := append(append([]string{"nowhere"}, v.Tokens...), v.Labels...)
			if i < 2 {
				for len(v.Tokens) < 30 {
					v.Tokens = append(v.Tokens, "t0") // what nearly every document has
				}
			}
			o := eng.RandOpts(r)
			o.NumShards, o.IDOnly = 1+i%2, false
			o.IndexerOpts.DocCacheSize = []int{500, 5000, 30000, 100000}[r.Intn(4)]
			o.IndexerBufLen, o.RankerBufLen = 1000, 1000
			dir := filepath.Join(c.Dir, fmt.Sprint("large", i))
			if backend {
				o.UseStore, o.StoreFolder, o.StoreShards = true, dir, 1+r.Intn(2)
				o.StoreEngine = backends[(i+1)%3]
				if o.StoreEngine == "bolt" { // which syncs every write
					n /= 30
					v.IDs = v.IDs[:n]
				}
			}
			w := eng.NewWorld(c, o, v)
			w.Doc = eng.DocOpt{MaxTok: 5, MaxLab: 1, MaxOcc: 2}
			if i < 2 {
				w.Doc.MaxTok = 12
			}
			w.Tok, w.LenOf = nil, nil
			var t tally
			phases := []struct{ touch, remove float64 }{{1, 0}, {0.4, 0.4}, {0.3, 0.1}}
			for ph, p := range phases {
				if c.Violated() {
					break
				}
				c.Phase("large %d phase %d: %s", i, ph, w.Desc)
				writes := bulkApply(w, r, p.touch, p.remove, &t)
				w.Flush()
				c.Count("writes", writes)
				c.Max("most_documents", len(w.Live))
				for k, key := range keys {
					m := checkLarge(w, eng.Query{Tokens: []string{key}}, what)
					c.Case(fmt.Sprint("large", i, ph, k), func() interface{} {
						return map[string]interface{}{"options": w.Desc, "key": key, "matches": m, "live": len(w.Live)}
					})
				}
				for k := 0; k < 10; k++ {
					q := gen(r, v, w.Live)
					m := checkLarge(w, q, what)
					sig := ""
					if m > 0 && m < len(w.Live) {
						sig = fmt.Sprint("large", i, ph, q)
					}
					c.Case(sig, nil)
				}
				for _, id := range v.IDs {
					if what&lHas == 0 {
						break
					}
					if has := w.E.HasDoc(id); has != (w.Live[id] != nil) {
						c.Violate("has-doc", w.Witness(id, has), "HasDoc(%q) = %v with %d documents, live = %v", id, has, len(w.Live), w.Live[id] != nil)
						break
					}
				}
				if what&lMirror != 0 {
					largeMirror(w)
				}
				if ni, nr, nt := w.E.NumDocsIndexed(), w.E.NumDocsRemoved(), w.E.NumTokenIndexAdded(); what&lCounters != 0 && (ni != t.idx || nr != t.rem*uint64(o.NumShards) || nt != t.keys) {
					c.Violate("counters", w.Witness(ni, nr, nt), "%d indexed, %d removed, %d keys are counted after %d documents with %d keys and %d removals on %d shards", ni, nr, nt, t.idx, t.keys, t.rem, o.NumShards)
				}
			}
			w.E.Close()
			if what&lRestart != 0 && !c.Violated() { // the next life
				c.Phase("large %d opened again: %s", i, w.Desc)
				w.Opts.NumShards = 1 + r.Intn(3)
				w.E = &riot.Engine{}
				w.E.Init(w.Opts)
				w.Flush()
				if got := w.E.NumDocsIndexed(); what&lCounters != 0 && got != uint64(len(w.Live)) {
					c.Violate("recovered", w.Witness(got), "%d documents are recovered, %d were live", got, len(w.Live))
				}
				for _, key := range keys {
					checkLarge(w, eng.Query{Tokens: []string{key}}, what)
				}
				if what&lMirror != 0 {
					largeMirror(w)
				}
				c.Case(fmt.Sprint("large-again", i), nil)
				w.E.Close()
			}
			os.RemoveAll(dir)
		}
	}}
}

// tally is what the counters should say.
type tally struct{ idx, rem, keys uint64 }

// bulkApply runs the calls of several writers, each id by one of them.
func bulkApply(w *eng.World, r *rnd, touch, remove float64, t *tally) int {
	const writers = 3
	var plan [writers][]eng.Step
	n := 0
	for _, i := range r.Perm(len(w.V.IDs)) {
		id := w.V.IDs[i]
		if r.Float64() >= touch {
			continue
		}
		s := eng.Step{ID: id, Force: r.Intn(20000) == 0}
		if w.Live[id] != nil && r.Float64() < remove {
			s.Remove = true
			t.rem++
		} else {
			s.Ver = w.Shape(r, eng.NewVer(r, w.V, id, w.Next(), w.Doc))
			t.idx++
			t.keys += uint64(len(s.Ver.Keys))
		}
		g := n % writers
		plan[g] = append(plan[g], s)
		n++
	}
	var wg sync.WaitGroup
	for g := range plan {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, s := range plan[g] {
				w.Do(s)
			}
		}()
	}
	wg.Wait()
	for g := range plan {
		for _, s := range plan[g] {
			if s.Remove {
				delete(w.Live, s.ID)
			} else {
				w.Live[s.ID] = s.Ver
			}
		}
	}
	return n
}

// largeMirror compares the store with the live documents.
func largeMirror(w *eng.World) {
	var want []string
	for id := range w.Live {
		want = append(want, id)
	}
	ids, docs := w.E.GetDBAllDocs()
	h.Progress()
	if s := diffSets(ids, want); s != "" || len(docs) != len(ids) {
		w.C.Violate("store-ids", w.Witness(s), "the store of %d live documents: %s", len(want), s)
		return
	}
	if s := diffSets(w.E.GetDBAllIds(), want); s != "" {
		w.C.Violate("store-ids", w.Witness(s), "the ids listed by the store of %d live documents: %s", len(want), s)
		return
	}
	for k, id := range ids {
		if g, e := fmt.Sprintf("%+v", docs[k]), fmt.Sprintf("%+v", w.Live[id].Data); g != e {
			w.C.Violate("store-data", w.Witness(id), "the store holds %s for %q, indexed last with %s", clip(g, 400), id, clip(e, 400))
			return
		}
	}
	h.Progress()
}
