package eng

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"verif/harness/h"
)

// Core is one index, driven directly, next to its model.
type Core struct {
	C    *h.C
	X    *core.Indexer
	Opts types.IndexerOpts
	V    *Vocab
	Live map[string]*Ver
	Doc  DocOpt
	Log  []string
	Desc string
	n    int
}

// NewCore makes an index with random options.
func NewCore(c *h.C, r *rand.Rand, v *Vocab) *Core {
	sizes := []int{1, 2, 3, 4, 5, 8, 32, 1000}
	o := types.IndexerOpts{IndexType: r.Intn(3), DocCacheSize: sizes[r.Intn(len(sizes))],
		BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}}
	return NewCoreOpts(c, v, o)
}

// NewCoreOpts makes an index.
func NewCoreOpts(c *h.C, v *Vocab, o types.IndexerOpts) *Core {
	w := &Core{C: c, X: &core.Indexer{}, Opts: o, V: v, Live: map[string]*Ver{},
		Doc:  DocOpt{MaxTok: 6, MaxLab: 2, MaxOcc: 3, Bare: true},
		Desc: fmt.Sprintf("type=%d cache=%d", o.IndexType, o.DocCacheSize)}
	w.X.Init(o)
	return w
}

func (w *Core) note(format string, args ...interface{}) {
	if len(w.Log) < 4000 {
		w.Log = append(w.Log, fmt.Sprintf(format, args...))
	}
}

// Witness is what a violation keeps.
func (w *Core) Witness(extra ...interface{}) interface{} {
	l := w.Log
	if len(l) > 300 {
		l = l[len(l)-300:]
	}
	return map[string]interface{}{"index": w.Desc, "history": l, "observed": fmt.Sprintf("%+v", extra)}
}

// Add indexes a version.
func (w *Core) Add(d *Ver, force bool) {
	w.note("%s", Step{ID: d.ID, Ver: d, Force: force})
	w.X.AddDocToCache(d.DocIndex(), force)
	w.Live[d.ID] = d
	h.Progress()
}

// Remove removes a document that no unflushed Add concerns.
func (w *Core) Remove(id string, force bool) {
	w.note("%s", Step{Remove: true, ID: id, Force: force})
	w.X.RemoveDocToCache(id, force)
	delete(w.Live, id)
	h.Progress()
}

// Flush forces both caches.
func (w *Core) Flush() {
	w.note("flush")
	w.X.AddDocToCache(nil, true)
	h.Progress()
}

// Random applies a phase of calls: ids written several times, removed, or
// removed and then added again.
func (w *Core) Random(r *rand.Rand, touch, remove, force float64) int {
	n := 0
	type run []Step
	var runs []run
	last := map[string]*Ver{}
	for id, d := range w.Live {
		last[id] = d
	}
	for _, id := range w.V.IDs {
		if r.Float64() >= touch {
			continue
		}
		var s run
		if r.Float64() < remove {
			s = append(s, Step{Remove: true, ID: id, Force: r.Float64() < force})
		}
		if len(s) == 0 || r.Intn(3) == 0 {
			for i := 1 + r.Intn(2)*r.Intn(3); i > 0; i-- {
				w.n++
				d := NewVer(r, w.V, id, w.n, w.Doc)
				if p := last[id]; p != nil && r.Intn(4) == 0 {
					d.Evolve(r, p)
				}
				last[id] = d
				s = append(s, Step{ID: id, Ver: d, Force: r.Float64() < force})
			}
		}
		runs = append(runs, s)
	}
	for len(runs) > 0 {
		i := r.Intn(len(runs))
		s := runs[i][0]
		if s.Remove {
			w.Remove(s.ID, s.Force)
		} else {
			w.Add(s.Ver, s.Force)
		}
		n++
		if runs[i] = runs[i][1:]; len(runs[i]) == 0 {
			runs = append(runs[:i], runs[i+1:]...)
		}
	}
	return n
}

// Lookup runs a query.
func (w *Core) Lookup(q Query, count bool) ([]types.IndexedDoc, int) {
	docs, n := w.X.Lookup(q.Tokens, q.Labels, q.DocIds, count, q.Logic)
	h.Progress()
	return docs, n
}

// CheckSet compares a lookup with the model; -1 after a mismatch.
func (w *Core) CheckSet(q Query) int {
	docs, n := w.Lookup(q, false)
	var got []string
	for _, d := range docs {
		got = append(got, d.DocId)
	}
	want := q.Eval(w.Live)
	if !Same(got, want) {
		key := "result-set"
		if q.ShouldOnly() && q.DocIds != nil && Same(got, q.EvalNoFilter(w.Live)) {
			key = "should-only-search-ignores-docids"
		}
		w.C.Violate(key, w.Witness(q, got, want), "lookup %s returned %q, the indexed documents give %q", q, got, want)
		return -1
	}
	if n != len(want) {
		w.C.Violate("num-docs", w.Witness(q, n, want), "lookup %s counted %d, %d match", q, n, len(want))
		return -1
	}
	return len(want)
}

// CheckPostings compares all single-key lookups and HasDoc with the model.
func (w *Core) CheckPostings() bool {
	m := map[string]bool{}
	for _, d := range w.Live {
		for k := range d.Keys {
			m[k] = true
		}
	}
	for _, k := range append(append([]string{}, w.V.Tokens...), w.V.Labels...) {
		m[k] = true
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	ok := true
	for _, k := range ks {
		if w.CheckSet(Query{Tokens: []string{k}}) < 0 {
			ok = false
		}
	}
	for _, id := range w.V.IDs {
		if has := w.X.HasDoc(id); has != (w.Live[id] != nil) {
			w.C.Violate("has-doc", w.Witness(id, has), "HasDoc(%q) = %v, live = %v", id, has, w.Live[id] != nil)
			ok = false
		}
	}
	return ok
}
