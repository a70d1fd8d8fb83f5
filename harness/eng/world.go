package eng

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"verif/harness/h"
)

// World is a running engine next to its model.
type World struct {
	C     *h.C
	E     *riot.Engine
	Opts  types.EngineOpts
	V     *Vocab
	Live  map[string]*Ver
	Doc   DocOpt
	Log   []string // the history so far, for witnesses
	Desc  string
	n     int64
	MaxW  int // writer goroutines
	Conc  func(w *World, stop chan bool, wg *sync.WaitGroup)
	mu    sync.Mutex
	Stats map[string]int
	Tok   *TokModel               // set when the keys of a document come from its content too
	LenOf func(types.DocData) int // the token length, if it is not len(Tokens)

	KeysOf func(types.DocData) map[string][]int // the keys, if not those of Tok
	Fresh  bool                                 // never build a version out of the one before it
	last   map[string]*Ver

	flushes int
}

// RandOpts draws engine options for documents given as explicit tokens.
func RandOpts(r *rand.Rand) types.EngineOpts {
	sizes := []int{1, 1, 2, 2, 3, 4, 7, 16, 64, 1000}
	o := types.EngineOpts{
		NotUseGse:         true,
		Using:             2,
		NumGseThreads:     1 + r.Intn(4),
		NumShards:         1 + r.Intn(5),
		IndexerBufLen:     1 + r.Intn(4),
		NumIndexerThreads: 1 + r.Intn(3),
		RankerBufLen:      1 + r.Intn(4),
		NumRankerThreads:  1 + r.Intn(3),
		IndexerOpts: &types.IndexerOpts{
			IndexType:    r.Intn(3),
			DocCacheSize: sizes[r.Intn(len(sizes))],
		},
		IDOnly: r.Intn(4) == 0,
	}
	if r.Intn(ScaleOne) == 0 {
		// a large machine
		o.NumShards += []int{3, 11, 27, 60}[r.Intn(4)]
		o.NumGseThreads += r.Intn(30)
		o.NumIndexerThreads += r.Intn(6)
		o.NumRankerThreads += r.Intn(6)
		o.IndexerBufLen += r.Intn(300)
		o.RankerBufLen += r.Intn(300)
	}
	return o
}

// ContentOpts lets some engines take their keys from the content, split
// without a segmenter.
func ContentOpts(r *rand.Rand, o *types.EngineOpts) {
	if r.Intn(3) == 0 {
		o.Using = []int{0, 0, 4, 5, 6}[r.Intn(5)]
	}
}

// DescOpts writes options down.
func DescOpts(o types.EngineOpts) string {
	return fmt.Sprintf("shards=%d gse=%d ibuf=%d ithr=%d rbuf=%d rthr=%d type=%d cache=%d idonly=%v using=%d notgse=%v store=%v/%s/%d",
		o.NumShards, o.NumGseThreads, o.IndexerBufLen, o.NumIndexerThreads, o.RankerBufLen,
		o.NumRankerThreads, o.IndexerOpts.IndexType, o.IndexerOpts.DocCacheSize, o.IDOnly,
		o.Using, o.NotUseGse, o.UseStore, o.StoreEngine, o.StoreShards)
}

// NewWorld starts an engine.
func NewWorld(c *h.C, o types.EngineOpts, v *Vocab) *World {
	w := &World{C: c, E: &riot.Engine{}, Opts: o, V: v, Live: map[string]*Ver{},
		Doc: DocOpt{MaxTok: 6, MaxLab: 2, MaxOcc: 3}, Desc: DescOpts(o), MaxW: 3,
		Stats: map[string]int{}}
	if o.NotUseGse && o.Using != 2 {
		m := &TokModel{O: o}
		w.Tok = m
		w.LenOf = func(d types.DocData) int { _, n := m.KeysLen(d); return n }
	}
	w.E.Init(o)
	return w
}

// Shape completes a drawn version: now and then it keeps some parts of the
// version before it, and its keys are those that the options say.
func (w *World) Shape(r *rand.Rand, d *Ver) *Ver {
	if w.Tok != nil {
		max := 60
		if w.Opts.Using > 4 {
			max = 12
		}
		if len(d.Data.Content) > max || r.Intn(4) > 0 {
			var ws []string
			for i := r.Intn(5); i > 0; i-- {
				if r.Intn(4) == 0 {
					ws = append(ws, DictWords[r.Intn(len(DictWords))])
				} else {
					ws = append(ws, w.V.Tokens[r.Intn(len(w.V.Tokens))])
				}
			}
			if d.Data.Content = strings.Join(ws, " "); len(d.Data.Content) > max {
				d.Data.Content = ""
			}
		}
	}
	w.mu.Lock()
	if w.last == nil {
		w.last = map[string]*Ver{}
	}
	p := w.last[d.ID]
	w.last[d.ID] = d
	w.mu.Unlock()
	if p != nil && !w.Fresh && r.Intn(3) == 0 {
		d.Evolve(r, p)
	}
	if w.Tok != nil {
		d.Keys = w.Tok.KeysOf(d.Data)
	}
	if w.KeysOf != nil {
		d.Keys = w.KeysOf(d.Data)
	}
	if w.LenOf != nil {
		d.TokenLen = w.LenOf(d.Data)
	}
	return d
}

// Next gives a fresh version number.
func (w *World) Next() int { return int(atomic.AddInt64(&w.n, 1)) }

func (w *World) log(format string, args ...interface{}) {
	w.mu.Lock()
	if len(w.Log) < 4000 {
		w.Log = append(w.Log, fmt.Sprintf(format, args...))
	}
	w.mu.Unlock()
}

// Note adds to the history kept for witnesses.
func (w *World) Note(format string, args ...interface{}) { w.log(format, args...) }

// Witness is what a violation keeps.
func (w *World) Witness(extra ...interface{}) interface{} {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.Log
	if len(l) > 300 {
		l = l[len(l)-300:]
	}
	return map[string]interface{}{"options": w.Desc, "history": append([]string{}, l...),
		"observed": fmt.Sprintf("%+v", extra)}
}

// Step is one writer call of a phase.
type Step struct {
	Remove bool
	ID     string
	Ver    *Ver
	Force  bool
}

func (s Step) String() string {
	if s.Remove {
		return fmt.Sprintf("RemoveDoc(%q, %v)", s.ID, s.Force)
	}
	var ks []string
	for k, l := range s.Ver.Keys {
		ks = append(ks, fmt.Sprintf("%q%v", k, l))
	}
	sort.Strings(ks)
	return fmt.Sprintf("Index(%q, v%d{%s}, %v)", s.ID, s.Ver.N, strings.Join(ks, " "), s.Force)
}

// Mix shapes a phase.
type Mix struct {
	Touch    float64 // share of the ids written
	Remove   float64 // share of those removed
	Force    float64
	Repeat   int // versions per id in one phase
	Absent   bool
	NewVerFn func(r *rand.Rand, id string, n int) *Ver
}

// Plan draws the writes of one phase: per id either one removal or a run of
// versions, which one goroutine issues in order; calls on different ids
// interleave. Only such histories have a defined outcome.
func (w *World) Plan(r *rand.Rand, m Mix) [][]Step {
	nw := 1 + r.Intn(w.MaxW)
	per := make([][][]Step, nw)
	for _, id := range w.V.IDs {
		if r.Float64() >= m.Touch {
			continue
		}
		k := r.Intn(nw)
		var run []Step
		if r.Float64() < m.Remove && (w.Live[id] != nil || m.Absent) {
			run = append(run, Step{Remove: true, ID: id, Force: r.Float64() < m.Force})
		} else {
			for i := 1 + r.Intn(m.Repeat); i > 0; i-- {
				var ver *Ver
				if m.NewVerFn != nil {
					ver = m.NewVerFn(r, id, w.Next())
				} else {
					ver = NewVer(r, w.V, id, w.Next(), w.Doc)
				}
				ver = w.Shape(r, ver)
				run = append(run, Step{ID: id, Ver: ver, Force: r.Float64() < m.Force})
			}
		}
		per[k] = append(per[k], run)
	}
	plan := make([][]Step, nw)
	for k := range per {
		// merge the runs of this goroutine at random
		runs := per[k]
		for len(runs) > 0 {
			i := r.Intn(len(runs))
			plan[k] = append(plan[k], runs[i][0])
			if runs[i] = runs[i][1:]; len(runs[i]) == 0 {
				runs = append(runs[:i], runs[i+1:]...)
			}
		}
	}
	return plan
}

// Do issues one call and notes it.
func (w *World) Do(s Step) {
	w.log("%s", s)
	if s.Remove {
		if s.Force {
			w.E.RemoveDoc(s.ID, true)
		} else {
			w.E.RemoveDoc(s.ID)
		}
	} else if s.Force {
		w.E.Index(s.ID, s.Ver.Data, true)
	} else {
		w.E.IndexDoc(s.ID, s.Ver.Data)
	}
	h.Progress()
}

// Apply runs a plan, one goroutine per list, and brings the model up to date.
func (w *World) Apply(plan [][]Step) int {
	var wg sync.WaitGroup
	n := 0
	for _, l := range plan {
		n += len(l)
		wg.Add(1)
		go func(l []Step) {
			defer wg.Done()
			for _, s := range l {
				w.Do(s)
			}
		}(l)
	}
	wg.Wait()
	for _, l := range plan {
		for _, s := range l {
			if s.Remove {
				delete(w.Live, s.ID)
			} else {
				w.Live[s.ID] = s.Ver
			}
		}
	}
	return n
}

// Flush waits for the engine.
func (w *World) Flush() {
	w.log("Flush()")
	w.C.Phase("Flush after %d calls, %s", len(w.Log), w.Desc)
	if w.flushes++; w.flushes%4 == 3 {
		w.E.FlushIndex() // the same by its other name
	} else {
		w.E.Flush()
	}
	h.Progress()
}

// Ids takes the ids of a response, in order.
func Ids(docs interface{}) []string {
	var out []string
	switch l := docs.(type) {
	case types.ScoredDocs:
		for _, d := range l {
			out = append(out, d.DocId)
		}
	case types.ScoredIDs:
		for _, d := range l {
			out = append(out, d.DocId)
		}
	}
	return out
}

// ScoredOf takes the common part of a response's documents.
func ScoredOf(docs interface{}) []types.ScoredID {
	var out []types.ScoredID
	switch l := docs.(type) {
	case types.ScoredDocs:
		for _, d := range l {
			out = append(out, d.ScoredID)
		}
	case types.ScoredIDs:
		out = append(out, l...)
	}
	return out
}

// Search runs a request.
func (w *World) Search(req types.SearchReq) types.SearchResp {
	resp := w.E.Search(req)
	h.Progress()
	return resp
}

// CheckSet compares the set and the count of a search with the model.
// It returns the number of matches, or -1 after a mismatch.
func (w *World) CheckSet(q Query) int {
	req := q.Req()
	resp := w.Search(req)
	got := Ids(resp.Docs)
	want := q.Eval(w.Live)
	if !Same(got, want) {
		key := "result-set"
		if q.ShouldOnly() && q.DocIds != nil && Same(got, q.EvalNoFilter(w.Live)) {
			key = "should-only-search-ignores-docids"
		}
		w.C.Violate(key, w.Witness(q, got, want), "search %s returned %q, the indexed documents give %q",
			q, got, want)
		return -1
	}
	if resp.NumDocs != len(want) {
		w.C.Violate("num-docs", w.Witness(q, resp.NumDocs, want),
			"search %s counted %d documents, %d match", q, resp.NumDocs, len(want))
		return -1
	}
	return len(want)
}

// AllOf asks for every live document by each of its keys.
func (w *World) AllKeys() []string {
	m := map[string]bool{}
	for _, d := range w.Live {
		for k := range d.Keys {
			m[k] = true
		}
	}
	for _, k := range w.V.Tokens {
		m[k] = true
	}
	for _, k := range w.V.Labels {
		m[k] = true
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// CheckPostings compares the documents of every single key, and HasDoc of
// every id, with the model.
func (w *World) CheckPostings() bool {
	ok := true
	for _, k := range w.AllKeys() {
		if w.CheckSet(Query{Tokens: []string{k}}) < 0 {
			ok = false
		}
	}
	for _, id := range w.V.IDs {
		has := w.E.HasDoc(id)
		if has != (w.Live[id] != nil) {
			w.C.Violate("has-doc", w.Witness(id, has), "HasDoc(%q) = %v after Flush, live = %v",
				id, has, w.Live[id] != nil)
			ok = false
		}
	}
	return ok
}
