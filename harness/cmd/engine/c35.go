package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

var c35 = &h.Prop{ID: "C35", Level: "exploration",
	Rule:        "searches of every kind (timed out and concurrent ones too), rounds of adding, replacing and removing large documents with new keys, openings of stores and engines and reads of stop-token files are repeated in one process; the goroutines, open files and live heap are measured at rest before and after, and a growth in proportion to the repetitions that stays for a minute is a leak. A case is one operation kind repeated; distinct by kind and configuration.",
	Assumptions: []string{"an engine's own goroutines and index stay when it is closed: only its files are counted then", "per document id the engine may keep some bytes"},
	Parts: []h.Part{{Name: "search", Run: c35Search}, {Name: "texts", Run: c35Texts}, {Name: "documents", Run: c35Docs}, {Name: "stores", Run: c35Stores},
		{Name: "engines", Run: c35Engines}}}

func c35Search(c *h.C) {
	for k := 0; k < c.N(3, 8) && !c.Violated(); k++ {
		r := c.Rand("e", k)
		w := c12World(c, r, 2)
		name := func(s string) string { return fmt.Sprintf("%s (%d)", s, k) }
		n := c.N(400, 3000)
		c.RepeatMax(name("a search"), 200, n, h.Held{Goroutines: n / 8, Files: n / 8, HeapKB: 1000 + n*2}, func(i int) {
			req := eng.AndQuery(r, w.V, w.Live).Req()
			if i%2 == 0 {
				req = eng.LiveLogic(r, w.V, w.Live).Req()
			}
			if i%5 == 0 { // a text no search had before
				req = types.SearchReq{Text: strings.Repeat(fmt.Sprintf("hello %d-%d 世界 ", k, i), 600)}
			}
			req.CountDocsOnly, req.Orderless = r.Intn(6) == 0, r.Intn(6) == 0
			req.Timeout = []int{0, 0, 3600000}[r.Intn(3)]
			w.Search(req)
		})
		if c.Violated() {
			return
		}
		var expired int64
		m := c.N(60, 400)
		c.RepeatMax(name("eight searches of which some time out"), 10, m, h.Held{Goroutines: m / 2, Files: m / 2}, func(i int) {
			g := &gate{hold: map[string]bool{}, open: make(chan bool), base: criteria{salt: i}}
			for id := range w.Live {
				if r.Intn(3) == 0 {
					g.hold[id] = true
				}
			}
			tok := w.V.Tokens[r.Intn(len(w.V.Tokens))]
			var wg, timed sync.WaitGroup
			for s := 0; s < 8; s++ {
				req := types.SearchReq{Tokens: []string{tok}, RankOpts: &types.RankOpts{ScoringCriteria: criteria{salt: s}}}
				wg.Add(1)
				if s < 2 {
					req.RankOpts.ScoringCriteria, req.Timeout = g, 1
					timed.Add(1)
				}
				go func() {
					defer wg.Done()
					if w.Search(req).Timeout {
						atomic.AddInt64(&expired, 1)
					}
					if req.Timeout > 0 {
						timed.Done()
					}
				}()
			}
			timed.Wait()
			close(g.open)
			wg.Wait()
		})
		c.Count("timed_out", int(expired))
	}
}

// c35Texts segments texts no engine had before, in every mode.
func c35Texts(c *h.C) {
	dict, stop := eng.WriteDict(c.Dir)
	for k, mode := range []string{"words", "GseMode", "Hmm", "GseMode and Hmm", "no segmenter"} {
		var e riot.Engine
		o := types.EngineOpts{GseDict: dict, StopTokenFile: stop, NotUseGse: k == 4, GseMode: k == 1 || k == 3, Hmm: k == 2 || k == 3,
			NumShards: 2, IndexerOpts: &types.IndexerOpts{IndexType: types.LocsIndex}}
		e.Init(o)
		r := c.Rand(k)
		text := func(i, n int) string {
			var b strings.Builder
			for j := 0; j < n; j++ {
				fmt.Fprintf(&b, "%s%d-%d ", eng.DictWords[r.Intn(len(eng.DictWords))], i, j)
			}
			return b.String()
		}
		n := c.N(200, 2000)
		kinds := map[string]func(i int){
			"searching for a text":      func(i int) { e.Search(types.SearchReq{Text: text(i, 400)}) },
			"taking a text's tokens":    func(i int) { e.Tokens(types.SearchReq{Text: text(i, 400)}) },
			"segmenting a text":         func(i int) { e.Segment(text(i, 400)) },
			"the pinyin keys of a text": func(i int) { e.PinYin(text(i, 15)) },
		}
		for _, kind := range []string{"searching for a text", "taking a text's tokens", "segmenting a text", "the pinyin keys of a text"} {
			if k == 4 && kind == "segmenting a text" {
				continue
			}
			// a text and its words take 5 KB or more, pinyin keys 10 KB
			c.RepeatMax(fmt.Sprintf("%s (%s)", kind, mode), 30, n, h.Held{Goroutines: n / 8, Files: n / 8, HeapKB: 150 + n}, kinds[kind])
			if c.Violated() {
				return
			}
		}
	}
}

func c35Docs(c *h.C) {
	for k := 0; k < c.N(6, 18) && !c.Violated(); k++ {
		r := c.Rand("d", k)
		o := eng.RandOpts(r)
		o.IDOnly = k == 5 // keeps fields only
		o.IndexerOpts.IndexType = k % 3
		v := eng.NewVocab(r, 5, 2, 10)
		w := eng.NewWorld(c, o, v)
		const docs, size, keys = 1500, 3000, 15
		add := func(round int, id string) {
			mark := fmt.Sprintf("r%d-%s-", round, id)
			d := types.DocData{Content: mark + strings.Repeat("x", size), Fields: bytes.Repeat([]byte(mark), size/len(mark)),
				Attri: bytes.Repeat([]byte(mark), size/len(mark))}
			for t := 0; t < keys; t++ {
				d.Tokens = append(d.Tokens, types.TokenData{Text: fmt.Sprint(mark, "token", t), Locations: []int{t * 9}})
				d.Labels = append(d.Labels, fmt.Sprint(mark, "label", t))
			}
			d.Tokens = append(d.Tokens, types.TokenData{Text: "all", Locations: []int{1000}})
			w.E.Index(id, d, r.Intn(500) == 0)
		}
		find := func(want int) {
			resp := w.E.Search(types.SearchReq{Tokens: []string{"all"}, CountDocsOnly: true})
			if resp.NumDocs != want {
				c.Violate("count", eng.DescOpts(o), "%d documents are found, expected %d", resp.NumDocs, want)
			}
		}
		rounds := c.N(6, 12)
		// everything that a round adds would be about 35 MB with its keys; of
		// what it leaves, a twentieth is allowed
		more := h.Held{Goroutines: 10, Files: 10, HeapKB: rounds * docs * size * 3 / 1000 / 12}
		what := fmt.Sprintf("adding and removing %d documents (%s)", docs, eng.DescOpts(o))
		c.RepeatMax(what, 3, rounds, more, func(i int) {
			for n := 0; n < docs; n++ {
				add(i, fmt.Sprintf("%d.%d", i, n))
			}
			w.E.Flush()
			h.Progress()
			find(docs)
			for n := 0; n < docs; n++ {
				w.E.RemoveDoc(fmt.Sprintf("%d.%d", i, n), r.Intn(500) == 0)
			}
			w.E.Flush()
			find(0)
		})
		if c.Violated() {
			return
		}
		what = fmt.Sprintf("replacing %d documents (%s)", docs, eng.DescOpts(o))
		c.RepeatMax(what, 3, rounds, more, func(i int) {
			for n := 0; n < docs; n++ {
				add(i+1000, fmt.Sprint(n+1))
			}
			w.E.Flush()
			find(docs)
		})
		c.Count("documents", 2*rounds*docs)
		for n := 0; n < docs; n++ { // the engine is never collected
			w.E.RemoveDoc(fmt.Sprint(n + 1))
		}
		w.E.Flush()
	}
}

func c35Stores(c *h.C) {
	for _, b := range backends {
		b := b
		r := c.Rand(b)
		n := c.N(40, 200)
		dir := filepath.Join(c.Dir, b)
		h.Must(os.MkdirAll(dir, 0o755))
		c.Repeat("opening and closing a store ("+b+")", n, func(i int) {
			f := filepath.Join(dir, fmt.Sprint(i%3))
			db, err := store.OpenStore(f, b)
			if err != nil {
				c.Violate("open", nil, "%s: opening %d: %v", b, i, err)
				return
			}
			for k := 0; k < 4; k++ {
				db.Set([]byte(fmt.Sprint("k", k)), []byte(fmt.Sprint("v", i)))
			}
			db.Get([]byte("k1"))
			db.Get([]byte("none"))
			db.Has([]byte("k2"))
			stop := r.Intn(6)
			db.ForEach(func(k, v []byte) error {
				if stop--; stop < 0 {
					return fmt.Errorf("enough")
				}
				return nil
			})
			db.Delete([]byte("k3"))
			if err := db.Close(); err != nil {
				c.Violate("close", nil, "%s: closing %d: %v", b, i, err)
			}
		})
		if c.Violated() {
			return
		}
		db, err := store.OpenStore(filepath.Join(dir, "0"), b)
		h.Must(err)
		m := c.N(400, 4000)
		c.Repeat("reading a store ("+b+")", m, func(i int) {
			db.Get([]byte(fmt.Sprint("k", i%6)))
			db.Has([]byte(fmt.Sprint("k", i%7)))
			stop := i % 4
			db.ForEach(func(k, v []byte) error {
				if stop--; stop < 0 {
					return fmt.Errorf("enough")
				}
				return nil
			})
		})
		h.Must(db.Close())
		if c.Violated() {
			return
		}
		// what cannot be opened
		bad := filepath.Join(dir, "file")
		h.Must(os.WriteFile(bad, []byte("no store"), 0o644))
		c.Repeat("failing to open a store ("+b+")", n, func(i int) {
			if db, err := store.OpenStore(filepath.Join(bad, "below"), b); err == nil {
				db.Close()
				c.Violate("open", nil, "%s: a store below a file opens", b)
			}
		})
		if c.Violated() {
			return
		}
	}
	c.Repeat("asking for an unknown store", 400, func(i int) {
		if db, err := store.OpenStore(filepath.Join(c.Dir, "x"), fmt.Sprint("none", i)); err == nil {
			db.Close()
		}
	})
}

func c35Engines(c *h.C) {
	_, stop := eng.WriteDict(c.Dir)
	for _, b := range backends {
		n := c.N(24, 60)
		if b == "bg" {
			n = c.N(12, 24)
		}
		dir := filepath.Join(c.Dir, "engine-"+b)
		c.RepeatMax("opening and closing an engine ("+b+")", 3, n, h.Held{Goroutines: -1, Files: n / 3, Children: n / 3}, func(i int) {
			var e riot.Engine
			e.Init(types.EngineOpts{NotUseGse: true, NumShards: 2, UseStore: true, StoreFolder: dir, StoreEngine: b, StoreShards: 2,
				StopTokenFile: stop, IndexerOpts: &types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 100}})
			e.Flush()
			for k := 0; k < 3; k++ {
				e.Index(fmt.Sprint(k+1), types.DocData{Tokens: []types.TokenData{{Text: "a", Locations: []int{i}}}})
			}
			e.Flush()
			e.RemoveDoc("3")
			e.Flush()
			if got := e.Search(types.SearchReq{Tokens: []string{"a"}, CountDocsOnly: true}).NumDocs; got != 2 {
				c.Violate("count", nil, "%s: life %d finds %d documents", b, i, got)
			}
			e.Close()
		})
		if c.Violated() {
			return
		}
	}
	// files that only the garbage collector closes are left open
	n := c.N(300, 900)
	debug.SetGCPercent(-1)
	fds, _ := os.ReadDir("/proc/self/fd")
	before := len(fds)
	for i := 0; i < n; i++ {
		var s riot.StopTokens
		s.Init(stop)
	}
	fds, _ = os.ReadDir("/proc/self/fd")
	debug.SetGCPercent(100)
	if len(fds) > before+n/4 {
		c.Violate("leak", nil, "after reading a stop-token file %d times %d more files are open", n, len(fds)-before)
	}
	c.Count("stop_files", n)
	c.Case("stop", nil)
}
