package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

var backends = []string{"ldb", "bg", "bolt"}

func storeOpts(r *rnd, dir, backend string) types.EngineOpts {
	o := eng.RandOpts(r)
	o.IDOnly = false
	o.UseStore = true
	o.StoreFolder = dir
	o.StoreEngine = backend
	o.StoreShards = 1 + r.Intn(4)
	if r.Intn(10) == 0 && backend != "bg" { // which takes much memory
		o.StoreShards = 5 + r.Intn(20)
	}
	return o
}

// richVer draws a version whose data has every part set in some way.
func richVer(r *rnd, v *eng.Vocab, id string, n int, doc eng.DocOpt) *eng.Ver {
	ver := eng.NewVer(r, v, id, n, doc)
	switch r.Intn(6) {
	case 0:
		ver.Data.Content = ""
	case 1:
		ver.Data.Content = strings.Repeat("世界 content \x00\xff ", 1+r.Intn(3000))
		if r.Intn(20) == 0 { // more than a megabyte now and then
			ver.Data.Content = strings.Repeat("世界 content \x00\xff ", r.Intn(70000))
		}
	case 2:
		ver.Data.Attri = nil
	case 3:
		ver.Data.Attri = types.Attri{}
	case 4:
		ver.Data.Fields = nil
	}
	return ver
}

// checkPayloads compares content, fields and attributes of every live
// document that any key finds.
func checkPayloads(w *eng.World) {
	q := eng.Query{Logic: types.Logic{Expr: types.Expr{Should: w.AllKeys()}}}
	req := q.Req()
	req.RankOpts = &types.RankOpts{ScoringCriteria: one{}}
	resp := w.Search(req)
	for _, d := range resp.Docs.(types.ScoredDocs) {
		ver := w.Live[d.DocId]
		if ver == nil {
			w.C.Violate("ghost", w.Witness(d.DocId), "the document %q is found though it is not live", d.DocId)
			continue
		}
		if s := diffPayload(ver, d); s != "" {
			w.C.Violate("payload", w.Witness(d.DocId), "document %q: %s", d.DocId, clip(s, 500))
		}
	}
	if want := q.Eval(w.Live); !eng.Same(eng.Ids(resp.Docs), want) {
		w.C.Violate("result-set", w.Witness(want), "all keys together find %q, expected %q", eng.Ids(resp.Docs), want)
	}
}

// checkMirror compares the store with the model.
func checkMirror(w *eng.World) {
	var want []string
	for id := range w.Live {
		want = append(want, id)
	}
	sort.Strings(want)
	if got := w.E.GetDBAllIds(); !eng.Same(got, want) {
		w.C.Violate("store-ids", w.Witness(got), "the store lists %q, live are %q", got, want)
	}
	if got := w.E.GetAllDocIds(); !eng.Same(got, want) {
		w.C.Violate("store-ids", w.Witness(got), "GetAllDocIds lists %q, live are %q", got, want)
	}
	ids, docs := w.E.GetDBAllDocs()
	if !eng.Same(ids, want) || len(docs) != len(ids) {
		w.C.Violate("store-docs", w.Witness(ids), "the store lists the documents of %q (%d), live are %q", ids, len(docs), want)
		return
	}
	for k, id := range ids {
		if g, e := fmt.Sprintf("%+v", docs[k]), fmt.Sprintf("%+v", w.Live[id].Data); g != e {
			w.C.Violate("store-data", w.Witness(id), "the store holds %s for %q, indexed last with %s", clip(g, 400), id, clip(e, 400))
		}
	}
	for _, id := range append([]string{"nobody"}, w.V.IDs...) {
		if has := w.E.HasDocDB(id); has != (w.Live[id] != nil) {
			w.C.Violate("has-doc-db", w.Witness(id, has), "HasDocDB(%q) = %v, live = %v", id, has, w.Live[id] != nil)
		}
	}
	h.Progress()
}

var c20 = &h.Prop{ID: "C20", Level: "exploration",
	Rule:        "histories of concurrent Index and RemoveDoc calls on engines with each store backend, several store shards and injected delays; after each Flush the ids and the decoded documents that the store lists, and HasDocDB of every id, are compared with the live documents of the model; after several goroutines raced on the same ids, the store has to hold the version that the index shows. A case is one comparison; non-trivial when a document was replaced or removed, distinct by history.",
	Assumptions: []string{"payload types are registered with encoding/gob, as the documentation asks"},
	Parts: []h.Part{{Name: "engine", Run: func(c *h.C) {
		for i := 0; i < c.N(240, 2400) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 3+r.Intn(16))
			dir := filepath.Join(c.Dir, fmt.Sprint("db", i))
			o := storeOpts(r, dir, backends[i%3])
			if r.Intn(3) == 0 {
				o.StoreEngine = eng.SlowStore(o.StoreEngine)
			}
			eng.ContentOpts(r, &o)
			dl := eng.Delays(r)
			w := eng.NewWorld(c, o, v)
			w.Note("delays: %s", dl)
			mk := func(r *rnd, id string, n int) *eng.Ver { return richVer(r, v, id, n, w.Doc) }
			for ph := 0; ph < 2+r.Intn(4); ph++ {
				before := map[string]*eng.Ver{}
				for k, d := range w.Live {
					before[k] = d
				}
				n := w.Apply(w.Plan(r, eng.Mix{Touch: 0.6, Remove: 0.35, Force: 0.1, Repeat: 3, Absent: true, NewVerFn: mk}))
				w.Flush()
				checkMirror(w)
				c.Count("writes", n)
				sig := ""
				for id, d := range before {
					if w.Live[id] != d {
						sig = fmt.Sprint(i, ph)
					}
				}
				c.Case(sig, func() interface{} {
					return map[string]interface{}{"options": w.Desc, "delays": dl, "live": len(w.Live)}
				})
			}
			w.E.Close()
			os.RemoveAll(dir)
		}
	}}, {Name: "race", Run: func(c *h.C) {
		for i := 0; i < c.N(90, 900) && !c.Violated(); i++ {
			r := c.Rand("r", i)
			v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 1+r.Intn(8))
			dir := filepath.Join(c.Dir, fmt.Sprint("race", i))
			o := storeOpts(r, dir, backends[i%3])
			if r.Intn(3) == 0 {
				o.StoreEngine = eng.SlowStore(o.StoreEngine)
			}
			eng.ContentOpts(r, &o)
			dl := eng.Delays(r)
			w := eng.NewWorld(c, o, v)
			w.Note("delays: %s", dl)
			mk := func(r *rnd, id string, n int) *eng.Ver { return richVer(r, v, id, n, w.Doc) }
			for ph := 0; ph < 2+r.Intn(3); ph++ {
				n, k := raceWrites(w, r, mk)
				checkMirror(w)
				checkPayloads(w)
				c.Count("racing_writes", n)
				c.Count("raced_documents", k)
				c.Case(fmt.Sprint("race", i, ph), func() interface{} {
					return map[string]interface{}{"options": w.Desc, "delays": dl, "documents": k, "writes": n}
				})
			}
			w.E.Close()
			os.RemoveAll(dir)
		}
	}}, {Name: "none", Run: func(c *h.C) {
		// without a store
		for i := 0; i < c.N(30, 300) && !c.Violated(); i++ {
			r := c.Rand("n", i)
			v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 3+r.Intn(16))
			o := eng.RandOpts(r)
			o.StoreShards = r.Intn(4)
			w := eng.NewWorld(c, o, v)
			w.Apply(w.Plan(r, eng.Mix{Touch: 0.6, Remove: 0.35, Force: 0.1, Repeat: 3}))
			w.Flush()
			for _, id := range v.IDs {
				riot.Try(func() {
					if w.E.HasDocDB(id) {
						c.Violate("none", w.Witness(id), "an engine without a store has %q in its store", id)
					}
				}, func(e interface{}) {
					c.Violate("none-panic", w.Witness(id), "HasDocDB(%q) of an engine without a store panics: %v", id, e)
				})
			}
			ids, docs := w.E.GetDBAllDocs()
			if n := len(w.E.GetDBAllIds()) + len(w.E.GetAllDocIds()) + len(ids) + len(docs); n > 0 {
				c.Violate("none", w.Witness(n), "an engine without a store lists %q", ids)
			}
			w.E.Close()
			c.Case(fmt.Sprint("none", i), nil)
		}
	}}, large(2, lMirror, eng.AndQuery)}}

var c18 = &h.Prop{ID: "C18", Level: "exploration",
	Rule:        "histories of writes on each store backend, closed and opened again several times, each time with other shards, threads, caches, index type and forced updates, with records in the store that cannot be decoded, and through the default constructor; after each restart all posting lists, payloads, HasDoc, the store, token locations and (with one shard) BM25 scores are compared with the model, and the engine is written again. A case is one restart; non-trivial when there are live documents, distinct by history.",
	Assumptions: []string{"payload types are registered with encoding/gob; the store folder and the number of store shards stay the same"},
	Parts: []h.Part{
		{Name: "ldb", Run: func(c *h.C) { c18Run(c, "ldb", c.N(80, 800)) }},
		{Name: "bolt", Run: func(c *h.C) { c18Run(c, "bolt", c.N(60, 500)) }},
		{Name: "bg", Run: func(c *h.C) { c18Run(c, "bg", c.N(50, 500)) }},
		{Name: "defaults", Run: c18New},
		large(2, lRestart|lHas|lPayload|lMirror, eng.AndQuery),
	}}

func c18Run(c *h.C, backend string, n int) {
	h.Workers(n, 3, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("h", i)
		v := eng.NewVocab(r, 2+r.Intn(6), r.Intn(3), 3+r.Intn(30))
		dir := filepath.Join(c.Dir, fmt.Sprint("db", i))
		o := storeOpts(r, dir, backend)
		if r.Intn(3) == 0 {
			o.StoreEngine = eng.SlowStore(backend)
			eng.Delays(r)
		}
		eng.ContentOpts(r, &o)
		shards, using := o.StoreShards, o.Using
		w := eng.NewWorld(c, o, v)
		mk := func(r *rnd, id string, n int) *eng.Ver { return richVer(r, v, id, n, w.Doc) }
		for life := 0; life < 2+r.Intn(3); life++ {
			for ph := 0; ph < 1+r.Intn(3); ph++ {
				w.Apply(w.Plan(r, eng.Mix{Touch: 0.6, Remove: 0.3, Force: 0.1, Repeat: 2, Absent: true, NewVerFn: mk}))
				if r.Intn(2) == 0 || ph > 0 {
					w.Flush()
				}
			}
			// Close alone must be enough
			w.Note("Close()")
			c.Phase("Close, %s", w.Desc)
			w.E.Close()
			h.Progress()
			garbage := ""
			if r.Intn(4) == 0 {
				garbage = poison(r, dir, shards, backend)
				w.Note("undecodable record %q", garbage)
			}
			o = storeOpts(r, dir, backend)
			o.StoreShards, o.Using = shards, using
			w.Opts, w.Desc = o, eng.DescOpts(o)
			w.E = &riot.Engine{}
			w.Note("restart with %s", w.Desc)
			c.Phase("restart with %s", w.Desc)
			w.E.Init(o)
			h.Progress()
			w.Flush()
			w.CheckPostings()
			checkPayloads(w)
			checkScores(w, r)
			if garbage != "" {
				for _, k := range []string{"halfdecoded", garbage} {
					resp := w.E.Search(types.SearchReq{Tokens: []string{k}})
					if len(eng.Ids(resp.Docs)) != 0 || resp.NumDocs != 0 {
						c.Violate("undecodable", w.Witness(map[string]interface{}{"response": fmt.Sprintf("%+v", resp)}), "the record %q cannot be decoded, yet the document is found", garbage)
					}
				}
				if w.E.HasDoc(garbage) {
					c.Violate("undecodable", w.Witness(nil), "the record %q cannot be decoded, yet HasDoc reports it", garbage)
				}
				c.Count("undecodable_records", 1)
			}
			if garbage == "" {
				checkMirror(w)
			} else {
				w.E.RemoveDoc(garbage)
				w.Flush()
				checkMirror(w)
			}
			sig := ""
			if len(w.Live) > 0 {
				sig = fmt.Sprint(i, life)
			}
			c.Count("documents_recovered", len(w.Live))
			c.Case(sig, func() interface{} {
				return map[string]interface{}{"options": w.Desc, "live": len(w.Live), "undecodable_record": garbage != ""}
			})
		}
		w.E.Close()
		os.RemoveAll(dir)
	})
}

// checkScores compares token locations with those indexed, and the scores of an
// engine with one shard with BM25 over the live documents.
func checkScores(w *eng.World, r *rnd) {
	typ := w.Opts.IndexerOpts.IndexType
	if typ == types.DocIdsIndex {
		return
	}
	bm := w.Opts.IndexerOpts.BM25Parameters
	if bm == nil {
		bm = &types.BM25Parameters{K1: 2, B: 0.75}
	}
	ks := w.AllKeys()
	for k := 0; k < 12; k++ {
		q := distinctTokens(eng.AndQuery(r, w.V, w.Live), false)
		if k%3 == 0 {
			q.Tokens, q.Labels = []string{ks[r.Intn(len(ks))]}, nil
		}
		for _, d := range eng.ScoredOf(w.Search(q.Req()).Docs) {
			if typ == types.LocsIndex {
				n := checkLocs(w.C, w.Live[d.DocId], q, d.TokenLocs, d.TokenSnippetLocs, 0, false,
					func() interface{} { return w.Witness(q, d) })
				if n > 0 {
					w.C.Count("locations_compared", 1)
				}
			}
			want, ok := bm25(w.Live, q, d.DocId, typ, bm)
			if !ok || w.Opts.NumShards != 1 {
				continue
			}
			if len(d.Scores) != 1 || !close4(float64(d.Scores[0]), want) {
				w.C.Violate("bm25", w.Witness(q, d, want), "search %s scores %q %v, BM25 over the live documents is %v", q, d.DocId, d.Scores, want)
			}
			w.C.Count("scores_compared", 1)
		}
	}
}

// poison puts a record that is no document into the closed store.
func poison(r *rnd, dir string, shards int, backend string) string {
	ids := []string{"garbage", "garbage2", "0garbage"}
	id := ids[r.Intn(len(ids))]
	e := &riot.Engine{}
	_ = e
	db, err := store.OpenStore(dir+"/"+riot.StoreFilePrefix+"."+fmt.Sprint(shardOf(id, shards)), backend)
	h.Must(err)
	// the last one is a document of which only a part can be decoded
	val := [][]byte{[]byte("no gob"), {}, {0xff, 0x00}, []byte(strings.Repeat("x", 500)), half()}[r.Intn(5)]
	if backend == "bolt" && len(val) == 0 {
		val = []byte{0} // see the finding on empty values in bolt
	}
	h.Must(db.Set([]byte(id), val))
	h.Must(db.Close())
	return id
}

// half is the record of a document whose content is whole and whose fields are
// of a type this program does not know.
func half() []byte {
	var b bytes.Buffer
	h.Must(gob.NewEncoder(&b).Encode(types.DocData{Content: "halfdecoded", Labels: []string{"halfdecoded"},
		Tokens: []types.TokenData{{Text: "halfdecoded"}}, Attri: eng.Payload{}, Fields: eng.Payload{}}))
	v := bytes.ReplaceAll(b.Bytes(), []byte("eng.Payload"), []byte("eng.Unknown"))
	if bytes.Equal(v, b.Bytes()) {
		panic("the record does not name its type")
	}
	return v
}

func c18New(c *h.C) {
	dict, _ := eng.WriteDict(c.Dir)
	for i := 0; i < c.N(12, 60) && !c.Violated(); i++ {
		r := c.Rand("n", i)
		dir := filepath.Join(c.Dir, fmt.Sprint("new", i))
		shards := 1 + r.Intn(4)
		live := map[string]string{}
		for life := 0; life < 3; life++ {
			c.Phase("riot.New(dict, %q, %d)", dir, shards)
			e := riot.New(dict, dir, shards)
			e.Flush()
			h.Progress()
			bad := func(what string, got interface{}) {
				c.Violate("new", map[string]interface{}{"live": live, "got": fmt.Sprint(got)}, "riot.New on a kept folder, life %d: %s", life, what)
			}
			got := e.GetDBAllIds()
			var want []string
			for id := range live {
				want = append(want, id)
				if !e.HasDoc(id) || !e.HasDocDB(id) {
					bad("document "+id+" is missing", nil)
				}
			}
			if !eng.Same(got, want) {
				bad(fmt.Sprintf("the store lists %q, live are %q", got, want), got)
			}
			for _, word := range []string{"世界", "人口", "hello"} {
				var exp []string
				for id, t := range live {
					if strings.Contains(" "+t+" ", " "+word+" ") {
						exp = append(exp, id)
					}
				}
				if g := eng.Ids(e.Search(types.SearchReq{Text: word}).Docs); !eng.Same(g, exp) {
					bad(fmt.Sprintf("%q finds %q, expected %q", word, g, exp), g)
				}
			}
			c.Case(fmt.Sprint(i, life), func() interface{} { return map[string]interface{}{"shards": shards, "live": live} })
			var wg sync.WaitGroup
			for k := 0; k < 8; k++ {
				id := fmt.Sprint("doc", r.Intn(12))
				if _, ok := live[id]; ok && r.Intn(3) == 0 {
					e.Flush()
					e.RemoveDoc(id)
					delete(live, id)
					e.Flush()
					continue
				}
				t := []string{"世界 人口", "hello", "人口 , hello", "中国"}[r.Intn(4)]
				live[id] = t
				e.Index(id, types.DocData{Content: t})
			}
			wg.Wait()
			e.Close()
			h.Progress()
		}
		os.RemoveAll(dir)
	}
}
