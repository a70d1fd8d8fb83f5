package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// randEngineOpts sets each option or leaves it out.
func randEngineOpts(r *rand.Rand) types.EngineOpts {
	var o types.EngineOpts
	v := reflect.ValueOf(&o).Elem()
	for i := 0; i < v.NumField(); i++ {
		if r.Intn(2) == 0 {
			continue
		}
		switch f := v.Field(i); f.Kind() {
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Int:
			f.SetInt(int64(1 + r.Intn(50)))
		case reflect.String:
			f.SetString(fmt.Sprint("value", r.Intn(100)))
		}
	}
	if r.Intn(2) == 0 {
		o.IndexerOpts = &types.IndexerOpts{IndexType: r.Intn(3), DocCacheSize: r.Intn(2) * r.Intn(1000)}
		if r.Intn(2) == 0 {
			o.IndexerOpts.BM25Parameters = &types.BM25Parameters{K1: r.Float32() * float32(r.Intn(2)), B: r.Float32() * float32(r.Intn(2))}
		}
	}
	if r.Intn(2) == 0 {
		o.DefRankOpts = &types.RankOpts{OutputOffset: r.Intn(5), MaxOutputs: r.Intn(5), ReverseOrder: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			o.DefRankOpts.ScoringCriteria = &types.RankByBM25{}
		}
	}
	return o
}

// frozen is a copy of the options that later changes cannot reach.
type frozen struct {
	o    types.EngineOpts
	inx  *types.IndexerOpts
	bm   *types.BM25Parameters
	rank *types.RankOpts
}

func freeze(o types.EngineOpts) frozen {
	f := frozen{o: o}
	if o.IndexerOpts != nil {
		x := *o.IndexerOpts
		f.inx = &x
		if x.BM25Parameters != nil {
			b := *x.BM25Parameters
			f.bm = &b
		}
	}
	if o.DefRankOpts != nil {
		x := *o.DefRankOpts
		f.rank = &x
	}
	return f
}

// defaulted compares options after Init with those before.
func (f frozen) defaulted(got types.EngineOpts) string {
	b, a := reflect.ValueOf(f.o), reflect.ValueOf(got)
	for i := 0; i < b.NumField(); i++ {
		name := b.Type().Field(i).Name
		x, y := b.Field(i), a.Field(i)
		switch x.Kind() {
		case reflect.Bool, reflect.String:
			if x.Interface() != y.Interface() {
				return fmt.Sprintf("%s is %v, given was %v", name, y, x)
			}
		case reflect.Int:
			want := x.Int()
			if want == 0 && name != "Using" {
				// the number of CPUs, or a constant: the value is not
				// specified for all of them, but it must work
				if y.Int() <= 0 {
					return fmt.Sprintf("%s was left out and is %d", name, y.Int())
				}
				if (name == "NumShards" || name == "StoreShards") && y.Int() != 8 {
					return fmt.Sprintf("%s was left out and is %d instead of 8", name, y.Int())
				}
				continue
			}
			if y.Int() != want {
				return fmt.Sprintf("%s is %d, given was %d", name, y.Int(), want)
			}
		}
	}
	io, ro := got.IndexerOpts, got.DefRankOpts
	if io == nil || io.BM25Parameters == nil || ro == nil || ro.ScoringCriteria == nil {
		return fmt.Sprintf("pointers are left nil: %+v %+v", io, ro)
	}
	wantType, wantCache := types.FrequenciesIndex, 0
	if f.inx != nil {
		wantType, wantCache = f.inx.IndexType, f.inx.DocCacheSize
	}
	if io.IndexType != wantType || wantCache != 0 && io.DocCacheSize != wantCache || io.DocCacheSize < 0 {
		return fmt.Sprintf("indexer options are %+v, expected type %d cache %d", *io, wantType, wantCache)
	}
	bm := types.BM25Parameters{K1: 2, B: 0.75}
	if f.bm != nil {
		bm = *f.bm
	}
	if *io.BM25Parameters != bm {
		return fmt.Sprintf("BM25 parameters are %+v, expected %+v", *io.BM25Parameters, bm)
	}
	var rank types.RankOpts
	if f.rank != nil {
		rank = *f.rank
	}
	if ro.OutputOffset != rank.OutputOffset || ro.MaxOutputs != rank.MaxOutputs || ro.ReverseOrder != rank.ReverseOrder {
		return fmt.Sprintf("rank options are %+v, given were %+v", *ro, rank)
	}
	if rank.ScoringCriteria == nil {
		for k := 0; k < 3; k++ {
			s := ro.ScoringCriteria.Score(types.IndexedDoc{DocId: "x", BM25: float32(k) * 1.5, TokenProximity: 7}, nil)
			if len(s) != 1 || s[0] != float32(k)*1.5 {
				return fmt.Sprintf("the default scoring criteria give %v for BM25 %v", s, float32(k)*1.5)
			}
		}
	} else if ro.ScoringCriteria != rank.ScoringCriteria {
		return "the scoring criteria given are replaced"
	}
	return ""
}

func c28Opts(c *h.C) {
	for i := 0; i < c.N(6000, 120000) && !c.Violated(); i++ {
		r := c.Rand("o", i)
		o := randEngineOpts(r)
		f := freeze(o)
		o.Init()
		wit := map[string]interface{}{"given": fmt.Sprintf("%+v %+v %+v %+v", f.o, f.inx, f.bm, f.rank), "after": fmt.Sprintf("%+v", o)}
		if s := f.defaulted(o); s != "" {
			c.Violate("options", wit, "EngineOpts.Init: %s", s)
		}
		g := freeze(o)
		o.Init()
		if s := g.defaulted(o); s != "" {
			c.Violate("options-again", wit, "EngineOpts.Init a second time: %s", s)
		}
		x := types.IndexerOpts{IndexType: r.Intn(3), DocCacheSize: r.Intn(2) * (1 + r.Intn(100))}
		y := x
		y.Init()
		if y.IndexType != x.IndexType || x.DocCacheSize != 0 && y.DocCacheSize != x.DocCacheSize || y.DocCacheSize <= 0 {
			c.Violate("indexer-options", wit, "IndexerOpts.Init makes %+v of %+v", y, x)
		}
		c.Case(fmt.Sprintf("%+v %+v %+v %+v", f.o, f.inx, f.bm, f.rank), func() interface{} { return wit })
	}
}

// c28New creates engines the short ways and compares them with the engine the
// documentation says they stand for.
func c28New(c *h.C) {
	dict, stop := eng.WriteDict(c.Dir)
	seg := &gse.Segmenter{}
	h.Must(seg.LoadDict(dict))
	toml := 0
	for i := 0; i < c.N(6, 24) && !c.Violated(); i++ {
		r := c.Rand("n", i)
		dir := filepath.Join(c.Dir, fmt.Sprint("n", i))
		h.Must(os.MkdirAll(dir, 0o755))
		h.Must(os.Chdir(dir))
		// eq is what the call stands for
		eq := types.EngineOpts{GseDict: dict, UseStore: true, NumShards: 10, StoreShards: 10, StoreFolder: riot.DefaultPath,
			IndexerOpts: &types.IndexerOpts{IndexType: types.DocIdsIndex}}
		kind := r.Intn(6)
		if i == 0 && r.Intn(4) == 0 {
			kind = -1
		}
		m := &eng.TokModel{Seg: seg, Stops: map[string]bool{}}
		if kind >= 4 && toml >= 25 {
			kind = r.Intn(4)
		}
		var open func() *riot.Engine
		var name string
		switch kind {
		case -1: // the dictionary of the segmenter
			eq.GseDict = ""
			m.Seg = &gse.Segmenter{}
			quiet(func() { h.Must(m.Seg.LoadDict()) })
			name = "New()"
			open = func() *riot.Engine { return riot.New() }
			if r.Intn(2) == 0 {
				name = "NewEngine()"
				open = func() *riot.Engine { return riot.NewEngine() }
			}
		case 0:
			name = "New(dict)"
			open = func() *riot.Engine { return riot.New(dict) }
		case 1:
			name = "NewEngine(dict, folder)"
			eq.StoreFolder = filepath.Join(dir, "deep", "store")
			open = func() *riot.Engine { return riot.NewEngine(dict, eq.StoreFolder) }
		case 2, 3:
			eq.NumShards = 1 + r.Intn(6)
			if r.Intn(6) == 0 {
				eq.NumShards = 20 + r.Intn(120)
			}
			eq.StoreShards = eq.NumShards
			eq.StoreFolder = filepath.Join(dir, "store")
			name = fmt.Sprintf("New(dict, folder, %d)", eq.NumShards)
			open = func() *riot.Engine { return riot.New(dict, eq.StoreFolder, eq.NumShards) }
		default:
			toml++
			eq = types.EngineOpts{}
			var b strings.Builder
			set := func(format string, args ...interface{}) { fmt.Fprintf(&b, format+"\n", args...) }
			if r.Intn(3) == 0 {
				eq.NotUseGse = true
				set("not_use_gse = true")
				eq.Using = []int{0, 5, 4}[r.Intn(3)]
			} else {
				eq.GseDict = dict
				set("gse_dict = %q", dict)
				eq.Using = []int{0, 1, 3, 4, 5, 6}[r.Intn(6)]
				if r.Intn(2) == 0 {
					eq.StopTokenFile = stop
					set("stop_file = %q", stop)
				}
				if r.Intn(2) == 0 {
					eq.GseMode = true
					set("gse_mode = true")
				}
			}
			if eq.Using > 0 {
				set("using = %d", eq.Using)
			}
			if r.Intn(2) == 0 {
				eq.NumShards = 1 + r.Intn(5)
				set("numshards = %d", eq.NumShards)
			}
			if r.Intn(2) == 0 {
				eq.NumGseThreads = 1 + r.Intn(5)
				set("NumGseThreads = %d", eq.NumGseThreads)
			}
			if r.Intn(2) == 0 {
				eq.IDOnly = true
				set("id_only = true")
			}
			if r.Intn(4) > 0 {
				eq.UseStore = true
				set("use_store = true")
				if r.Intn(3) > 0 {
					eq.StoreFolder = filepath.Join(dir, "tomlstore")
					set("store_folder = %q", eq.StoreFolder)
				}
				if r.Intn(2) == 0 {
					eq.StoreShards = 1 + r.Intn(5)
					set("store_shards = %d", eq.StoreShards)
				}
				eq.StoreEngine = []string{"", "ldb", "bg", "bolt"}[r.Intn(4)]
				if eq.StoreEngine != "" {
					set("store_engine = %q", eq.StoreEngine)
				}
			}
			if r.Intn(2) == 0 {
				eq.IndexerOpts = &types.IndexerOpts{IndexType: r.Intn(3)}
				set("[IndexerOpts]\nIndexType = %d", eq.IndexerOpts.IndexType)
			}
			file := filepath.Join(dir, "conf.toml")
			h.Must(os.WriteFile(file, []byte(b.String()), 0o644))
			name = "New(toml): " + strings.ReplaceAll(b.String(), "\n", "; ")
			open = func() *riot.Engine { return riot.New(file) }
		}
		c.Phase("%s", name)
		m.O = eq
		// the environment names the store engine where the options do not
		os.Unsetenv("Riot_Store_Engine")
		env := []string{"", "", "ldb", "bg", "bolt"}[r.Intn(5)]
		if env != "" {
			os.Setenv("Riot_Store_Engine", env)
			c.Count("environment_"+env, 1)
		}
		if eq.StopTokenFile != "" {
			for _, s := range eng.StopWords {
				m.Stops[s] = true
			}
		}
		live := map[string]types.DocData{}
		check := func(e *riot.Engine, when string) {
			cand := map[string][]string{"absent": nil}
			for id, d := range live {
				for k := range m.KeysOf(d) {
					cand[k] = append(cand[k], id)
				}
			}
			delete(cand, "")
			var ks []string
			for k := range cand {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				resp := e.Search(types.SearchReq{Tokens: []string{k}})
				h.Progress()
				got := eng.Ids(resp.Docs)
				wit := map[string]interface{}{"call": name, "documents": fmt.Sprintf("%q", live), "key": k, "response": fmt.Sprintf("%+v", resp)}
				if !eng.Same(got, cand[k]) {
					c.Violate("documents", wit, "%s, %s: key %q finds %q, expected %q", name, when, k, got, cand[k])
				}
				switch d := resp.Docs.(type) {
				case types.ScoredDocs:
					if eq.IDOnly {
						c.Violate("form", wit, "%s returns documents although only ids are asked for", name)
					}
					for _, x := range d {
						if x.Content != live[x.DocId].Content {
							c.Violate("content", wit, "%s, %s: %q has the content %q, expected %q", name, when, x.DocId, x.Content, live[x.DocId].Content)
						}
					}
				case types.ScoredIDs:
					if !eq.IDOnly {
						c.Violate("form", wit, "%s returns ids only", name)
					}
				}
				// the kind of index shows in scores and locations
				it := types.FrequenciesIndex
				if eq.IndexerOpts != nil {
					it = eq.IndexerOpts.IndexType
				}
				for _, x := range eng.ScoredOf(resp.Docs) {
					if len(x.Scores) != 1 || (x.Scores[0] != 0) != (it != types.DocIdsIndex && len(m.KeysOf(live[x.DocId])[k]) > 0) && m.KeysOf(live[x.DocId])[k] != nil {
						c.Violate("score", wit, "%s, %s: index type %d gives the score %v", name, when, it, x.Scores)
					}
					if it != types.LocsIndex && len(x.TokenLocs) > 0 {
						c.Violate("locations", wit, "%s, %s: index type %d gives locations %v", name, when, it, x.TokenLocs)
					}
				}
				c.Case(name+when+k+fmt.Sprint(i), func() interface{} { return wit })
			}
		}
		e := open()
		for d := 0; d < 2+r.Intn(5); d++ {
			id := fmt.Sprint("d", d)
			data := types.DocData{Content: eng.RandContent(r, true)}
			if r.Intn(2) == 0 {
				data.Labels = []string{"label"}
			}
			live[id] = data
			e.Index(id, data)
			h.Progress()
		}
		e.Flush()
		check(e, "new")
		if eq.UseStore {
			folder, shards := eq.StoreFolder, eq.StoreShards
			if folder == "" {
				folder = riot.DefaultPath
			}
			if shards == 0 {
				shards = 8
			}
			fs, err := os.ReadDir(folder)
			if err != nil || len(fs) != shards {
				c.Violate("store", name, "%s: the store %s has %d parts (%v), expected %d", name, folder, len(fs), err, shards)
			}
			e.Close()
			h.Progress()
			// the same store, opened by the options it stands for and again
			if eq.StoreEngine != "" {
				os.Setenv("Riot_Store_Engine", []string{"ldb", "bg", "bolt", ""}[r.Intn(4)])
			} else if env != "" { // the option says the same
				os.Unsetenv("Riot_Store_Engine")
				eq.StoreEngine = env
			}
			e = &riot.Engine{}
			e.Init(eq)
			e.Flush()
			check(e, "opened with the options")
			e.Index("late", types.DocData{Content: "hello 世界"})
			live["late"] = types.DocData{Content: "hello 世界"}
			e.Flush()
			e.Close()
			os.Setenv("Riot_Store_Engine", env)
			e = open()
			e.Flush()
			check(e, "opened again")
			c.Count("reopened", 1)
		}
		e.Close()
		c.Count(strings.SplitN(name, "(", 2)[0], 1)
		h.Must(os.Chdir(c.Dir))
		if kind < 4 {
			os.RemoveAll(dir)
		}
	}
}

var c28 = &h.Prop{ID: "C28", Level: "exploration",
	Rule:        "EngineOpts.Init and IndexerOpts.Init on options with each field set or left out, compared field by field with the documented defaults, twice; engines made by New and NewEngine with every number of arguments and from configuration files, compared with the model and with the engine opened on the same store by the options the call stands for. A case is one set of options or one posting list of such an engine; distinct by options and key.",
	Assumptions: []string{"word boundaries are those of gse, called by the oracle on its own segmenter with the same dictionary", "numbers of threads and buffer lengths left out take some positive value"},
	Parts: func() (ps []h.Part) {
		ps = append(ps, h.Part{Name: "options", Run: c28Opts})
		// an engine is never collected and its default caches are large, so
		// each process makes a few only
		for i := 0; i < 12; i++ {
			ps = append(ps, h.Part{Name: fmt.Sprint("new", i), Run: c28New})
		}
		return
	}()}
