package main

import (
	"fmt"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

var c01 = &h.Prop{ID: "C01", Level: "exploration",
	Rule: "random histories of concurrent Index/RemoveDoc calls with Flush in between, over random engine options and vocabularies; every search is compared with the documents the model holds. A case is one search; it is non-trivial when some but not all live documents match, and distinct by history and query.",
	Parts: []h.Part{
		{Name: "engine", Run: c01Engine(eng.AndQuery)},
		{Name: "index", Run: c01Core(eng.AndQuery)},
		large(2, 0, eng.AndQuery),
	}}

var c02 = &h.Prop{ID: "C02", Level: "exploration",
	Rule: "as C01, with searches over the Must, Should and NotIn flags and expressions in all combinations that the documentation allows. A case is one search; it is non-trivial when some but not all live documents match, and distinct by history and query.",
	Parts: []h.Part{
		{Name: "engine", Run: c01Engine(eng.LiveLogic)},
		{Name: "index", Run: c01Core(eng.LiveLogic)},
		large(2, lSlow, eng.LiveLogic),
	}}

type queryGen func(r *rnd, v *eng.Vocab, live map[string]*eng.Ver) eng.Query

func c01Engine(gen queryGen) func(c *h.C) {
	return func(c *h.C) {
		for i := 0; i < c.N(600, 3000) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			v := eng.NewVocab(r, 2+r.Intn(8), r.Intn(4), 3+r.Intn(14))
			dl := eng.Delays(r)
			w := eng.NewWorld(c, eng.RandOpts(r), v)
			w.Note("delays: %s", dl)
			for ph := 0; ph < 1+r.Intn(4); ph++ {
				n := w.Apply(w.Plan(r, eng.Mix{Touch: 0.7, Remove: 0.3, Force: 0.15, Repeat: 2}))
				w.Flush()
				c.Count("writes", n)
				for k := 0; k < 14; k++ {
					q := gen(r, v, w.Live)
					m := w.CheckSet(q)
					sig := ""
					if m > 0 && m < len(w.Live) {
						sig = fmt.Sprint(i, ph, q)
					}
					c.Count("matches", max(m, 0))
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"options": w.Desc, "query": q.String(), "matches": m, "live": len(w.Live)}
					})
				}
			}
			w.E.Close()
		}
		c.Count("hook_points_passed", int(eng.PointHits))
	}
}

// c01Core drives the index alone, which allows far more and larger cases.
func c01Core(gen queryGen) func(c *h.C) {
	return func(c *h.C) {
		for i := 0; i < c.N(2400, 20000) && !c.Violated(); i++ {
			r := c.Rand("x", i)
			v := eng.NewVocab(r, 2+r.Intn(10), r.Intn(4), 3+r.Intn(40))
			w := eng.NewCore(c, r, v)
			for ph := 0; ph < 1+r.Intn(4); ph++ {
				w.Random(r, 0.7, 0.3, 0.1)
				w.Flush()
				for k := 0; k < 20; k++ {
					q := gen(r, v, w.Live)
					m := w.CheckSet(q)
					sig := ""
					if m > 0 && m < len(w.Live) {
						sig = fmt.Sprint(i, ph, q)
					}
					c.Case(sig, func() interface{} {
						return map[string]interface{}{"index": w.Desc, "query": q.String(), "matches": m, "live": len(w.Live)}
					})
				}
			}
		}
	}
}

var _ = core.Indexer{}
var _ = types.DocIdsIndex
