package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// A table with many keys and one writer. The states of each moving document
// form a line, so every read has to fit between the states that had been
// left before it began and those not yet begun when it ended, and no read may
// go back behind a read that ended before it began. The same holds, on its
// own, for searches with a logic expression.

type wstate struct {
	ver       int // 0: absent
	call, ret int64
}

type wread struct {
	doc       int
	logic     bool
	keys      []int
	ver       int // seen; -1 present in an unknown version
	call, ret int64
	what      string
}

func wideHas(ver, key int) bool { return (ver*7+key*13)%5 != 0 }

func (o *wread) fits(s wstate) bool {
	in := s.ver != 0
	for _, k := range o.keys {
		in = in && wideHas(s.ver, k)
	}
	switch {
	case o.ver == 0:
		return !in
	case o.ver < 0:
		return in
	}
	return in && s.ver == o.ver
}

// judge places the reads of one document in one view and tells which fails.
func judge(states []wstate, reads []*wread) (*wread, string) {
	byRet := append([]*wread{}, reads...)
	sort.Slice(byRet, func(a, b int) bool { return byRet[a].ret < byRet[b].ret })
	sort.Slice(reads, func(a, b int) bool { return reads[a].call < reads[b].call })
	at := map[*wread]int{}
	low, p := 0, 0
	var lowBy *wread
	for _, o := range reads {
		for ; p < len(byRet) && byRet[p].ret < o.call; p++ {
			if at[byRet[p]] > low {
				low, lowBy = at[byRet[p]], byRet[p]
			}
		}
		j := low
		for j+1 < len(states) && states[j+1].ret < o.call {
			j++
		}
		for ; j < len(states) && states[j].call < o.ret; j++ {
			if o.fits(states[j]) {
				break
			}
		}
		if j == len(states) || states[j].call >= o.ret {
			why := "no state of the document during the call agrees"
			if lowBy != nil {
				why += ", after " + lowBy.what
			}
			return o, why
		}
		at[o] = j
	}
	return nil, ""
}

func c16Wide(c *h.C) {
	for i := 0; i < c.N(400, 6000) && !c.Violated(); i++ {
		r := c.Rand("wide", i)
		nkeys := 20 + r.Intn(400)
		nstatic := 1 + r.Intn(20)
		nmove := 1 + r.Intn(4)
		opt := types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 1 + r.Intn(5),
			BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}}
		x := &core.Indexer{}
		x.Init(opt)
		dl := eng.DelaysAt(r, "core.add.partitioned", "core.add.beforeTable", "core.remove.marked")
		c.Phase("wide %d: %d keys, %d documents, cache %d, delays %s", i, nkeys, nstatic+nmove, opt.DocCacheSize, dl)
		doc := func(id string, ver int) *types.DocIndex {
			d := &types.DocIndex{DocId: id, TokenLen: 3}
			for k := 0; k < nkeys; k++ {
				if ver == 0 || wideHas(ver, k) {
					d.Keywords = append(d.Keywords, types.KeywordIndex{Text: fmt.Sprint("w", k), Frequency: 1, Starts: []int{ver}})
				}
			}
			return d
		}
		for _, k := range r.Perm(nstatic) {
			x.AddDocToCache(doc(fmt.Sprint("s", k+10), 0), true)
		}
		// names that sort before, between and behind the others
		name := func(k int) string { return []string{"a", "s15m", "s2", "z"}[k] }
		index := map[string]int{}
		for k := 0; k < nmove; k++ {
			index[name(k)] = k
		}
		states := make([][]wstate, nmove)
		for k := range states {
			states[k] = []wstate{{}}
		}
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		var done int32
		var wg sync.WaitGroup
		nread := 2 + r.Intn(3)
		got := make([][]*wread, nread)
		for p := 0; p < nread; p++ {
			wg.Add(1)
			go func(p int, r *rand.Rand) {
				defer wg.Done()
				for n := 0; n < 3000; n++ {
					if n > 20 && atomic.LoadInt32(&done) == 1 {
						return
					}
					h.Progress()
					if y := r.Intn(12); y == 0 {
						o := &wread{doc: r.Intn(nmove), call: tick()}
						if x.HasDoc(name(o.doc)) {
							o.ver = -1
						}
						o.ret = tick()
						o.what = fmt.Sprintf("r%d HasDoc(%s) = %v [%d,%d]", p, name(o.doc), o.ver != 0, o.call, o.ret)
						got[p] = append(got[p], o)
						continue
					}
					logic := r.Intn(2) == 0
					keys := []int{r.Intn(nkeys)}
					if r.Intn(3) == 0 {
						keys = append(keys, r.Intn(nkeys))
					}
					tokens := make([]string, len(keys))
					for j, k := range keys {
						tokens[j] = fmt.Sprint("w", k)
					}
					var filter map[string]bool
					if r.Intn(3) == 0 {
						filter = map[string]bool{name(r.Intn(nmove)): true}
					}
					var lg []types.Logic
					if logic {
						lg = []types.Logic{{Must: true}}
						if r.Intn(2) == 0 {
							lg = []types.Logic{{Expr: types.Expr{Must: tokens}}}
						}
					}
					call := tick()
					docs, num := x.Lookup(tokens, nil, filter, false, lg...)
					ret := tick()
					what := fmt.Sprintf("r%d Lookup(%v, logic %v, only %v)", p, tokens, logic, filter)
					vers := make([]int, nmove)
					static := 0
					for _, d := range docs {
						k, moving := index[d.DocId]
						if !moving {
							static++
							continue
						}
						if vers[k] != 0 {
							c.Violate("repeated", docs, "%s gave %s twice", what, d.DocId)
						}
						vers[k] = -1
						if !logic {
							for _, l := range d.TokenLocs {
								if len(l) != 1 || vers[k] > 0 && l[0] != vers[k] || l[0] == 0 {
									c.Violate("mixed", docs, "%s gave %s with the locations of two versions: %v", what, d.DocId, d.TokenLocs)
									continue
								}
								vers[k] = l[0]
							}
						}
					}
					want := nstatic
					if filter != nil {
						want = 0
					}
					if static != want || num != len(docs) {
						c.Violate("static", docs, "%s gave %d of the %d documents that nobody changes, and counted %d of %d", what, static, want, num, len(docs))
					}
					for k := range vers {
						if filter == nil || filter[name(k)] {
							got[p] = append(got[p], &wread{doc: k, logic: logic, keys: keys, ver: vers[k], call: call, ret: ret,
								what: fmt.Sprintf("%s: %s = v%d [%d,%d]", what, name(k), vers[k], call, ret)})
						}
					}
				}
			}(p, rand.New(rand.NewSource(r.Int63())))
		}
		ver := 0
		var log []string
		for n := 20 + r.Intn(20); n > 0; n-- {
			size := 1 + r.Intn(nmove)
			which := r.Perm(nmove)[:size]
			remove := r.Intn(3) == 0
			call := tick()
			first := make([]int, size)
			for j, k := range which {
				force := j == size-1
				// an unforced removal of an absent document would find nothing
				if remove {
					x.RemoveDocToCache(name(k), force)
				} else {
					ver++
					first[j] = ver
					x.AddDocToCache(doc(name(k), ver), force)
				}
			}
			ret := tick()
			for j, k := range which {
				if states[k][len(states[k])-1].ver != 0 {
					states[k] = append(states[k], wstate{0, call, ret})
				}
				if !remove {
					states[k] = append(states[k], wstate{first[j], call, ret})
				}
				log = append(log, fmt.Sprintf("%s = v%d [%d,%d]", name(k), first[j], call, ret))
			}
			h.Progress()
		}
		atomic.StoreInt32(&done, 1)
		wg.Wait()
		reads := map[[2]int][]*wread{}
		total, during := 0, 0
		for _, g := range got {
			for _, o := range g {
				v := [2]int{o.doc, 0}
				if o.logic {
					v[1] = 1
				}
				reads[v] = append(reads[v], o)
				total++
			}
		}
		for v, rs := range reads {
			st := states[v[0]]
			for _, o := range rs {
				for _, s := range st[1:] {
					if s.call < o.ret && o.call < s.ret {
						during++
						break
					}
				}
			}
			if bad, why := judge(st, rs); bad != nil {
				c.Violate("wide", map[string]interface{}{"keys": nkeys, "cache": opt.DocCacheSize, "writes": log, "read": bad.what},
					"table of %d keys, one writer: %s: %s; the document's states: %+v", nkeys, bad.what, why, near(st, bad))
			}
		}
		c.Count("wide_reads", total)
		c.Count("wide_reads_during_writes", during)
		sig := ""
		if during > 0 {
			sig = fmt.Sprint(i, nkeys, during, strings.Join(log, ";"))
		}
		c.Case(sig, func() interface{} {
			return map[string]interface{}{"keys": nkeys, "reads": total, "reads_during_writes": during, "writes": log[:min(8, len(log))]}
		})
	}
}

func near(st []wstate, o *wread) []wstate {
	var out []wstate
	for j, s := range st {
		if s.call < o.ret && (j+1 == len(st) || st[j+1].ret > o.call) {
			out = append(out, s)
		}
	}
	return out
}
