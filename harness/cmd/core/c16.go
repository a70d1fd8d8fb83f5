package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// Linearizability of the index. Documents carry their version as the location
// of a key, so a Lookup shows a snapshot of versions. The specification is
// sequential: a state maps ids to versions; Add sets one, Remove deletes one,
// Lookup and HasDoc read all of it at once. Two allowances follow from the
// documentation of the caches: an Add over an existing document is a removal
// followed by an addition, and an Add that is not forced takes effect no
// later than the next forced Add that begins after it.

const maxIDs = 6

type state [maxIDs]int16

type lop struct {
	kind      byte // 'a' add, 'd' removal step of an add, 'r' remove, 'l' lookup, 'h' has
	id        int
	ver       int16
	key       int // of a lookup
	force     bool
	got       state // of a lookup: versions seen
	has       bool
	call, ret int64
	ext       int64 // when it must have taken effect
	proc      int
}

func (o *lop) String() string {
	span := fmt.Sprintf(" p%d [%d,%d]", o.proc, o.call, o.ret)
	switch o.kind {
	case 'a', 'd':
		return fmt.Sprintf("Add(%c, v%d, %v)%s", 'a'+o.id, o.ver, o.force, span)
	case 'r':
		return fmt.Sprintf("Remove(%c, %v)%s", 'a'+o.id, o.force, span)
	case 'l':
		return fmt.Sprintf("Lookup(k%d) = %v%s", o.key, o.got, span)
	}
	return fmt.Sprintf("HasDoc(%c) = %v%s", 'a'+o.id, o.has, span)
}

// verHas: which keys a version has. Key 0 is in every version.
func verHas(ver int16, key int) bool {
	return key == 0 || int(ver)%(key+2) == 0
}

func (o *lop) agrees(s *state, n int) bool {
	if o.kind == 'h' {
		return (s[o.id] != 0) == o.has
	}
	for i := 0; i < n; i++ {
		want := s[i]
		if want != 0 && !verHas(want, o.key) {
			want = 0
		}
		if o.got[i] != want {
			return false
		}
	}
	return true
}

type memoKey struct {
	a, b, c uint64
	s       state
}

type checker struct {
	ops   []*lop
	pre   [][]int // operations that come before
	left  []int   // how many of those are still open
	post  [][]int
	n     int
	seen  map[memoKey]bool
	steps int
	limit int
	key   memoKey
	open  int
	best  int
	bestS state
}

func newChecker(ops []*lop, n int) *checker {
	c := &checker{ops: ops, n: n, seen: map[memoKey]bool{}, limit: 3000000,
		left: make([]int, len(ops)), post: make([][]int, len(ops)), open: len(ops)}
	for i, a := range ops {
		for j, b := range ops {
			if i == j {
				continue
			}
			before := a.ext < b.call
			if a.kind == 'a' && b.kind == 'a' && a.id == b.id && a.ret < b.call {
				before = true // versions of a document keep their order
			}
			if a.kind == 'd' && b.kind == 'a' && a.ver == b.ver {
				before = true
			}
			if before {
				c.post[i] = append(c.post[i], j)
				c.left[j]++
			}
		}
	}
	return c
}

func (c *checker) take(i int) {
	switch {
	case i < 64:
		c.key.a ^= 1 << uint(i)
	case i < 128:
		c.key.b ^= 1 << uint(i-64)
	default:
		c.key.c ^= 1 << uint(i-128)
	}
	c.open--
	for _, j := range c.post[i] {
		c.left[j]--
	}
}

func (c *checker) untake(i int) {
	c.take(i) // flips the bit back
	c.open += 2
	for _, j := range c.post[i] {
		c.left[j] += 2
	}
}

func (c *checker) done(i int) bool {
	switch {
	case i < 64:
		return c.key.a>>uint(i)&1 == 1
	case i < 128:
		return c.key.b>>uint(i-64)&1 == 1
	}
	return c.key.c>>uint(i-128)&1 == 1
}

// run tells whether the open operations have an order that explains them.
func (c *checker) run(s state) bool {
	if c.steps++; c.steps > c.limit {
		return true // undecided
	}
	var reads []int
	// a read that agrees with the state can be placed at once
	for again := true; again; {
		again = false
		for i, o := range c.ops {
			if (o.kind == 'l' || o.kind == 'h') && c.left[i] == 0 && !c.done(i) && o.agrees(&s, c.n) {
				c.take(i)
				reads = append(reads, i)
				again = true
			}
		}
	}
	undo := func() {
		for k := len(reads) - 1; k >= 0; k-- {
			c.untake(reads[k])
		}
	}
	if c.open == 0 {
		return true
	}
	if d := len(c.ops) - c.open; d > c.best {
		c.best, c.bestS = d, s
	}
	k := c.key
	k.s = s
	if c.seen[k] {
		undo()
		return false
	}
	c.seen[k] = true
	for i, o := range c.ops {
		if o.kind == 'l' || o.kind == 'h' || c.left[i] > 0 || c.done(i) {
			continue
		}
		t := s
		switch o.kind {
		case 'a':
			t[o.id] = o.ver
		default:
			t[o.id] = 0
		}
		c.take(i)
		ok := c.run(t)
		if ok {
			return true
		}
		c.untake(i)
	}
	undo()
	return false
}

var c16 = &h.Prop{ID: "C16", Level: "exploration",
	Rule:        "one index under concurrent AddDocToCache, RemoveDocToCache, Lookup and HasDoc of four to six goroutines on few ids, with small caches and delays at the observation points inside the index; the recorded history of calls is searched for a sequential order that explains every answer; and a table of up to 400 keys under one writer, whose documents' states form a line that every read of several goroutines must follow, whichever keys it asks for. A case is one history; non-trivial when calls overlapped, distinct by the answers and the order of the calls.",
	Assumptions: []string{"an Add over an existing document may be seen as removal followed by addition; an unforced Add takes effect by the next forced one; no document is removed while an unforced Add of it is waiting, as the source demands"},
	Parts: []h.Part{
		{Name: "forced", Run: func(c *h.C) { c16Run(c, c.N(1500, 30000), false) }},
		{Name: "cached", Run: func(c *h.C) { c16Run(c, c.N(1500, 30000), true) }},
		{Name: "wide", Run: c16Wide},
	}}

func c16Run(c *h.C, n int, cached bool) {
	for i := 0; i < n && !c.Violated(); i++ {
		r := c.Rand("h", i)
		nid := 2 + r.Intn(maxIDs-1)
		opt := types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 1 + r.Intn(4),
			BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}}
		x := &core.Indexer{}
		x.Init(opt)
		dl := eng.DelaysAt(r, "core.add.partitioned", "core.add.beforeTable", "core.remove.marked")
		procs := 3 + r.Intn(3)
		per := 5 + r.Intn(5)
		var clock int64
		var ver int32
		var mu sync.Mutex
		var ops []*lop
		c.Phase("history %d, cache %d, delays %s", i, opt.DocCacheSize, dl)
		var wg sync.WaitGroup
		startGate := make(chan bool)
		for p := 0; p < procs; p++ {
			wg.Add(1)
			go func(p int, r *rand.Rand) {
				defer wg.Done()
				<-startGate
				for k := 0; k < per; k++ {
					o := &lop{proc: p, id: r.Intn(nid), force: true}
					y := r.Intn(10)
					// ids that are added without force are never removed
					addOnly := cached && o.id < nid/2
					switch {
					case y < 4 || addOnly && y < 6:
						o.kind = 'a'
						o.ver = int16(atomic.AddInt32(&ver, 1))
						if addOnly {
							o.force = r.Intn(3) == 0
						}
						d := c16Doc(o.id, o.ver)
						o.call = atomic.AddInt64(&clock, 1)
						x.AddDocToCache(d, o.force)
						o.ret = atomic.AddInt64(&clock, 1)
					case y < 6:
						o.kind = 'r'
						o.force = r.Intn(2) == 0
						o.call = atomic.AddInt64(&clock, 1)
						x.RemoveDocToCache(c16ID(o.id), o.force)
						o.ret = atomic.AddInt64(&clock, 1)
					case y < 9:
						o.kind = 'l'
						o.key = r.Intn(4)
						o.call = atomic.AddInt64(&clock, 1)
						docs, num := x.Lookup([]string{fmt.Sprint("k", o.key)}, nil, nil, false)
						o.ret = atomic.AddInt64(&clock, 1)
						bad := ""
						if num != len(docs) {
							bad = fmt.Sprintf("counted %d, gave %d", num, len(docs))
						}
						for _, d := range docs {
							k := -1
							for j := 0; j < nid; j++ {
								if c16ID(j) == d.DocId {
									k = j
								}
							}
							if k < 0 || len(d.TokenLocs) != 1 || len(d.TokenLocs[0]) != 1 || o.got[k] != 0 {
								bad = fmt.Sprintf("odd or repeated document %+v", d)
								continue
							}
							o.got[k] = int16(d.TokenLocs[0][0])
						}
						if bad != "" {
							c.Violate("lookup", fmt.Sprintf("%+v", docs), "Lookup(k%d) under concurrency: %s", o.key, bad)
						}
					default:
						o.kind = 'h'
						o.call = atomic.AddInt64(&clock, 1)
						o.has = x.HasDoc(c16ID(o.id))
						o.ret = atomic.AddInt64(&clock, 1)
					}
					h.Progress()
					mu.Lock()
					ops = append(ops, o)
					mu.Unlock()
				}
			}(p, rand.New(rand.NewSource(r.Int63())))
		}
		close(startGate)
		wg.Wait()
		// everything must be visible after a last forced update
		last := &lop{kind: 'a', id: nid - 1, ver: int16(ver + 1), force: true, proc: procs}
		last.call = atomic.AddInt64(&clock, 1)
		x.AddDocToCache(c16Doc(last.id, last.ver), true)
		last.ret = atomic.AddInt64(&clock, 1)
		ops = append(ops, last)
		for k := 0; k < 4; k++ {
			o := &lop{kind: 'l', key: k, proc: procs, call: atomic.AddInt64(&clock, 1)}
			docs, _ := x.Lookup([]string{fmt.Sprint("k", k)}, nil, nil, false)
			for _, d := range docs {
				o.got[int(d.DocId[len(d.DocId)-1]-'a')] = int16(d.TokenLocs[0][0])
			}
			o.ret = atomic.AddInt64(&clock, 1)
			ops = append(ops, o)
		}
		for j := 0; j < nid; j++ {
			o := &lop{kind: 'h', id: j, proc: procs, call: atomic.AddInt64(&clock, 1)}
			o.has = x.HasDoc(c16ID(j))
			o.ret = atomic.AddInt64(&clock, 1)
			ops = append(ops, o)
		}
		c16Check(c, i, ops, nid, opt, dl)
	}
}

func c16ID(k int) string { return []string{"a", "10b", "9c", "9d", "世e", "zf"}[k] }

func c16Doc(id int, ver int16) *types.DocIndex {
	d := &types.DocIndex{DocId: c16ID(id), TokenLen: 1}
	for k := 0; k < 4; k++ {
		if verHas(ver, k) {
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: fmt.Sprint("k", k), Frequency: 1, Starts: []int{int(ver)}})
		}
	}
	return d
}

func c16Check(c *h.C, i int, ops []*lop, nid int, opt types.IndexerOpts, dl string) {
	sort.Slice(ops, func(a, b int) bool { return ops[a].call < ops[b].call })
	overlap := 0
	for a, o := range ops {
		if a > 0 && ops[a-1].ret > o.call {
			overlap++
		}
	}
	// when an add must have taken effect
	for _, o := range ops {
		o.ext = o.ret
		if o.kind == 'a' && !o.force {
			o.ext = 1 << 60
			for _, f := range ops {
				if f.kind == 'a' && f.force && f.call > o.ret && f.ret < o.ext {
					o.ext = f.ret
				}
			}
		}
	}
	all := append([]*lop{}, ops...)
	for _, o := range ops {
		if o.kind == 'a' {
			d := *o
			d.kind = 'd'
			all = append(all, &d)
		}
	}
	if len(all) > 192 {
		h.Must(fmt.Errorf("history too long: %d", len(all)))
	}
	ck := newChecker(all, nid)
	ok := ck.run(state{})
	c.Count("calls", len(ops))
	c.Count("overlaps", overlap)
	c.Count("search_steps", ck.steps)
	if ck.steps > ck.limit {
		c.Count("undecided", 1)
		return
	}
	var lines []string
	for _, o := range ops {
		lines = append(lines, o.String())
	}
	if !ok {
		c.Violate("not-linearizable", map[string]interface{}{"cache": opt.DocCacheSize, "delays": dl, "history": lines,
			"explained": ck.best, "of": len(all), "state": fmt.Sprint(ck.bestS)},
			"no order of the calls explains the answers of the index (cache %d, delays %s): %s", opt.DocCacheSize, dl, strings.Join(lines, "; "))
	}
	sig := ""
	if overlap > 0 {
		sig = strings.Join(lines, ";")
	}
	c.Case(sig, func() interface{} {
		return map[string]interface{}{"cache": opt.DocCacheSize, "delays": dl, "history": lines[:min(12, len(lines))], "overlaps": overlap}
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
