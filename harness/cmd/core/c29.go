package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/utils"

	"verif/harness/h"
)

var c29 = &h.Prop{ID: "C29", Level: "exploration",
	Rule: "Asc, Desc, StableAsc, StableDesc and the IsSorted functions on slices of every length up to a bound and random larger ones, in shapes that are hard for quicksort (organ pipe, saw tooth, many equal, killer sequences built against the pivot choice) with extreme values, compared with sort.Slice, with guard values around the slice; the shard registry under concurrent use, compared with a model. A case is one slice or one registry history; distinct by content, non-trivial with more than one element.",
	Parts: []h.Part{
		{Name: "sort", Run: c29Sort},
		{Name: "registry", Race: true, Run: c29Registry},
	}}

func shape(r *rand.Rand, n int) (string, []uint64) {
	a := make([]uint64, n)
	k := r.Intn(10)
	m := uint64(1 + r.Intn(8))
	for i := range a {
		switch k {
		case 0:
			a[i] = r.Uint64()
		case 1:
			a[i] = uint64(i)
		case 2:
			a[i] = uint64(n - i)
		case 3:
			a[i] = uint64(i) % m
		case 4:
			a[i] = uint64(r.Intn(2)) * math.MaxUint64
		case 5:
			a[i] = 7
		case 6: // organ pipe
			a[i] = uint64(min(i, n-i))
		case 7:
			a[i] = uint64(i) ^ 1
		case 8:
			a[i] = math.MaxUint64 - uint64(r.Intn(3))
		case 9: // sorted with a few exchanges
			a[i] = uint64(i)
		}
	}
	if k == 9 && n > 1 {
		for j := 0; j < 1+n/20; j++ {
			x, y := r.Intn(n), r.Intn(n)
			a[x], a[y] = a[y], a[x]
		}
	}
	return []string{"random", "ascending", "descending", "saw", "extremes", "equal", "pipe", "swapped", "max", "nearly"}[k], a
}

func c29Sort(c *h.C) {
	type fn struct {
		name string
		f    func([]uint64)
		desc bool
	}
	fns := []fn{{"Asc", core.Asc, false}, {"StableAsc", core.StableAsc, false},
		{"Desc", core.Desc, true}, {"StableDesc", core.StableDesc, true}}
	try := func(kind string, in []uint64) {
		n := len(in)
		want := append([]uint64{}, in...)
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		for _, f := range fns {
			guard := make([]uint64, n+2)
			guard[0], guard[n+1] = 0xdead, 0xbeef
			copy(guard[1:], in)
			got := guard[1 : n+1]
			f.f(got)
			ok := guard[0] == 0xdead && guard[n+1] == 0xbeef
			for i := range got {
				e := want[i]
				if f.desc {
					e = want[n-1-i]
				}
				if got[i] != e {
					ok = false
				}
			}
			if !ok {
				c.Violate("sort", map[string]interface{}{"function": f.name, "input": fmt.Sprint(in), "output": fmt.Sprint(got)},
					"%s of %d %s values is not their order", f.name, n, kind)
			}
		}
		asc, desc := true, true
		for i := 1; i < n; i++ {
			asc = asc && in[i-1] <= in[i]
			desc = desc && in[i-1] >= in[i]
		}
		if core.IsSortedAsc(in) != asc || core.IsSortedDesc(in) != desc {
			c.Violate("is-sorted", fmt.Sprint(in), "IsSortedAsc %v, IsSortedDesc %v of %d %s values", core.IsSortedAsc(in), core.IsSortedDesc(in), n, kind)
		}
		h.Progress()
		sig := ""
		if n > 1 {
			sig = fmt.Sprint(in)
		}
		c.Case(sig, func() interface{} {
			return map[string]interface{}{"shape": kind, "length": n}
		})
		c.Max("longest", n)
	}
	// every slice over three values up to length 7
	for n := 0; n <= c.N(7, 9); n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 3
		}
		for x := 0; x < total; x++ {
			a := make([]uint64, n)
			for i, y := 0, x; i < n; i, y = i+1, y/3 {
				a[i] = []uint64{0, 5, math.MaxUint64}[y%3]
			}
			try("enumerated", a)
		}
	}
	for i := 0; i < c.N(6000, 100000) && !c.Violated(); i++ {
		r := c.Rand("s", i)
		n := r.Intn(60)
		if i%4 == 0 {
			n = r.Intn(2000)
		}
		kind, a := shape(r, n)
		try(kind, a)
	}
	for i := 0; i < c.N(300, 3000) && !c.Violated(); i++ {
		r := c.Rand("killer", i)
		a := killer(10 + r.Intn(c.N(1500, 6000)))
		if i%2 == 1 { // the same against the descending sorters
			for k := range a {
				a[k] = math.MaxUint64 - a[k]
			}
		}
		try("killer", a)
	}
	for i := 0; i < c.N(40, 400) && !c.Violated(); i++ {
		r := c.Rand("big", i)
		kind, a := shape(r, 20000+r.Intn(60000))
		try(kind, a)
	}
	for i := 0; i < 4000; i++ {
		r := c.Rand("u", i)
		a, b := r.Intn(2001)-1000, r.Intn(2001)-1000
		if i%10 == 0 {
			a, b = math.MaxInt32*(r.Intn(3)-1), math.MinInt32*(r.Intn(3)-1)
		}
		m, ab := a, a
		if b < a {
			m = b
		}
		if ab < 0 {
			ab = -ab
		}
		if utils.MinInt(a, b) != m || utils.AbsInt(a) != ab {
			c.Violate("utils", nil, "MinInt(%d, %d) = %d, AbsInt(%d) = %d", a, b, utils.MinInt(a, b), a, utils.AbsInt(a))
		}
	}
}

func c29Registry(c *h.C) {
	base := 1000
	for i := 0; i < c.N(60, 1000) && !c.Violated(); i++ {
		r := c.Rand("r", i)
		shards := 1 + r.Intn(4)
		lo := base
		base += shards + 1
		var wg sync.WaitGroup
		type add struct {
			shard int
			id    string
		}
		plans := make([][]add, 4)
		want := map[int]map[string]bool{}
		count := map[int]int{}
		for g := range plans {
			for k := 0; k < 20; k++ {
				a := add{lo + r.Intn(shards), fmt.Sprintf("reg-%d-%d", i, r.Intn(30))}
				plans[g] = append(plans[g], a)
				if want[a.shard] == nil {
					want[a.shard] = map[string]bool{}
				}
				want[a.shard][a.id] = true
				count[a.shard]++
			}
		}
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k, a := range plans[g] {
					if k%5 == 0 {
						core.AddDocInfosShard(a.shard)
						core.AddInvertedIndexShard(a.shard)
					}
					core.AddDocInfo(a.shard, a.id, &types.DocInfo{})
					if !core.IsDocExist(a.id) {
						c.Violate("registry", nil, "IsDocExist(%q) is false right after AddDocInfo", a.id)
					}
					core.AddKeywordIndices(a.shard, a.id, &types.KeywordIndices{})
					h.Progress()
				}
			}(g)
		}
		wg.Wait()
		for s := lo; s < lo+shards; s++ {
			core.AddDocInfosShard(s)
			core.AddInvertedIndexShard(s)
			d, x := core.DocInfoGroup[s], core.InvertedIndexGroup[s]
			if len(d.DocInfos) != len(want[s]) || int(d.NumDocs) != count[s] || len(x.InvertedIndex) != len(want[s]) {
				c.Violate("registry", nil, "shard %d registers %d documents (counter %d) and %d keys, %d distinct were added in %d calls",
					s, len(d.DocInfos), d.NumDocs, len(x.InvertedIndex), len(want[s]), count[s])
			}
			if x.TotalTokenLen != float32(count[s]) {
				c.Violate("registry", nil, "shard %d counts %v keys, they were added in %d calls", s, x.TotalTokenLen, count[s])
			}
			for id := range want[s] {
				if d.DocInfos[id] == nil || x.InvertedIndex[id] == nil || !core.IsDocExist(id) {
					c.Violate("registry", nil, "shard %d lost %q", s, id)
				}
			}
		}
		// a shard that was only announced is there, and empty
		core.AddDocInfosShard(lo + shards)
		core.AddInvertedIndexShard(lo + shards)
		if d, x := core.DocInfoGroup[lo+shards], core.InvertedIndexGroup[lo+shards]; d == nil || x == nil ||
			d.DocInfos == nil || x.InvertedIndex == nil || len(d.DocInfos) != 0 || len(x.InvertedIndex) != 0 || d.NumDocs != 0 || x.TotalTokenLen != 0 {
			c.Violate("registry", nil, "shard %d was added but is not there, or not empty: %+v %+v", lo+shards, d, x)
		}
		if core.IsDocExist(fmt.Sprintf("never-%d", i)) {
			c.Violate("registry", nil, "IsDocExist of a document that was never added")
		}
		c.Case(fmt.Sprint(i), func() interface{} { return map[string]interface{}{"shards": shards, "documents": len(want[lo])} })
	}
}
