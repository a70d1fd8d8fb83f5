package main

import (
	"fmt"
	"sync"

	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// raceWrites lets several goroutines index the same documents at once, flushes,
// and finds out which version of each document won: the label that only this
// version has finds it. The winner has to be the last version of one of the
// goroutines; it becomes the model's version, so that everything else that can
// be observed has to agree with it.
func raceWrites(w *eng.World, r *rnd, mk func(r *rnd, id string, n int) *eng.Ver) (int, int) {
	ids := append([]string{}, w.V.IDs...)
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	ids = ids[:1+r.Intn(len(ids))]
	ng := 2 + r.Intn(6)
	plans := make([][]eng.Step, ng)
	cands := map[string]map[int]*eng.Ver{}
	label := func(v *eng.Ver) string { return fmt.Sprint("only-v", v.N) }
	all := map[string][]*eng.Ver{}
	for g := range plans {
		for _, id := range ids {
			if g > 0 && r.Intn(4) == 0 {
				continue
			}
			for k := 1 + r.Intn(3); k > 0; k-- {
				ver := w.Shape(r, mk(r, id, w.Next()))
				// on a slice of its own: versions may share parts
				var ls []string
				for _, l := range ver.Data.Labels {
					if len(l) < 6 || l[:6] != "only-v" {
						ls = append(ls, l)
					}
				}
				ver.Data.Labels = append(ls, label(ver))
				if w.Tok != nil {
					ver.Keys = w.Tok.KeysOf(ver.Data)
				} else {
					for key := range ver.Keys {
						if len(key) > 6 && key[:6] == "only-v" {
							delete(ver.Keys, key)
						}
					}
					ver.Keys[label(ver)] = []int{}
				}
				if w.LenOf != nil {
					ver.TokenLen = w.LenOf(ver.Data)
				}
				plans[g] = append(plans[g], eng.Step{ID: id, Ver: ver, Force: r.Intn(8) == 0})
				if cands[id] == nil {
					cands[id] = map[int]*eng.Ver{}
				}
				cands[id][g] = ver
				all[id] = append(all[id], ver)
			}
		}
		// the documents are visited in an order of the goroutine's own, each
		// with its versions in sequence
		l := plans[g]
		for i := len(l) - 1; i > 0; i-- {
			if j := r.Intn(i + 1); l[i].ID != l[j].ID && !crosses(l, j, i) {
				l[i], l[j] = l[j], l[i]
			}
		}
		for _, s := range l {
			cands[s.ID][g] = s.Ver
		}
	}
	n := 0
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, l := range plans {
		n += len(l)
		wg.Add(1)
		go func(l []eng.Step) {
			defer wg.Done()
			<-start
			for _, s := range l {
				w.Do(s)
			}
		}(l)
	}
	close(start)
	wg.Wait()
	w.Flush()
	for _, id := range ids {
		var won []*eng.Ver
		for _, ver := range all[id] {
			got := eng.Ids(w.Search(types.SearchReq{Labels: []string{label(ver)}}).Docs)
			if len(got) == 1 && got[0] == id {
				won = append(won, ver)
			} else if len(got) != 0 {
				w.C.Violate("race-ids", w.Witness(id, got), "the label that only one version of %q has finds %q", id, got)
			}
		}
		if len(won) != 1 {
			w.C.Violate("race-versions", w.Witness(id, len(won)), "after racing Index calls of %q and Flush, %d of its %d versions are found", id, len(won), len(all[id]))
			return n, len(ids)
		}
		last := false
		for _, ver := range cands[id] {
			last = last || ver == won[0]
		}
		if !last {
			w.C.Violate("race-old", w.Witness(id, won[0].N), "after racing Index calls of %q and Flush, v%d is found, which its own goroutine replaced later", id, won[0].N)
		}
		w.Live[id] = won[0]
	}
	h.Progress()
	return n, len(ids)
}

// crosses says whether swapping i and j would reorder versions of one document.
func crosses(l []eng.Step, j, i int) bool {
	for k := j; k <= i; k++ {
		if k != j && l[k].ID == l[j].ID || k != i && l[k].ID == l[i].ID {
			return true
		}
	}
	return false
}
