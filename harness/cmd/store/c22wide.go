package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/riot/store"

	"verif/harness/h"
)

// A store with many keys nobody touches, between keys that one goroutine
// writes and deletes, under ForEach of others. The states of a written key
// form a line, so the view a ForEach has of it must be one of those that
// existed during the call, and no older than what an earlier one gave.

func c22Wide(c *h.C, backend string, n int) {
	for i := 0; i < n && !c.Violated(); i++ {
		r := c.Rand("wide", i)
		dir := filepath.Join(c.Dir, fmt.Sprint("wide", i))
		db, err := store.OpenStore(dir, backend)
		h.Must(err)
		nstable := 1 + r.Intn(300)
		stable := map[string]string{}
		for k := 0; k < nstable; k++ {
			key := fmt.Sprintf("k%04d", k)
			stable[key] = strings.Repeat("s", 1+r.Intn(60))
			h.Must(db.Set([]byte(key), []byte(stable[key])))
		}
		nmove := 1 + r.Intn(40)
		names := make([]string, nmove)
		index := map[string]int{}
		for k := range names {
			switch r.Intn(4) {
			case 0:
				names[k] = fmt.Sprintf("a%d", k) // before the others
			case 1:
				names[k] = fmt.Sprintf("z%d", k) // behind them
			default:
				names[k] = fmt.Sprintf("k%04d+%d", r.Intn(nstable), k)
			}
			index[names[k]] = k
		}
		if r.Intn(2) == 0 {
			h.Must(db.Close())
			db, err = store.OpenStore(dir, backend)
			h.Must(err)
		}
		c.Phase("%s wide %d: %d keys and %d written ones", backend, i, nstable, nmove)
		type wstate struct {
			ver       int
			call, ret int64
		}
		states := make([][]wstate, nmove)
		for k := range states {
			states[k] = []wstate{{}}
		}
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		type view struct {
			call, ret int64
			ver       []int
		}
		var mu sync.Mutex
		var views []view
		var done int32
		var wg sync.WaitGroup
		pace := r.Intn(3)
		for p := 0; p < 2; p++ {
			wg.Add(1)
			go func(p int, r *rand.Rand) {
				defer wg.Done()
				for j := 0; j < 2 || j < 40 && atomic.LoadInt32(&done) == 0; j++ {
					v := view{ver: make([]int, nmove)}
					got := map[string]bool{}
					left := nstable
					pause := r.Intn(nstable)
					v.call = tick()
					err := db.ForEach(func(key, val []byte) error {
						k := string(key)
						if len(got) == pause && pace > 0 {
							time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
						}
						if got[k] {
							c.Violate("foreach", k, "%s: ForEach gave %q twice while other keys were written", backend, k)
						}
						got[k] = true
						if s, ok := stable[k]; ok {
							if left--; s != string(val) {
								c.Violate("foreach", k, "%s: ForEach gave %q = %q, which nobody wrote: %q", backend, k, val, s)
							}
							return nil
						}
						m, ok := index[k]
						if !ok {
							c.Violate("foreach", k, "%s: ForEach gave the key %q, which is not in the store", backend, k)
							return nil
						}
						fmt.Sscanf(string(val), "%d:", &v.ver[m])
						if want := wideVal(v.ver[m]); want != string(val) {
							c.Violate("torn", k, "%s: ForEach gave %q = %q, never stored", backend, k, val)
						}
						return nil
					})
					v.ret = tick()
					h.Progress()
					if err != nil {
						c.Violate("foreach", nil, "%s: ForEach: %v", backend, err)
					}
					if left != 0 {
						c.Violate("foreach", nil, "%s: ForEach left out %d of the %d keys that nobody touches", backend, left, nstable)
					}
					mu.Lock()
					views = append(views, v)
					mu.Unlock()
				}
			}(p, rand.New(rand.NewSource(r.Int63())))
		}
		ver := 0
		for j := 0; j < c.N(150, 300); j++ {
			k := r.Intn(nmove)
			if pace == 2 && r.Intn(4) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
			s := wstate{call: tick()}
			if r.Intn(5) < 2 && states[k][len(states[k])-1].ver != 0 {
				if err := db.Delete([]byte(names[k])); err != nil {
					c.Violate("delete", nil, "%s: Delete: %v", backend, err)
				}
			} else {
				ver++
				s.ver = ver
				if err := db.Set([]byte(names[k]), []byte(wideVal(ver))); err != nil {
					c.Violate("set", nil, "%s: Set: %v", backend, err)
				}
			}
			s.ret = tick()
			states[k] = append(states[k], s)
			h.Progress()
		}
		atomic.StoreInt32(&done, 1)
		wg.Wait()
		sort.Slice(views, func(a, b int) bool { return views[a].call < views[b].call })
		during := 0
		for k := range names {
			for a, v := range views {
				low := 0
				for _, u := range views[:a] {
					if u.ret >= v.call || u.ver[k] == 0 {
						continue
					}
					for j, s := range states[k] {
						if s.ver == u.ver[k] && j > low {
							low = j
						}
					}
				}
				for low+1 < len(states[k]) && states[k][low+1].ret < v.call {
					low++
				}
				ok := false
				var could []wstate
				for j := low; j < len(states[k]) && states[k][j].call < v.ret; j++ {
					could = append(could, states[k][j])
					ok = ok || states[k][j].ver == v.ver[k]
				}
				if len(could) > 1 {
					during++
				}
				if !ok {
					c.Violate("view", fmt.Sprint(states[k]), "%s: ForEach [%d,%d] gave %q = v%d, which was none of %v", backend, v.call, v.ret, names[k], v.ver[k], could)
				}
			}
		}
		c.Count("wide_foreach", len(views))
		c.Count("wide_views_during_writes", during)
		sig := ""
		if during > 0 {
			sig = fmt.Sprint(backend, i, nstable, names, len(views), during)
		}
		c.Case(sig, func() interface{} {
			return map[string]interface{}{"backend": backend, "keys": nstable, "written": names, "foreach": len(views), "views_during_writes": during}
		})
		db.Close()
		os.RemoveAll(dir)
	}
}

func wideVal(v int) string { return fmt.Sprintf("%d:%s", v, strings.Repeat("y", v*31%97)) }
