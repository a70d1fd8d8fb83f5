package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/riot/store"

	"verif/harness/h"
)

// Registers with one writer each and many readers that never pause. The states
// of a key form a line, so that long histories can be decided exactly: a read
// must show a state that existed during the call and that lies behind none
// shown by a read that had returned before the call.

func c22Reads(c *h.C, backend string, n int) {
	type wstate struct {
		ver       int
		call, ret int64
	}
	type read struct {
		call, ret int64
		ver       int // 0: absent, -1: present
		what      string
	}
	for i := 0; i < n && !c.Violated(); i++ {
		r := c.Rand("reads", i)
		dir := filepath.Join(c.Dir, fmt.Sprint("reads", i))
		db, err := store.OpenStore(dir, backend)
		h.Must(err)
		nk := 1 + r.Intn(3)
		name := func(k int) string { return fmt.Sprint("key", k) }
		fill := r.Intn(3) * r.Intn(60)
		for k := 0; k < fill; k++ {
			h.Must(db.Set([]byte(fmt.Sprintf("fill%03d", k)), []byte("f")))
		}
		writes, readers := c.N(60, 200), 2+r.Intn(9)
		c.Phase("%s reads %d: %d keys, %d readers", backend, i, nk, readers)
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		states := make([][]wstate, nk)
		reads := make([][]read, nk)
		var mu sync.Mutex
		var writing int32 = int32(nk)
		var ww, rw sync.WaitGroup
		pace := r.Intn(3)
		for k := 0; k < nk; k++ {
			states[k] = []wstate{{}}
			ww.Add(1)
			go func(k int, r *rand.Rand) {
				defer ww.Done()
				defer atomic.AddInt32(&writing, -1)
				key := []byte(name(k))
				for j := 1; j <= writes; j++ {
					s := wstate{ver: j}
					if r.Intn(4) == 0 {
						s.ver = 0
					}
					s.call = tick()
					var err error
					if s.ver == 0 {
						err = db.Delete(key)
					} else {
						err = db.Set(key, []byte(wideVal(j)))
					}
					s.ret = tick()
					if err != nil {
						c.Violate("write", nil, "%s: writing version %d of %s: %v", backend, s.ver, key, err)
					}
					states[k] = append(states[k], s)
					h.Progress()
					// the writer reads its own writes, too
					o := read{call: tick(), what: "Get by the writer"}
					b, _ := db.Get(key)
					o.ret = tick()
					if len(b) > 0 {
						fmt.Sscanf(string(b), "%d:", &o.ver)
					}
					mu.Lock()
					reads[k] = append(reads[k], o)
					mu.Unlock()
					if pace == 2 {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
				}
			}(k, rand.New(rand.NewSource(r.Int63())))
		}
		for p := 0; p < readers; p++ {
			rw.Add(1)
			go func(p int, r *rand.Rand) {
				defer rw.Done()
				mine := make([][]read, nk)
				for j := 0; j < 20000 && (j < 20 || atomic.LoadInt32(&writing) > 0); j++ {
					k := r.Intn(nk)
					key := []byte(name(k))
					if pace == 1 && r.Intn(4) == 0 {
						runtime.Gosched()
					}
					switch y := r.Intn(20); {
					case y < 14:
						o := read{call: tick(), what: "Get"}
						b, _ := db.Get(key)
						o.ret = tick()
						if len(b) > 0 {
							fmt.Sscanf(string(b), "%d:", &o.ver)
							if string(b) != wideVal(o.ver) {
								c.Violate("torn", nil, "%s: Get(%s) = %q, never stored", backend, key, b)
							}
						}
						mine[k] = append(mine[k], o)
					case y < 19:
						o := read{call: tick(), what: "Has"}
						has, _ := db.Has(key)
						o.ret = tick()
						if has {
							o.ver = -1
						}
						mine[k] = append(mine[k], o)
					default:
						got := make([]int, nk)
						call := tick()
						err := db.ForEach(func(kk, v []byte) error {
							for x := range got {
								if string(kk) == name(x) {
									fmt.Sscanf(string(v), "%d:", &got[x])
									if string(v) != wideVal(got[x]) {
										c.Violate("torn", nil, "%s: ForEach gave %s = %q, never stored", backend, kk, v)
									}
								}
							}
							return nil
						})
						ret := tick()
						if err != nil {
							c.Violate("foreach", nil, "%s: ForEach: %v", backend, err)
						}
						for x := range got {
							mine[x] = append(mine[x], read{call, ret, got[x], "ForEach"})
						}
					}
					h.Progress()
				}
				mu.Lock()
				for k := range mine {
					reads[k] = append(reads[k], mine[k]...)
				}
				mu.Unlock()
			}(p, rand.New(rand.NewSource(r.Int63())))
		}
		ww.Wait()
		rw.Wait()
		for k := range states {
			during := 0
			type ev struct {
				at   int64
				call bool
				i    int
			}
			var evs []ev
			for x, o := range reads[k] {
				evs = append(evs, ev{o.call, true, x}, ev{o.ret, false, x})
			}
			sort.Slice(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
			low := make([]int, len(reads[k])) // state shown before the call
			shown, st := 0, states[k]
			for _, e := range evs {
				if e.call {
					low[e.i] = shown
					continue
				}
				o := reads[k][e.i]
				from := sort.Search(len(st), func(j int) bool { return st[j].ret >= o.call }) - 1
				if from < low[e.i] {
					from = low[e.i]
				}
				found, j := -1, from
				for ; j < len(st) && (j == 0 || st[j].call < o.ret); j++ {
					if found < 0 && (st[j].ver == o.ver || o.ver < 0 && st[j].ver > 0) {
						found = j
					}
				}
				if j-from > 1 {
					during++
				}
				if found < 0 {
					c.Violate("stale", fmt.Sprint(st), "%s: %s of %s during [%d,%d] showed version %d (0: absent, -1: present), which was none of %v: the states that had not been replaced or passed by another read before it, and were begun before it returned",
						backend, o.what, name(k), o.call, o.ret, o.ver, st[from:j])
					break
				}
				if found > shown {
					shown = found
				}
			}
			c.Count("reads", len(reads[k]))
			c.Count("reads_during_writes", during)
			sig := ""
			if during > 0 {
				sig = fmt.Sprint(backend, i, k, len(reads[k]), during)
			}
			c.Case(sig, func() interface{} {
				return map[string]interface{}{"backend": backend, "readers": readers, "writes": writes, "reads": len(reads[k]), "reads_during_writes": during,
					"first": strings.TrimSpace(fmt.Sprintf("%+v", reads[k][:3]))}
			})
		}
		db.Close()
		os.RemoveAll(dir)
	}
}
