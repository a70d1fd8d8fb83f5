package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/riot/store"

	"verif/harness/h"
)

// Each key of a store is a register: concurrent Set, Delete, Get, Has and the
// view of ForEach on it must have an order that explains them.

type rop struct {
	write     bool
	val       int // 0: absent, -1 in a Has: present
	call, ret int64
	what      string
}

func (o *rop) String() string { return fmt.Sprintf("%s [%d,%d]", o.what, o.call, o.ret) }

// explain searches for an order of the operations on one key. It gives up
// after a number of steps.
func explain(ops []*rop, from int, steps *int) bool {
	type key struct {
		done uint64
		val  int
	}
	seen := map[key]bool{}
	var run func(done uint64, val int) bool
	run = func(done uint64, val int) bool {
		if *steps++; *steps > 500000 {
			return true
		}
		// the operations that nothing open precedes
		var minRet int64 = 1 << 62
		for i, o := range ops {
			if done>>uint(i)&1 == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for again := true; again; {
			again = false
			for i, o := range ops {
				if done>>uint(i)&1 == 0 && !o.write && o.call < minRet && (o.val == val || o.val < 0 && val > 0) {
					done |= 1 << uint(i)
					again = true
				}
			}
			minRet = 1 << 62
			for i, o := range ops {
				if done>>uint(i)&1 == 0 && o.ret < minRet {
					minRet = o.ret
				}
			}
		}
		if minRet == 1<<62 {
			return true
		}
		k := key{done, val}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range ops {
			if done>>uint(i)&1 == 0 && o.write && o.call < minRet {
				if run(done|1<<uint(i), o.val) {
					return true
				}
			}
		}
		return false
	}
	return run(0, from)
}

var c22 = &h.Prop{ID: "C22", Level: "exploration",
	Rule: "each backend under Set, Delete, Get, Has and ForEach of several goroutines on few keys, in a build with the race detector; the recorded operations on each key are searched for an order that explains the answers, ForEach must give no key twice and every key that is not being written, and the content after reopening must be the last one; and ForEach over up to 300 untouched keys between up to 40 that one goroutine writes and deletes, which must give all of the first and of each written key a state it had during the call; and keys with one writer each under up to ten readers that never pause, every read of which is decided exactly. A case is one key of one history or one such store; non-trivial when operations on it overlapped, distinct by its operations.",
	Parts: []h.Part{
		{Name: "ldb", Race: true, Run: func(c *h.C) { c22Run(c, "ldb", c.N(150, 2500)) }},
		{Name: "bolt", Race: true, Run: func(c *h.C) { c22Run(c, "bolt", c.N(100, 1200)) }},
		{Name: "bg", Race: true, Run: func(c *h.C) { c22Run(c, "bg", c.N(100, 1200)) }},
		{Name: "wide-ldb", Run: func(c *h.C) { c22Wide(c, "ldb", c.N(60, 600)) }},
		{Name: "wide-bolt", Run: func(c *h.C) { c22Wide(c, "bolt", c.N(40, 400)) }},
		{Name: "wide-bg", Run: func(c *h.C) { c22Wide(c, "bg", c.N(40, 400)) }},
		{Name: "reads-ldb", Run: func(c *h.C) { c22Reads(c, "ldb", c.N(30, 400)) }},
		{Name: "reads-bolt", Run: func(c *h.C) { c22Reads(c, "bolt", c.N(20, 250)) }},
		{Name: "reads-bg", Run: func(c *h.C) { c22Reads(c, "bg", c.N(20, 250)) }},
	}}

func c22Run(c *h.C, backend string, n int) {
	for i := 0; i < n && !c.Violated(); i++ {
		r := c.Rand("h", i)
		dir := filepath.Join(c.Dir, fmt.Sprint("db", i))
		db, err := store.OpenStore(dir, backend)
		h.Must(err)
		nk := 1 + r.Intn(3)
		keys := make([]string, nk)
		for k := range keys {
			keys[k] = fmt.Sprint("key", k)
		}
		stable := map[string]string{}
		for k := 0; k < r.Intn(5); k++ {
			key := fmt.Sprint("fixed", k)
			stable[key] = strings.Repeat("s", 1+r.Intn(100))
			h.Must(db.Set([]byte(key), []byte(stable[key])))
		}
		var clock, val int64
		var mu sync.Mutex
		hist := make([][]*rop, nk)
		add := func(k int, o *rop) {
			mu.Lock()
			hist[k] = append(hist[k], o)
			mu.Unlock()
		}
		enc := func(v int) []byte { return []byte(fmt.Sprintf("%d:%s", v, strings.Repeat("x", v*37%300))) }
		dec := func(b []byte) int {
			var v int
			if _, err := fmt.Sscanf(string(b), "%d:", &v); err != nil || string(enc(v)) != string(b) {
				return -99
			}
			return v
		}
		bad := func(key string, format string, args ...interface{}) {
			mu.Lock()
			d := fmt.Sprint(hist)
			mu.Unlock()
			c.Violate(key, map[string]interface{}{"backend": backend, "history": d}, backend+": "+format, args...)
		}
		c.Phase("%s history %d", backend, i)
		var wg sync.WaitGroup
		procs := 3 + r.Intn(3)
		slow := r.Intn(3)
		for p := 0; p < procs; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				r := c.Rand("p", i, p)
				for j := 0; j < 8 && !c.Violated(); j++ {
					k := r.Intn(nk)
					key := []byte(keys[k])
					o := &rop{}
					switch slow {
					case 1:
						runtime.Gosched()
					case 2:
						time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
					}
					switch y := r.Intn(10); {
					case y < 3:
						v := int(atomic.AddInt64(&val, 1))
						o.write, o.val, o.what = true, v, fmt.Sprintf("p%d Set %d", p, v)
						o.call = atomic.AddInt64(&clock, 1)
						if err := db.Set(key, enc(v)); err != nil {
							bad("set", "Set: %v", err)
						}
						o.ret = atomic.AddInt64(&clock, 1)
					case y < 4:
						o.write, o.what = true, fmt.Sprintf("p%d Delete", p)
						o.call = atomic.AddInt64(&clock, 1)
						if err := db.Delete(key); err != nil {
							bad("delete", "Delete: %v", err)
						}
						o.ret = atomic.AddInt64(&clock, 1)
					case y < 7:
						o.call = atomic.AddInt64(&clock, 1)
						b, _ := db.Get(key)
						o.ret = atomic.AddInt64(&clock, 1)
						if len(b) > 0 {
							o.val = dec(b)
						}
						o.what = fmt.Sprintf("p%d Get = %d", p, o.val)
						if o.val == -99 {
							bad("torn", "Get(%s) = %q, never stored", key, b)
							continue
						}
					case y < 8:
						o.call = atomic.AddInt64(&clock, 1)
						has, _ := db.Has(key)
						o.ret = atomic.AddInt64(&clock, 1)
						if has {
							o.val = -1
						}
						o.what = fmt.Sprintf("p%d Has = %v", p, has)
					default:
						call := atomic.AddInt64(&clock, 1)
						got := map[string][]byte{}
						err := db.ForEach(func(k, v []byte) error {
							if _, ok := got[string(k)]; ok {
								bad("foreach", "ForEach gave %q twice", k)
							}
							got[string(k)] = append([]byte{}, v...)
							return nil
						})
						ret := atomic.AddInt64(&clock, 1)
						if err != nil {
							bad("foreach", "ForEach: %v", err)
						}
						for s, v := range stable {
							if string(got[s]) != v {
								bad("foreach", "ForEach gave %q = %q, which nobody writes: %q", s, got[s], v)
							}
						}
						for k := range keys {
							o := &rop{call: call, ret: ret}
							if b, ok := got[keys[k]]; ok {
								if o.val = dec(b); o.val == -99 {
									bad("torn", "ForEach gave %s = %q, never stored", keys[k], b)
									continue
								}
							}
							o.what = fmt.Sprintf("p%d ForEach = %d", p, o.val)
							add(k, o)
						}
						h.Progress()
						continue
					}
					h.Progress()
					add(k, o)
				}
			}(p)
		}
		wg.Wait()
		reopened := r.Intn(2) == 0
		if reopened {
			if err := db.Close(); err != nil {
				bad("close", "Close: %v", err)
			}
			db, err = store.OpenStore(dir, backend)
			h.Must(err)
		}
		for k := range keys {
			o := &rop{call: atomic.AddInt64(&clock, 1)}
			if b, _ := db.Get([]byte(keys[k])); len(b) > 0 {
				o.val = dec(b)
			}
			o.ret = atomic.AddInt64(&clock, 1)
			o.what = fmt.Sprintf("last Get = %d (reopened: %v)", o.val, reopened)
			hist[k] = append(hist[k], o)
			sort.Slice(hist[k], func(a, b int) bool { return hist[k][a].call < hist[k][b].call })
			overlap := 0
			var lines []string
			for a, o := range hist[k] {
				if a > 0 && hist[k][a-1].ret > o.call {
					overlap++
				}
				lines = append(lines, o.String())
			}
			steps := 0
			ops := hist[k]
			if len(ops) > 63 {
				h.Must(fmt.Errorf("history too long: %d", len(ops)))
			}
			if !explain(ops, 0, &steps) {
				c.Violate("not-linearizable", map[string]interface{}{"backend": backend, "history": lines},
					"%s: no order explains the operations on one key: %s", backend, strings.Join(lines, "; "))
			}
			c.Count("operations", len(ops))
			c.Count("overlaps", overlap)
			if steps > 500000 {
				c.Count("undecided", 1)
			}
			sig := ""
			if overlap > 0 {
				sig = strings.Join(lines, ";")
			}
			c.Case(sig, func() interface{} { return lines })
		}
		db.Close()
		h.Progress()
		os.RemoveAll(dir)
	}
}
