package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-ego/riot/store"

	"verif/harness/h"
)

var backends = []string{"ldb", "bolt", "bg"}

var c21 = &h.Prop{ID: "C21", Level: "exploration",
	Rule:        "random sequences of Set, Get, Delete, Has, ForEach (with callbacks that fail), Close and reopening on each backend with arbitrary keys and values, compared with a map; buffers given to Set and taken from Get are overwritten or kept and compared later. A case is one compared sequence between two openings; distinct by sequence, non-trivial when something was overwritten or deleted.",
	Assumptions: []string{"keys are not empty; Get of a missing key gives no value, with or without an error"},
	Parts: []h.Part{
		{Name: "ldb", Run: func(c *h.C) { c21Run(c, "ldb", c.N(400, 6000)) }},
		{Name: "bolt", Run: func(c *h.C) { c21Run(c, "bolt", c.N(250, 3000)) }},
		{Name: "bg", Run: func(c *h.C) { c21Run(c, "bg", c.N(150, 2000)) }},
		{Name: "bolt-empty", Run: c21BoltEmpty},
		{Name: "open", Run: c21Open},
	}}

func randKey(r *rand.Rand, n int) []byte {
	pool := []string{"a", "b", "ab", "a\x00", "\x00", "\xff", "\xff\xff", "世界", "key/1", "key/10", "key/2",
		"A", " ", "0", "00", "a very long key " + string(bytes.Repeat([]byte("k"), 300))}
	i := r.Intn(n)
	if i < len(pool) {
		return []byte(pool[i])
	}
	return []byte(fmt.Sprintf("k%d", i))
}

// Empty values of bolt have a part of their own, see empty.go.
func randVal(r *rand.Rand, empty bool) []byte {
	k := r.Intn(8)
	if !empty && k < 2 {
		k = 3
	}
	switch k {
	case 0:
		return []byte{}
	case 1:
		return nil
	case 2:
		v := make([]byte, r.Intn(100000)*(1+r.Intn(20)/19*30))
		r.Read(v)
		return v
	}
	v := make([]byte, 1+r.Intn(60))
	r.Read(v)
	return v
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

type kept struct {
	key  string
	got  []byte // what Get returned, kept
	copy []byte
}

func c21Run(c *h.C, backend string, n int) {
	h.Workers(n, 2, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rand("s", i)
		dir := filepath.Join(c.Dir, fmt.Sprint("db", i))
		model := map[string][]byte{}
		var log []string
		bad := func(key, format string, args ...interface{}) {
			l := log
			if len(l) > 60 {
				l = l[len(l)-60:]
			}
			c.Violate(key, map[string]interface{}{"backend": backend, "history": l}, backend+": "+format, args...)
		}
		nk, nops := 4+r.Intn(40), 60
		if i%25 == 7 { // many records
			nk, nops = 300+r.Intn(3000), 2000
		}
		var held []kept
		for life := 0; life < 2+r.Intn(2); life++ {
			c.Phase("%s: open %s, life %d", backend, dir, life)
			db, err := store.OpenStore(dir, backend)
			if err != nil || db == nil {
				bad("open", "OpenStore, life %d: %v", life, err)
				return
			}
			log = append(log, "open")
			if want := map[string]string{"bolt": dir}[backend]; db.WALName() != want {
				bad("wal-name", "WALName() = %q, want %q", db.WALName(), want)
			}
			changed := 0
			var names []string
			check := func() {
				var got []string
				err := db.ForEach(func(k, v []byte) error {
					got = append(got, string(k))
					if m, ok := model[string(k)]; !ok || !bytes.Equal(m, v) {
						bad("foreach", "ForEach gives %s = %s, stored is %s (%v)", short(k), short(v), short(m), ok)
					}
					return nil
				})
				if err != nil {
					bad("foreach", "ForEach: %v", err)
				}
				sort.Strings(got)
				names = names[:0]
				for k := range model {
					names = append(names, k)
				}
				sort.Strings(names)
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", names) {
					bad("foreach", "ForEach gives the keys %q, stored are %q", got, names)
				}
			}
			check()
			for k := 10 + r.Intn(nops); k > 0 && !c.Violated(); k-- {
				key := randKey(r, nk)
				m, present := model[string(key)]
				switch r.Intn(10) {
				case 0, 1, 2, 3:
					v := randVal(r, backend != "bolt")
					log = append(log, fmt.Sprintf("Set(%s, %s)", short(key), short(v)))
					kk, vv := append([]byte{}, key...), append([]byte{}, v...)
					if err := db.Set(kk, vv); err != nil {
						bad("set", "Set(%s): %v", short(key), err)
					}
					model[string(key)] = v
					if present {
						changed++
					}
					// the buffers are the caller's again
					for j := range kk {
						kk[j] ^= 0x55
					}
					for j := range vv {
						vv[j] ^= 0x55
					}
				case 4, 5:
					log = append(log, fmt.Sprintf("Delete(%s)", short(key)))
					kk := append([]byte{}, key...)
					if err := db.Delete(kk); err != nil {
						bad("delete", "Delete(%s): %v", short(key), err)
					}
					for j := range kk {
						kk[j] ^= 0x55
					}
					if present {
						changed++
					}
					delete(model, string(key))
				case 6, 7:
					v, err := db.Get(key)
					log = append(log, fmt.Sprintf("Get(%s) = %s, %v", short(key), short(v), err))
					if present && (err != nil || !bytes.Equal(v, m)) {
						bad("get", "Get(%s) = %s, %v; stored is %s", short(key), short(v), err, short(m))
					}
					if !present && len(v) > 0 {
						bad("get", "Get(%s) = %s, %v; nothing is stored", short(key), short(v), err)
					}
					if err == nil && len(v) > 0 {
						if r.Intn(2) == 0 {
							held = append(held, kept{string(key), v, append([]byte{}, v...)})
						} else {
							for j := range v {
								v[j] ^= 0xaa // a returned value is the caller's
							}
							if v2, err := db.Get(key); err != nil || !bytes.Equal(v2, m) {
								bad("get-alias", "writing to a value that Get returned changed the store: %s is now %s, %v", short(key), short(v2), err)
							}
						}
					}
				case 8:
					has, err := db.Has(key)
					log = append(log, fmt.Sprintf("Has(%s) = %v, %v", short(key), has, err))
					if has != present || present && err != nil {
						bad("has", "Has(%s) = %v, %v; stored %v", short(key), has, err, present)
					}
				default:
					if nops > 60 && r.Intn(20) > 0 {
						continue
					}
					if r.Intn(3) == 0 {
						check()
						continue
					}
					// a failing callback ends the iteration with its error
					stop := errors.New("stop here")
					at, seen := r.Intn(len(model)+1), 0
					err := db.ForEach(func(k, v []byte) error {
						seen++
						if seen == at+1 {
							return stop
						}
						return nil
					})
					if at < len(model) && (err != stop || seen != at+1) {
						bad("foreach-error", "ForEach went on to record %d after its callback failed at %d: %v", seen, at+1, err)
					}
					if at >= len(model) && (err != nil || seen != len(model)) {
						bad("foreach-error", "ForEach gave %d of %d records: %v", seen, len(model), err)
					}
				}
				h.Progress()
				c.Count("operations", 1)
			}
			check()
			for _, k := range held {
				if !bytes.Equal(k.got, k.copy) {
					bad("get-alias", "the value that Get(%q) returned changed later", k.key)
				}
			}
			log = append(log, "close")
			c.Phase("%s: close", backend)
			if err := db.Close(); err != nil {
				bad("close", "Close: %v", err)
			}
			// values must outlive the database
			for _, k := range held {
				if !bytes.Equal(k.got, k.copy) {
					bad("get-alias", "the value that Get(%q) returned changed when the store was closed", k.key)
				}
			}
			h.Progress()
			sig := ""
			if changed > 0 {
				sig = fmt.Sprint(i, life)
			}
			c.Count("values_held", len(held))
			c.Case(sig, func() interface{} {
				return map[string]interface{}{"records": len(model), "history": log[max(0, len(log)-8):]}
			})
		}
		os.RemoveAll(dir)
	})
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// c21Open checks how a backend is chosen.
func c21Open(c *h.C) {
	opened := ""
	mk := func(name string) func(string) (store.Store, error) {
		return func(p string) (store.Store, error) {
			opened = name + " " + p
			return nil, errors.New("only a test: " + name)
		}
	}
	for i := 0; i < c.N(40, 400) && !c.Violated(); i++ {
		r := c.Rand("o", i)
		name := fmt.Sprint("mine", r.Intn(5))
		store.RegisterStore(name, mk(name))
		env := []string{"", "", "mine-env", "nosuch"}[r.Intn(4)]
		store.RegisterStore("mine-env", mk("mine-env"))
		os.Setenv("Riot_Store_Engine", env)
		arg := []string{name, "", "unknown", "-"}[r.Intn(4)]
		dir := filepath.Join(c.Dir, fmt.Sprint("open", i))
		opened = ""
		var db store.Store
		var err error
		if arg == "-" {
			db, err = store.OpenStore(dir)
		} else {
			db, err = store.OpenStore(dir, arg)
		}
		// the argument decides, then the environment, then the default
		want := arg
		if arg == "" || arg == "-" {
			want = env
		}
		desc := fmt.Sprintf("OpenStore(path, %q) with Riot_Store_Engine=%q", arg, env)
		switch want {
		case "unknown", "nosuch":
			if err == nil || db != nil {
				c.Violate("open-unknown", nil, "%s opened something", desc)
			}
		case "":
			st, e := os.Stat(dir)
			if err != nil || db == nil || opened != "" || e != nil || !st.IsDir() {
				c.Violate("open-default", nil, "%s did not open the default store: %v %q", desc, err, opened)
			} else if _, e := os.Stat(filepath.Join(dir, "CURRENT")); e != nil {
				c.Violate("open-default", nil, "%s did not open a leveldb store", desc)
			}
		default:
			if opened != want+" "+dir || err == nil {
				c.Violate("open-registered", nil, "%s called %q", desc, opened)
			}
		}
		if db != nil {
			db.Close()
			os.RemoveAll(dir)
		}
		h.Progress()
		c.Case(fmt.Sprint(arg, "/", env), func() interface{} { return desc })
	}
	os.Unsetenv("Riot_Store_Engine")
	// places where nothing can be opened
	file := filepath.Join(c.Dir, "file")
	h.Must(os.WriteFile(file, []byte("x"), 0o600))
	junk := filepath.Join(c.Dir, "junk")
	h.Must(os.WriteFile(junk, bytes.Repeat([]byte("no database "), 4000), 0o600))
	dir := filepath.Join(c.Dir, "dir")
	h.Must(os.MkdirAll(dir, 0o700))
	for _, f := range []struct{ what, path, b string }{
		{"below a regular file", filepath.Join(file, "db"), "ldb bolt bg"},
		{"two levels below a regular file", filepath.Join(file, "a", "b"), "ldb bolt bg"},
		{"at a regular file", file, "ldb bg"},
		{"at a file that is no database", junk, "ldb bolt bg"},
		{"at a directory", dir, "bolt"},
	} {
		for _, b := range strings.Fields(f.b) {
			db, err := store.OpenStore(f.path, b)
			if err == nil || db != nil {
				c.Violate("open-failure", nil, "OpenStore(%q, %q) %s gives %v, %v", f.path, b, f.what, db, err)
			}
			what := f.what + ": " + b
			c.Case("fail/"+what, func() interface{} { return "OpenStore " + what })
		}
	}
	if b, err := os.ReadFile(file); err != nil || string(b) != "x" {
		c.Violate("open-failure", nil, "OpenStore changed the file at %s", file)
	}
}
