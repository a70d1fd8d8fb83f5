package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"syscall"

	"github.com/go-ego/riot/store"

	"verif/harness/h"
)

// Empty values on bolt, in a process of their own: the bbolt release in use
// makes pointers behind the end of an allocation for them, on which the
// garbage collector ends the process sooner or later. That is a listed
// finding; anything else that goes wrong here is not.
func boltEmptyWorker(dir string) {
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
			}
		}
	}()
	for i := 0; i < 300; i++ {
		p := filepath.Join(dir, fmt.Sprint(i))
		db, err := store.OpenStore(p, "bolt")
		h.Must(err)
		r := rand.New(rand.NewSource(int64(i)))
		live := map[string]int{}
		for k := 0; k < 40; k++ {
			key := fmt.Sprint("k", r.Intn(30))
			n := r.Intn(200) * r.Intn(2)
			if err := db.Set([]byte(key), make([]byte, n)); err != nil {
				fmt.Fprintf(os.Stderr, "WRONG: Set of an empty value: %v\n", err)
				os.Exit(3)
			}
			live[key] = n
			if r.Intn(3) == 0 {
				db.Delete([]byte(key))
				delete(live, key)
			}
			_, want := live[key]
			has, err := db.Has([]byte(key))
			v, _ := db.Get([]byte(key))
			if has != want || err != nil || len(v) != live[key] {
				fmt.Fprintf(os.Stderr, "WRONG: key with a value of %d bytes, present %v: Has %v, Get %d bytes\n", live[key], want, has, len(v))
				os.Exit(3)
			}
		}
		n := 0
		db.ForEach(func(k, v []byte) error { n++; return nil })
		if n != len(live) {
			fmt.Fprintf(os.Stderr, "WRONG: ForEach gives %d of %d records\n", n, len(live))
			os.Exit(3)
		}
		db.Close()
		os.Remove(p)
	}
	close(stop)
	os.Exit(0)
}

var gcCrash = regexp.MustCompile(`fatal error: (found pointer to free object|found bad pointer in Go heap|marking free object|sweep increased allocation count)`)

func c21BoltEmpty(c *h.C) {
	for i := 0; i < c.N(3, 10) && !c.Violated(); i++ {
		dir := filepath.Join(c.Dir, fmt.Sprint("empty", i))
		h.Must(os.MkdirAll(dir, 0o755))
		self, err := os.Executable()
		h.Must(err)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VERIF_BOLT_EMPTY="+dir, "VERIF_PART=", "GOTRACEBACK=single")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var out []byte
		h.Outside(func() { out, err = cmd.CombinedOutput() })
		s := string(out)
		switch {
		case err == nil:
			c.Count("runs_without_crash", 1)
		case strings.Contains(s, "HARNESS-ERROR"):
			h.Must(fmt.Errorf("%s", s))
		case gcCrash.MatchString(s):
			c.Count("garbage_collector_crashes", 1)
			c.Violate("bolt-empty-value-gc-crash", s[:min(len(s), 3000)], "storing empty values with the bolt backend ended the process: %s", gcCrash.FindString(s))
		default:
			c.Violate("bolt-empty-value", s[:min(len(s), 3000)], "empty values with the bolt backend: %v: %s", err, s[:min(len(s), 300)])
		}
		c.Case(fmt.Sprint(i), func() interface{} { return "300 small bolt stores with empty values under constant garbage collection" })
		os.RemoveAll(dir)
		h.Progress()
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
