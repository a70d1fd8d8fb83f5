package h

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"strings"
	"time"
)

// Held is what the process holds at a moment.
type Held struct{ Goroutines, Files, Children, HeapKB int }

// Holds looks at the process.
func Holds() Held {
	fds, _ := os.ReadDir("/proc/self/fd")
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return Held{runtime.NumGoroutine(), len(fds), children(), int(m.HeapAlloc >> 10)}
}

// children counts the child processes, ended ones that nobody waited for
// included.
func children() int {
	n := 0
	ps, _ := os.ReadDir("/proc")
	for _, p := range ps {
		if p.Name()[0] < '0' || p.Name()[0] > '9' {
			continue
		}
		b, err := os.ReadFile(filepath.Join("/proc", p.Name(), "stat"))
		if err != nil {
			continue
		}
		f := strings.Fields(string(b[strings.LastIndex(string(b), ")")+1:]))
		if len(f) > 1 && f[1] == fmt.Sprint(os.Getpid()) {
			n++
		}
	}
	return n
}

func tidy() {
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	runtime.GC()
	runtime.GC() // the first one may only run finalizers
}

// Settle waits until the process holds no more than it may.
func Settle(may Held) (last Held, ok bool) {
	for t := 0; t < 600; t++ {
		tidy()
		last = Holds()
		if last.Goroutines <= may.Goroutines && last.Files <= may.Files && last.Children <= may.Children &&
			(may.HeapKB <= 0 || last.HeapKB <= may.HeapKB) {
			return last, true
		}
		Progress()
		time.Sleep(100 * time.Millisecond)
	}
	return last, false
}

// Quiet gives what the process holds when nothing is under way.
func Quiet() Held {
	quiet := Holds()
	for t := 0; t < 25; t++ { // what the last operations hold for a while
		tidy()
		time.Sleep(20 * time.Millisecond)
		if x := Holds(); x.Goroutines <= quiet.Goroutines && x.Files <= quiet.Files {
			quiet = x
		}
	}
	return quiet
}

// Repeat does one thing n times, and some times before, and expects that the
// process then holds about as much as before.
func (c *C) Repeat(what string, n int, f func(i int)) {
	warm := 10
	if n < 30 {
		warm = 3
	}
	c.RepeatMax(what, warm, n, Held{Goroutines: n/4 + 3, Files: n/4 + 3, Children: n/4 + 3}, f)
}

// RepeatMax does one thing warm times and then n times, which may add no more
// than the given to what the process holds. Without a number for the heap it
// is not looked at; a negative number of goroutines stands for any.
func (c *C) RepeatMax(what string, warm, n int, more Held, f func(i int)) {
	c.Phase("%s", what)
	for i := 0; i < warm; i++ {
		f(i)
		Progress()
	}
	quiet := Quiet()
	for i := 0; i < n && !c.Violated(); i++ {
		f(warm + i)
		Progress()
	}
	may := Held{quiet.Goroutines + more.Goroutines, quiet.Files + more.Files, quiet.Children + more.Children, 0}
	if more.HeapKB > 0 {
		may.HeapKB = quiet.HeapKB + more.HeapKB
	}
	if more.Goroutines < 0 {
		may.Goroutines = 1 << 40
	}
	end, ok := Settle(may)
	if !ok {
		var dump strings.Builder
		pprof.Lookup("goroutine").WriteTo(&dump, 1)
		files := []string{}
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, d := range fds {
			l, _ := os.Readlink("/proc/self/fd/" + d.Name())
			files = append(files, l)
		}
		c.Violate("leak", map[string]interface{}{"operation": what, "times": n, "before": quiet, "after": end,
			"goroutines": clip(dump.String(), 20000), "files": clip(fmt.Sprint(files), 4000)},
			"after %d times %s the process holds %d goroutines, %d files, %d children and %d KB more than before, for a minute", n, what,
			end.Goroutines-quiet.Goroutines, end.Files-quiet.Files, end.Children-quiet.Children, end.HeapKB-quiet.HeapKB)
	}
	c.Count("operations", n)
	c.Max("max_goroutines_kept", end.Goroutines-quiet.Goroutines)
	c.Max("max_files_kept", end.Files-quiet.Files)
	c.Max("max_children_kept", end.Children-quiet.Children)
	if more.HeapKB > 0 {
		c.Max("max_heap_kb_kept", end.HeapKB-quiet.HeapKB)
	}
	c.Case(what, func() interface{} {
		return map[string]interface{}{"operation": what, "times": n, "before": quiet, "after": end}
	})
}
