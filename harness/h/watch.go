package h

import (
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// The dead-state detector. It does not judge by time: it takes snapshots of
// every goroutine, and reports only when the system cannot move any more.
// A goroutine that is running, runnable, sleeping, in a system call or in the
// network poller may still move; the exceptions are the monitor itself and a
// goroutine in the loop of Engine.Flush or Engine.Store that polls counters
// which only other goroutines advance. When several snapshots in a
// row show no goroutine that can move, and nothing the harness watches has
// advanced, the state is dead and whatever waits in it waits forever.

var progress int64

// Progress tells the detector that the workload advanced.
func Progress() { atomic.AddInt64(&progress, 1) }

// idleOK is set while the workload legitimately waits on something outside
// the process.
var idleOK int32

// Outside brackets a wait on something outside the process.
func Outside(f func()) {
	atomic.AddInt32(&idleOK, 1)
	defer atomic.AddInt32(&idleOK, -1)
	f()
}

var goHeader = regexp.MustCompile(`^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]*)\]:`)

func snapshot() (dump string, movable int, pollers int) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	dump = string(buf)
	for _, g := range strings.Split(dump, "\n\n") {
		m := goHeader.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		state := m[1]
		if i := strings.IndexByte(state, ','); i >= 0 {
			state = state[:i]
		}
		if strings.Contains(g, "harness/h.(*C).watch(") {
			continue
		}
		poll := polls(g)
		switch {
		case poll && (strings.HasPrefix(state, "run") || strings.Contains(state, "Gosched")):
			pollers++
		case strings.HasPrefix(state, "chan receive"),
			strings.HasPrefix(state, "chan send"),
			strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"),
			strings.HasPrefix(state, "select") && !timerSelect(g),
			strings.HasPrefix(state, "finalizer"), strings.HasPrefix(state, "cleanup"),
			strings.HasPrefix(state, "GC "), strings.HasPrefix(state, "force gc"),
			strings.HasPrefix(state, "debug call"), strings.HasPrefix(state, "idle"):
		default:
			if benign(g, state) {
				continue
			}
			movable++
		}
	}
	return dump, movable, pollers
}

// polls: the goroutine is in the polling loop of Flush or Store, or in a
// helper of the engine called there, not in something else that they called,
// like the opening of a store.
func polls(g string) bool {
	for _, l := range strings.Split(g, "\n")[1:] {
		switch {
		case strings.HasPrefix(l, "\t"), strings.HasPrefix(l, "runtime."), strings.HasPrefix(l, "sync/atomic."),
			strings.HasPrefix(l, "internal/runtime/"):
		case strings.HasPrefix(l, "github.com/go-ego/riot.(*Engine).Flush("), strings.HasPrefix(l, "github.com/go-ego/riot.(*Engine).Store("):
			return true
		case !strings.HasPrefix(l, "github.com/go-ego/riot."):
			return false
		}
	}
	return false
}

// timerSelect: a select that a timer may end.
func timerSelect(g string) bool {
	return strings.Contains(g, "riot.(*Engine).Search(")
}

// benign goroutines are library loops that do not act on the workload.
func benign(g, state string) bool {
	if strings.HasPrefix(state, "syscall") && strings.Contains(g, "os/signal") {
		return true
	}
	return strings.Contains(g, "toml.Watch") || strings.Contains(g, "fsnotify")
}

// cpuSeconds is the processor time this process has used.
func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// livelockCPU is how much processor time may be burnt between two steps of a
// workload whose steps take milliseconds.
const livelockCPU = 300

// stuckTicks is how many times the detector looks without seeing any step of
// the workload complete before it takes the call in progress for stuck, even
// if some goroutine sleeps or waits on the network: three minutes of a process
// that runs, where steps take milliseconds.
const stuckTicks = 450

func (c *C) watch() {
	if os.Getenv("VERIF_NOWATCH") != "" {
		return
	}
	dead := 0
	last := int64(-1)
	ticks, still := 0, 0
	cpu0 := cpuSeconds()
	for {
		time.Sleep(400 * time.Millisecond)
		now := atomic.LoadInt64(&progress)
		if now != last {
			still = 0
		}
		still++
		if still < stuckTicks && atomic.LoadInt32(&idleOK) > 0 || now != last {
			last, dead, ticks = now, 0, 0
			cpu0 = cpuSeconds()
			continue
		}
		ticks++
		if ticks < 5 && still < stuckTicks {
			continue
		}
		dump, movable, pollers := snapshot()
		livelock := cpuSeconds()-cpu0 > livelockCPU
		if movable > 0 && !livelock && still < stuckTicks {
			dead = 0
			continue
		}
		stuck := still >= stuckTicks
		if livelock || stuck {
			dead = 8
		}
		dead++
		if dead < 8 {
			continue
		}
		ph, _ := c.phase.Load().(string)
		what := "deadlock: every goroutine is parked"
		if pollers > 0 {
			what = "Flush can never return: every worker is idle and the counters it polls do not agree"
		}
		if livelock {
			what = "livelock: the processor is busy but no step of the workload completes"
		}
		if stuck && !livelock && pollers == 0 && movable > 0 {
			what = "a call never returns: no step of the workload has completed for a very long time"
		}
		if len(dump) > 60000 {
			dump = dump[:60000]
		}
		c.mu.Lock()
		c.maxViol = 1
		c.mu.Unlock()
		c.Violate("dead-state", map[string]interface{}{"phase": ph, "goroutines": dump},
			"%s (while: %s)", what, ph)
	}
}
