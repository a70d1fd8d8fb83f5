// Package h is the frame shared by the monitors: it runs each part of a
// property in a child process, watches the child for crashes, data races and
// dead states, and turns what the oracles counted into evidence.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Part is one child process of a check.
type Part struct {
	Name string
	Run  func(c *C)
	Env  []string // extra environment of the child
	// Race is set when data race reports of the child count as violations.
	Race bool
}

// Prop is one checked property.
type Prop struct {
	ID    string
	Level string
	Rule  string // how cases are made and what makes one non-trivial
	Parts []Part
	// Assumptions go into the evidence.
	Assumptions []string
}

// Viol is one violation found by an oracle.
type Viol struct {
	Key    string      `json:"key"`
	Msg    string      `json:"msg"`
	Detail interface{} `json:"detail,omitempty"`
}

// Result is what a part reports.
type Result struct {
	Part        string           `json:"part"`
	Evaluations int              `json:"evaluations"`
	Distinct    []uint64         `json:"distinct"`
	Samples     []interface{}    `json:"samples"`
	Counts      map[string]int64 `json:"counts"`
	Violations  []Viol           `json:"violations"`
	Done        bool             `json:"done"`
}

// C is the context of a running part.
type C struct {
	Prop, Part string
	Seed       int64
	Tier       string
	Dir        string // scratch directory of this part, removed by the parent

	mu       sync.Mutex
	res      Result
	distinct map[uint64]bool
	out      string
	phase    atomic.Value
	maxViol  int
}

// Quick tells whether this is the quick tier.
func (c *C) Quick() bool { return c.Tier != "thorough" }

// N picks a size by tier.
func (c *C) N(quick, thorough int) int {
	if c.Quick() {
		return quick
	}
	return thorough
}

// Rand returns the generator of one case.
func (c *C) Rand(salt ...interface{}) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprint(f, c.Prop, "/", c.Part, "/", c.Seed, "/", fmt.Sprint(salt...))
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

// Case counts one evaluation; sig identifies the case among the distinct
// non-trivial ones (empty: trivial), and sample is kept for the evidence.
func (c *C) Case(sig string, sample func() interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evaluations++
	if sig == "" {
		return
	}
	f := fnv.New64a()
	f.Write([]byte(sig))
	k := f.Sum64()
	if !c.distinct[k] {
		c.distinct[k] = true
		if len(c.res.Samples) < 3 && sample != nil {
			c.res.Samples = append(c.res.Samples, sample())
		}
	}
}

// Count adds to a named measurement.
func (c *C) Count(name string, n int) {
	c.mu.Lock()
	c.res.Counts[name] += int64(n)
	c.mu.Unlock()
}

// Max keeps the maximum of a named measurement.
func (c *C) Max(name string, n int) {
	c.mu.Lock()
	if c.res.Counts[name] < int64(n) {
		c.res.Counts[name] = int64(n)
	}
	c.mu.Unlock()
}

// Violate records a violation. After a few, the part ends.
func (c *C) Violate(key string, detail interface{}, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	// A listed finding is reported a few times and then only counted: it must
	// neither crowd out nor hide other violations.
	known := knownKey(c.Prop, key)
	same, unlisted := 0, 0
	for _, v := range c.res.Violations {
		if v.Key == key {
			same++
		}
		if !knownKey(c.Prop, v.Key) {
			unlisted++
		}
	}
	if known {
		c.res.Counts["known_finding_"+key]++
		if same >= 3 {
			return
		}
	} else {
		unlisted++
	}
	c.res.Violations = append(c.res.Violations,
		Viol{Key: key, Msg: fmt.Sprintf(format, args...), Detail: detail})
	if unlisted >= c.maxViol {
		c.writeLocked()
		os.Exit(0)
	}
}

// Violated tells whether an unlisted violation was recorded.
func (c *C) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, v := range c.res.Violations {
		if !knownKey(c.Prop, v.Key) {
			return true
		}
	}
	return false
}

// Phase notes what the part is doing, for reports of stalls and crashes.
func (c *C) Phase(format string, args ...interface{}) {
	c.phase.Store(fmt.Sprintf(format, args...))
}

func (c *C) writeLocked() {
	c.res.Distinct = c.res.Distinct[:0]
	for k := range c.distinct {
		c.res.Distinct = append(c.res.Distinct, k)
	}
	b, err := json.Marshal(&c.res)
	if err != nil {
		b, _ = json.Marshal(&Result{Part: c.Part, Counts: c.res.Counts,
			Violations: []Viol{{Key: "report", Msg: fmt.Sprintf("%v: %+v", err, c.res.Violations)}}})
	}
	if err := os.WriteFile(c.out+".tmp", b, 0o644); err == nil {
		os.Rename(c.out+".tmp", c.out)
	}
}

func childMain(p *Prop, part *Part) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &C{Prop: p.ID, Part: part.Name, Seed: seed, Tier: tier(),
		Dir: os.Getenv("VERIF_SCRATCH"), out: os.Getenv("VERIF_OUT"),
		distinct: map[uint64]bool{}, maxViol: 3}
	c.res.Part = part.Name
	c.res.Counts = map[string]int64{}
	c.phase.Store("start")
	log.SetFlags(log.Lmicroseconds)
	go c.watch()
	part.Run(c)
	c.mu.Lock()
	c.res.Done = true
	c.writeLocked()
	c.mu.Unlock()
	os.Exit(0)
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Must ends the part as an error of the check, not a violation.
func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(77)
	}
}

// Workers runs f(0..n-1) on k goroutines and waits.
func Workers(n, k int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

var start = time.Now()
