package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	hb "github.com/go-ego/riot/net/heartb"

	"verif/harness/h"
)

// supervised is the service under supervision. Its HeartBeat runs while the
// supervisor waits for it, so the state it sees is that after the beat before.
type supervised struct {
	rpcBackend
	c     *h.C
	r     *rand.Rand
	dir   string
	plan  []string
	k     int
	count int // failures since the last restart
	runs  int // restarts so far
	log   []string
	done  chan bool
	kills bool
	stand string
	seq   int
}

func healthOf(c *h.C) int {
	w := httptest.NewRecorder()
	hb.Health(w, httptest.NewRequest("GET", "/health", nil))
	var raw struct{ Code, Timestamp, Health *int }
	if json.Unmarshal(w.Body.Bytes(), &raw) != nil || raw.Code == nil || raw.Timestamp == nil || raw.Health == nil ||
		*raw.Code != 0 || w.Code != 200 || !strings.HasPrefix(w.Header().Get("Content-Type"), "application/json") {
		c.Violate("health-response", w.Body.String(), "Health answers %d %v %q", w.Code, w.Header(), w.Body.String())
		return -1
	}
	return *raw.Health
}

// runsOf reads the restarts that happened, one line each with the directory.
func runsOf(dir string) []string {
	b, _ := os.ReadFile(filepath.Join(dir, "runs"))
	if len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

func (s *supervised) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) {
	h.Progress()
	what := "healthy"
	if s.k < len(s.plan) {
		what = s.plan[s.k]
	}
	wit := func() interface{} {
		return map[string]interface{}{"beats": s.log, "plan": s.plan}
	}
	got := runsOf(s.dir)
	if len(got) != s.runs {
		s.c.Violate("restarts", wit(), "before beat %d the service was restarted %d times, expected %d (beats: %q)", s.k, len(got), s.runs, s.log)
	}
	for _, d := range got {
		if d != s.dir {
			s.c.Violate("restart-directory", wit(), "the restart command ran in %q, expected %q", d, s.dir)
		}
	}
	if n := healthOf(s.c); n != s.count {
		s.c.Violate("health", wit(), "before beat %d Health reports %d failures, expected %d (beats: %q)", s.k, n, s.count, s.log)
	}
	if _, err := os.Stat(filepath.Join(s.dir, "busy")); err == nil {
		s.c.Violate("restart-running", wit(), "beat %d is sent while the restart command still runs (beats: %q)", s.k, s.log)
	}
	if in.Msg != 1 {
		s.c.Violate("beat", wit(), "the beat carries %d", in.Msg)
	}
	if s.kills && s.r.Intn(5) == 0 {
		s.kill(wit)
	}
	s.k++
	sig := ""
	if s.count > 0 || what != "healthy" {
		sig = fmt.Sprint(s.c.Part, s.k, s.count, s.runs, what)
	}
	s.c.Case(sig, func() interface{} {
		return map[string]interface{}{"beat": s.k, "outcome": what, "failures": s.count, "restarts": s.runs}
	})
	s.c.Count("beats_"+what, 1)
	s.log = append(s.log, what)
	if s.k == len(s.plan) {
		close(s.done)
	}
	if what != "healthy" {
		s.count++
		if s.count > 3 {
			s.count = 0
			s.runs++
			s.c.Count("restarts", 1)
		}
	}
	switch what {
	case "error":
		return nil, status.Error(codes.Internal, "not well")
	case "sick":
		return &pb.Reply{Result: int32(2 + s.r.Intn(3)*1000)}, nil
	case "zero":
		return &pb.Reply{}, nil
	}
	return &pb.Reply{Result: 1}, nil
}

// kill asks for the service to be killed while the supervisor waits.
func (s *supervised) kill(wit func() interface{}) {
	s.seq++
	killOnce(s.c, s.r, s.stand, s.seq)
	s.count = 0
	if n := healthOf(s.c); n != 0 {
		s.c.Violate("health", wit(), "after a kill Health reports %d failures", n)
	}
	s.log = append(s.log, "kill")
}

// killOnce sends one KillSer or RestartSer request. The killall on the PATH
// only records its arguments.
func killOnce(c *h.C, r *rand.Rand, stand string, seq int) {
	rec := filepath.Join(stand, "calls")
	os.Remove(rec)
	canary := filepath.Join(stand, fmt.Sprint("canary", seq))
	base := fmt.Sprintf("verif-no-such-process-%d", seq)
	names := []string{base, base, base + " " + base + "-b", " " + base + " ", base + ".service", base + "世界",
		base + "; touch " + canary, base + " && touch " + canary, "$(touch " + canary + ")" + base,
		"`touch " + canary + "`", base + "|touch " + canary, base + "\ntouch " + canary, "x > " + canary + " " + base,
		"'; touch " + canary + " #", "--user " + base, "-r " + base, "-s " + base}
	k := r.Intn(len(names))
	name := names[k]
	form := url.Values{"name": {name}}
	if r.Intn(3) == 0 { // nothing is named, nothing is killed
		k, name, form = len(names), "", url.Values{}
		if r.Intn(2) == 0 {
			form = url.Values{"nam": {base}}
		}
	}
	w := httptest.NewRecorder()
	q := httptest.NewRequest("GET", "/kill?"+form.Encode(), nil)
	if r.Intn(2) == 0 {
		q = httptest.NewRequest("POST", "/kill", strings.NewReader(form.Encode()))
		q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	if r.Intn(2) == 0 {
		h.Outside(func() { hb.RestartSer(w, q) })
	} else {
		h.Outside(func() { hb.KillSer(w, q) })
		var j hb.Json
		if w.Code != 200 || json.Unmarshal(w.Body.Bytes(), &j) != nil || j.Code != 0 || j.Timestamp == 0 {
			c.Violate("kill-response", w.Body.String(), "KillSer answers %d %q", w.Code, w.Body.String())
		}
	}
	h.Progress()
	c.Count("kills", 1)
	wit := map[string]interface{}{"name": name}
	if _, err := os.Stat(canary); err == nil {
		os.Remove(canary)
		c.Violate("injection", wit, "a kill request for %q runs a command of the request", name)
		return
	}
	b, _ := os.ReadFile(rec)
	calls := strings.Split(strings.TrimSuffix(string(b), "\x01"), "\x01")
	wit["killall"] = fmt.Sprintf("%q", calls)
	var want []string
	want = strings.Fields(name)
	if len(want) == 0 && len(b) == 0 {
		c.Case(fmt.Sprint("kill", k), func() interface{} { return wit })
		return
	}
	if len(calls) != 1 || len(b) == 0 {
		c.Violate("kill", wit, "a kill request for %q runs killall %d times", name, len(calls))
		return
	}
	var procs []string
	nine, only := false, false
	for _, a := range strings.Split(strings.TrimSuffix(calls[0], "\x00"), "\x00") {
		switch {
		case only:
			procs = append(procs, a)
		case a == "--":
			only = true
		case a == "-9" || a == "-KILL" || a == "-SIGKILL":
			nine = true
		default:
			procs = append(procs, a)
		}
	}
	if strings.HasPrefix(strings.TrimSpace(name), "-") && !only {
		c.Violate("injection", wit, "a kill request for %q gives killall the options of the request: %q", name, procs)
	}
	if !nine || fmt.Sprintf("%q", procs) != fmt.Sprintf("%q", want) {
		c.Violate("kill", wit, "a kill request for %q runs killall on %q, kill signal %v", name, procs, nine)
	}
	sig := fmt.Sprint("kill", k)
	c.Case(sig, func() interface{} { return wit })
}

// standIn puts a killall that only records before everything on the PATH.
func standIn(c *h.C) string {
	d := filepath.Join(c.Dir, "bin")
	h.Must(os.MkdirAll(d, 0o755))
	script := "#!/bin/sh\nfor a in \"$@\"; do printf '%s\\000' \"$a\"; done >> " + d + "/calls\nprintf '\\001' >> " + d + "/calls\nexit 1\n"
	h.Must(os.WriteFile(filepath.Join(d, "killall"), []byte(script), 0o755))
	for _, k := range []string{"pkill", "kill", "systemctl", "service"} {
		h.Must(os.WriteFile(filepath.Join(d, k), []byte("#!/bin/sh\nexit 0\n"), 0o755))
	}
	os.Setenv("PATH", d+":"+os.Getenv("PATH"))
	return d
}

// beats runs a supervisor against planned outcomes.
func beats(n int, kills, rel bool) func(c *h.C) {
	return func(c *h.C) {
		r := c.Rand("plan")
		name := []string{"app", "my app", "app;$HOME", "a'b\"", "-app", "deep/../up"}[r.Intn(6)]
		given := filepath.Join(c.Dir, name)
		if rel { // a directory below the working directory
			h.Must(os.Chdir(c.Dir))
			given = name
		}
		h.Must(os.MkdirAll(filepath.Join(c.Dir, "deep"), 0o755))
		s := &supervised{c: c, r: r, dir: filepath.Join(c.Dir, name), done: make(chan bool), kills: kills, stand: standIn(c)}
		h.Must(os.MkdirAll(s.dir, 0o755))
		for len(s.plan) < c.N(n, 10*n) {
			what := []string{"healthy", "error", "error", "sick", "zero"}[r.Intn(5)]
			for k := 1 + r.Intn(4); k > 0; k-- {
				s.plan = append(s.plan, what)
			}
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		h.Must(err)
		g := grpc.NewServer()
		pb.RegisterGreeterServer(g, s)
		go g.Serve(l)
		// the command takes longer than the time between beats
		bra := "touch busy; pwd >> runs; sleep 1.3; rm busy; exit " + fmt.Sprint(r.Intn(2))
		go hb.Grpcc(l.Addr().String(), given, bra)
		wait(c, s.done, 2*len(s.plan)+60, "beats", func() interface{} { return "no more beats arrive" })
	}
}

// wait ends the run when nothing arrives for very much longer than a beat.
func wait(c *h.C, done chan bool, limit int, key string, wit func() interface{}) {
	for t := 0; ; t++ {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
			h.Progress()
		}
		if c.Violated() {
			return
		}
		if t > limit*3 {
			c.Violate(key, wit(), "the supervisor stopped: nothing happened for %d seconds in which at least %d beats were due", t, limit)
			return
		}
	}
}

// revive is a service that dies; the restart command brings it back.
func revive(c *h.C) {
	standIn(c)
	dir := filepath.Join(c.Dir, "app")
	h.Must(os.MkdirAll(dir, 0o755))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	h.Must(err)
	addr := l.Addr().String()
	var beat int64
	up := func(l net.Listener) *grpc.Server {
		g := grpc.NewServer()
		pb.RegisterGreeterServer(g, &aliveServer{beat: &beat})
		go g.Serve(l)
		return g
	}
	go hb.Grpcc(addr, dir, "pwd >> runs")
	g := up(l)
	for round := 0; round < c.N(2, 8) && !c.Violated(); round++ {
		from := atomic.LoadInt64(&beat)
		ok := make(chan bool)
		go func() {
			for atomic.LoadInt64(&beat) < from+2 {
				time.Sleep(20 * time.Millisecond)
			}
			close(ok)
		}()
		wait(c, ok, 60, "revive", func() interface{} { return "a running service gets no beats" })
		before := len(runsOf(dir))
		g.Stop()
		dead := make(chan bool)
		go func() {
			for len(runsOf(dir)) == before {
				time.Sleep(20 * time.Millisecond)
			}
			close(dead)
		}()
		wait(c, dead, 40, "revive", func() interface{} { return "a dead service is not restarted" })
		for try := 0; ; try++ {
			l, err = net.Listen("tcp", addr)
			if err == nil {
				break
			}
			if try > 500 {
				h.Must(err)
			}
			time.Sleep(10 * time.Millisecond)
			h.Progress()
		}
		g = up(l)
		c.Count("revived", 1)
		c.Case(fmt.Sprint("revive", round), nil)
	}
}

type aliveServer struct {
	rpcBackend
	beat *int64
}

func (a aliveServer) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) {
	atomic.AddInt64(a.beat, 1)
	return &pb.Reply{Result: 1}, nil
}

// storm calls the handlers from many goroutines while beats fail.
func storm(c *h.C) {
	standIn(c)
	dir := filepath.Join(c.Dir, "app")
	h.Must(os.MkdirAll(dir, 0o755))
	for k := 0; k < 2; k++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		h.Must(err)
		s := grpc.NewServer()
		pb.RegisterGreeterServer(s, &rpcBackend{c: c})
		go s.Serve(l)
		go hb.Grpcc(l.Addr().String(), dir, "pwd >> runs")
	}
	stop := time.After(time.Duration(c.N(8, 60)) * time.Second)
	var end int32
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; atomic.LoadInt32(&end) == 0; i++ {
				if k == 0 {
					w := httptest.NewRecorder()
					h.Outside(func() { hb.KillSer(w, httptest.NewRequest("GET", "/?name=verif-no-such-process", nil)) })
					time.Sleep(500 * time.Millisecond)
				} else {
					// two supervisors fail at once: four each before a restart
					if n := healthOf(c); n < 0 || n > 8 {
						c.Violate("health", nil, "Health reports %d failures", n)
					}
					time.Sleep(time.Millisecond)
				}
				h.Progress()
				c.Count("calls", 1)
			}
		}()
	}
	<-stop
	atomic.StoreInt32(&end, 1)
	wg.Wait()
	c.Case("", nil)
}

func c27Kill(c *h.C) {
	stand := standIn(c)
	r := c.Rand("kill")
	for i := 0; i < c.N(120, 1200) && !c.Violated(); i++ {
		killOnce(c, r, stand, i)
		if n := healthOf(c); n != 0 {
			c.Violate("health", nil, "after a kill Health reports %d failures", n)
		}
	}
}

var c27 = &h.Prop{ID: "C27", Level: "exploration",
	Rule:        "supervisors (one process each) over a stub service that answers the beats well, with errors or with wrong values in random runs; inside each beat the stub compares the number of restarts so far, their directory and the count that Health reports with the model; a service that dies is revived by the restart command; kill requests with plain and hostile names against a killall that only records its arguments; the handlers called concurrently under the race detector. A case is one beat or request; non-trivial when failures are involved.",
	Assumptions: []string{"killall is found on the PATH: a stand-in records its arguments"},
	Parts: []h.Part{
		{Name: "beats1", Race: true, Run: beats(20, false, false)},
		{Name: "beats2", Race: true, Run: beats(20, false, true)},
		{Name: "beats3", Race: true, Run: beats(20, true, false)},
		{Name: "beats4", Race: true, Run: beats(20, true, true)},
		{Name: "revive", Race: true, Run: revive},
		{Name: "storm", Race: true, Run: storm},
		{Name: "kill", Race: true, Run: c27Kill},
	}}
