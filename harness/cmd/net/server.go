package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc"

	"github.com/go-ego/riot/net/com"
	rgrpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"

	"verif/harness/h"
)

// tailWriter keeps the end of what is written; the library exits through
// log.Fatal, whose message matters.
type tailWriter struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 40000 {
		t.b = append([]byte{}, t.b[len(t.b)-20000:]...)
	}
	return len(p), nil
}

func (t *tailWriter) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// fatalLog keeps the library's chatter from the pipe but lets the last words
// of log.Fatal through: they are written when the next write does not come.
type fatalLog struct{}

func (fatalLog) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "failed to") || strings.Contains(string(p), "rror") || strings.Contains(string(p), "could not") {
		if len(p) > 1000 {
			p = p[:1000]
		}
		os.Stderr.Write(p)
	}
	return len(p), nil
}

type srvConf struct {
	Conf com.Config
	Grpc bool
}

// serverMain is the process that hosts the services as the documentation
// does; the monitor is its client.
func serverMain(s string) {
	log.SetOutput(fatalLog{})
	var sc srvConf
	h.Must(json.Unmarshal([]byte(s), &sc))
	rgrpc.InitEngine(sc.Conf)
	mux := http.NewServeMux()
	mux.HandleFunc("/search", rhttp.Search)
	mux.HandleFunc("/add", rhttp.AddIndex)
	mux.HandleFunc("/del", rhttp.DelIndex)
	mux.HandleFunc("/ctl/flush", func(w http.ResponseWriter, r *http.Request) { com.Flush() })
	mux.HandleFunc("/ctl/close", func(w http.ResponseWriter, r *http.Request) {
		com.Searcher.Flush()
		com.Searcher.Close()
		io.WriteString(w, "closed")
	})
	mux.HandleFunc("/ctl/count", func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprint(w, com.Searcher.NumDocsIndexed())
	})
	l, err := net.Listen("tcp", "127.0.0.1:0")
	h.Must(err)
	gaddr := "-"
	if sc.Grpc {
		g, err := net.Listen("tcp", "127.0.0.1:0")
		h.Must(err)
		gaddr = g.Addr().String()
		g.Close()
		go rgrpc.InitGrpc(gaddr)
	}
	go func() { // end with the monitor
		io.Copy(io.Discard, os.Stdin)
		os.Exit(0)
	}()
	fmt.Println("READY", l.Addr().String(), gaddr)
	h.Must(http.Serve(l, mux))
}

// server is a running server process.
type server struct {
	c     *h.C
	cmd   *exec.Cmd
	in    io.WriteCloser
	url   string
	hc    *http.Client
	conn  *grpc.ClientConn
	rpc   pb.GreeterClient
	gaddr string
	err   *tailWriter
	done  chan error
	wit   func() interface{}
}

var forks sync.RWMutex

func startServer(c *h.C, sc srvConf, wit func() interface{}) *server {
	b, _ := json.Marshal(sc)
	for try := 0; ; try++ {
		self, _ := os.Executable()
		s := &server{c: c, err: &tailWriter{}, done: make(chan error, 1), wit: wit,
			hc: &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 32}}}
		s.cmd = exec.Command(self)
		s.cmd.Dir = c.Dir
		s.cmd.Env = append(os.Environ(), "VERIF_NET_SERVER="+string(b), "GOTRACEBACK=all")
		s.cmd.Stderr = s.err
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var err error
		s.in, err = s.cmd.StdinPipe()
		h.Must(err)
		out, err := s.cmd.StdoutPipe()
		h.Must(err)
		forks.Lock()
		err = s.cmd.Start()
		forks.Unlock()
		h.Must(err)
		ready := make(chan string, 1)
		go func() {
			sc := bufio.NewScanner(out)
			for sc.Scan() {
				if f := strings.Fields(sc.Text()); len(f) == 3 && f[0] == "READY" {
					ready <- f[1] + " " + f[2]
				}
			}
			close(ready)
			s.done <- s.cmd.Wait()
		}()
		var addr string
		var up bool
		s.await("start", func() { h.Outside(func() { addr, up = <-ready }) })
		if !up {
			<-s.done
			c.Violate("server-start", wit(), "the server ends while it starts: %s", lastWords(s.err.String()))
			return nil
		}
		f := strings.Fields(addr)
		s.url = "http://" + f[0]
		if sc.Grpc {
			if !s.dial(f[1]) {
				if try < 5 && strings.Contains(s.err.String(), "failed to listen") {
					s.kill()
					continue // somebody took the port
				}
				c.Violate("server-start", wit(), "the gRPC server does not accept connections: %s", lastWords(s.err.String()))
				return nil
			}
		}
		return s
	}
}

func (s *server) dial(addr string) bool {
	for i := 0; i < 2000; i++ {
		h.Progress()
		k, err := net.Dial("tcp", addr)
		if err == nil {
			k.Close()
			s.gaddr = addr
			s.conn, err = grpc.Dial(addr, grpc.WithInsecure(), grpc.WithBlock())
			h.Must(err)
			s.rpc = pb.NewGreeterClient(s.conn)
			return true
		}
		select {
		case e := <-s.done:
			s.done <- e
			return false
		default:
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func lastWords(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	ls := strings.Split(strings.TrimSpace(s), "\n")
	l := ls[len(ls)-1]
	if len(l) > 300 {
		l = l[:300]
	}
	return l
}

// await runs a call on the server. A server that uses no processor time for
// long while a call is open cannot answer it any more.
func (s *server) await(what string, f func()) {
	ok := make(chan bool)
	go func() {
		f()
		close(ok)
	}()
	idle, last, total := 0, int64(-1), 0
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-ok:
			h.Progress()
			return
		case <-tick.C:
		}
		h.Progress()
		total++
		cpu := s.cpu()
		if cpu == last {
			idle++
		} else {
			idle, last = 0, cpu
		}
		if idle >= 25 || total >= 200 {
			s.cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(time.Second)
			s.c.Violate("blocked", map[string]interface{}{"call": what, "state": s.wit(), "stacks": s.err.String()},
				"%s never returns (the server was idle for %d s of %d s)", what, idle, total)
			s.cmd.Process.Kill()
			<-ok
			return
		}
	}
}

// cpu is the processor time of the server and the number of its context
// switches.
func (s *server) cpu() int64 {
	b, err := os.ReadFile(filepath.Join("/proc", fmt.Sprint(s.cmd.Process.Pid), "stat"))
	if err != nil {
		return 0
	}
	i := strings.LastIndex(string(b), ")")
	f := strings.Fields(string(b)[i+1:])
	var u, k int64
	fmt.Sscan(f[11], &u)
	fmt.Sscan(f[12], &k)
	return (u + k) / 3 // a tick or two of the runtime's own timers is no progress
}

// get calls an HTTP handler.
func (s *server) get(what string, f func() (*http.Response, error)) (body []byte, resp *http.Response) {
	var err error
	s.await(what, func() {
		h.Outside(func() {
			resp, err = f()
			if err == nil {
				body, err = io.ReadAll(resp.Body)
				resp.Body.Close()
			}
		})
	})
	if err != nil {
		s.failed(what, err)
		return nil, nil
	}
	return
}

func (s *server) failed(what string, err error) {
	select {
	case <-s.done:
		s.done <- nil
	case <-time.After(2 * time.Second):
	}
	s.c.Violate("server-crash", map[string]interface{}{"call": what, "state": s.wit(), "stderr": s.err.String()},
		"%s gets no answer (%v): %s", what, err, lastWords(s.err.String()))
}

func (s *server) call(what string, f func(ctx context.Context) error) bool {
	var err error
	s.await(what, func() { h.Outside(func() { err = f(context.Background()) }) })
	if err != nil {
		s.failed(what, err)
		return false
	}
	return true
}

func (s *server) flush() {
	s.get("Flush", func() (*http.Response, error) { return s.hc.Get(s.url + "/ctl/flush") })
}

// stop closes the engine and ends the process.
func (s *server) stop() {
	s.get("Close", func() (*http.Response, error) { return s.hc.Get(s.url + "/ctl/close") })
	s.kill()
}

func (s *server) kill() {
	if s.conn != nil {
		s.conn.Close()
	}
	s.hc.CloseIdleConnections()
	s.cmd.Process.Kill()
	<-s.done
	s.in.Close()
}
