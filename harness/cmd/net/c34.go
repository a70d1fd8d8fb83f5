package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/go-vgo/zlog/zlog"
	"google.golang.org/grpc"

	"github.com/go-ego/riot/net/com"
	rgrpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	hb "github.com/go-ego/riot/net/heartb"
	rhttp "github.com/go-ego/riot/net/http"

	"verif/harness/eng"
	"verif/harness/h"
)

func deadAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	h.Must(err)
	defer l.Close()
	return l.Addr().String()
}

func c34Http(c *h.C) {
	var reqs sync.Map
	nb := 4
	var conf com.Config
	conf.Engine.MaxOutputs = 5
	for i := 0; i < nb; i++ {
		b := &httpBackend{i: i, reqs: &reqs, c: c}
		b.srv = httptest.NewServer(b)
		conf.Url = append(conf.Url, b.srv.URL)
	}
	com.Conf = conf
	n := c.N(120, 1200)
	kinds := []string{"ok", "empty", "abort", "short", "status", "statusjson", "garbage", "cutjson"}
	for _, kind := range append(kinds, "mixed", "refused") {
		if c.Violated() {
			return
		}
		r := c.Rand(kind)
		conf := conf
		if kind == "refused" {
			conf.Url = append([]string{}, conf.Url...)
			conf.Url[r.Intn(nb)] = "http://" + deadAddr()
		}
		com.Conf = conf
		c.Repeat("a distributed HTTP request ("+kind+")", n, func(i int) {
			d := randDist(r, fmt.Sprint(kind, i), nb, false)
			for b := range d.back {
				d.back[b].delay = 0
				switch kind {
				case "refused":
					d.back[b].kind = "ok"
				case "mixed":
					d.back[b].kind = kinds[r.Intn(len(kinds))]
				default:
					d.back[b].kind = kind
				}
			}
			reqs.Store(d.key, d)
			v := url.Values{"query": {d.key}, "userid": {d.user}, "time": {d.time}, "outputOffset": {d.off}, "maxOutputs": {d.max}}
			h.Outside(func() {
				rhttp.WgDist(httptest.NewRecorder(), httptest.NewRequest("GET", "/?"+v.Encode(), nil))
			})
			reqs.Delete(d.key)
		})
	}
	c.Repeat("Post to a server that hangs", c.N(12, 40), func(i int) {
		key := fmt.Sprint("hang", i)
		d := &dreq{key: key, calls: make([]int32, nb), params: make([]interface{}, nb), back: make([]behave, nb)}
		for b := range d.back {
			d.back[b].kind = "hang"
		}
		reqs.Store(key, d)
		h.Outside(func() { rhttp.Post(conf.Url[0]+"/search", url.Values{"query": {key}}) })
		if i < 10 { // only a few before
			return
		}
	})
	// the handlers of the search service
	com.InitEngine(c34Conf(c))
	c.Repeat("requests to the search service", n, func(i int) {
		c34Serve(c.Rand("serve", i), i)
	})
}

func c34Conf(c *h.C) com.Config {
	dict, _ := eng.WriteDict(c.Dir)
	var conf com.Config
	conf.Engine = com.Engine{GseDict: dict, StoreFolder: filepath.Join(c.Dir, "store"), StoreShards: 2, StoreEngine: "ldb",
		NumShards: 2, MaxOutputs: 4}
	return conf
}

// c34Serve asks the HTTP handlers of the search service.
func c34Serve(r *rand.Rand, i int) {
	get := func(f http.HandlerFunc, v url.Values, body io.Reader) {
		q := httptest.NewRequest("POST", "/?"+v.Encode(), body)
		q.Header.Set("Content-Type", "application/json")
		f(httptest.NewRecorder(), q)
	}
	id := fmt.Sprint(i % 7)
	doc, _ := json.Marshal(map[string]interface{}{"docId": id, "content": fmt.Sprintf("hello v%d", i)})
	get(rhttp.AddIndex, url.Values{"docid": {id}, "content": {fmt.Sprintf("hello v%d", i)}}, strings.NewReader(string(doc)))
	if r.Intn(3) == 0 {
		get(rhttp.DelIndex, url.Values{"docid": {id}}, nil)
	}
	com.Flush()
	get(rhttp.Search, url.Values{"query": {"hello"}, "maxOutputs": {"3"}}, nil)
}

func c34Grpc(c *h.C) {
	zc := filepath.Join(c.Dir, "zlog.toml")
	h.Must(os.WriteFile(zc, []byte("mode = \"dev\"\n"), 0o644))
	h.Outside(func() { zlog.Init(zc) })
	var reqs sync.Map
	nb := 3
	conf := c34Conf(c)
	var addrs []string
	for i := 0; i < nb; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		h.Must(err)
		addrs = append(addrs, l.Addr().String())
		g := grpc.NewServer()
		pb.RegisterGreeterServer(g, &rpcBackend{i: i, reqs: &reqs, c: c})
		go g.Serve(l)
	}
	conf.Rpc.DistPort = addrs
	rgrpc.InitEngine(conf)
	srv := rgrpc.DistServer()
	own := deadAddr()
	go rgrpc.InitGrpc(own)
	for i := 0; ; i++ { // until it listens
		k, err := net.Dial("tcp", own)
		if err == nil {
			k.Close()
			break
		}
		if i > 1000 {
			h.Must(err)
		}
		h.Progress()
		time.Sleep(10 * time.Millisecond)
	}
	n := c.N(120, 1200)
	for _, kind := range []string{"ok", "error", "mixed"} {
		r := c.Rand(kind)
		draw := func(i int) (*dreq, func()) {
			d := randDist(r, fmt.Sprint(kind, i), nb, false)
			for b := range d.back {
				d.back[b].delay = 0
				d.back[b].kind = kind
				if kind == "mixed" {
					d.back[b].kind = []string{"ok", "error"}[r.Intn(2)]
				}
			}
			reqs.Store(d.key, d)
			return d, func() { reqs.Delete(d.key) }
		}
		if c.Violated() {
			return
		}
		c.Repeat("a distributed gRPC search ("+kind+")", n, func(i int) {
			d, end := draw(i)
			defer end()
			in := &pb.SearchReq{Id: d.user, Query: d.key, Time: d.time, OutputOffset: num32(d.off), MaxOutputs: num32(d.max)}
			h.Outside(func() { srv.Search(context.Background(), in) })
		})
		if c.Violated() {
			return
		}
		c.Repeat("a gRPC search of one backend ("+kind+")", n, func(i int) {
			d, end := draw(i)
			defer end()
			h.Outside(func() {
				if i%2 == 0 {
					rgrpc.InitSearchRpc(addrs[i%nb], com.SearchArgs{Query: d.key, MaxOutputs: 3})
				} else {
					rgrpc.WgRpc(addrs[i%nb], com.SearchArgs{Query: d.key, MaxOutputs: 3})
				}
			})
		})
	}
	if c.Violated() {
		return
	}
	dead := deadAddr()
	c.Repeat("a gRPC search of a backend that is down", n, func(i int) {
		h.Outside(func() { rgrpc.InitSearchRpc(dead, com.SearchArgs{Query: "x", MaxOutputs: 3}) })
	})
	if c.Violated() {
		return
	}
	c.Repeat("adding a document over gRPC", n, func(i int) {
		h.Outside(func() {
			if k := rgrpc.InitGrpcc(own, rgrpc.Doc{DocId: uint64(i%9 + 1), Content: "hello"}); k != 0 {
				c.Violate("reply", nil, "adding a document answers %d", k)
			}
		})
	})
	if c.Violated() {
		return
	}
	c.Repeat("deleting a document over gRPC", n, func(i int) {
		h.Outside(func() {
			if k := rgrpc.InitDelGrpcc(own, fmt.Sprint(i%9+1)); k != 0 {
				c.Violate("reply", nil, "deleting a document answers %d", k)
			}
		})
	})
	if c.Violated() {
		return
	}
	c.Repeat("searching the own engine over gRPC", n, func(i int) {
		h.Outside(func() { rgrpc.InitSearchRpc(own, com.SearchArgs{Query: "hello", MaxOutputs: 3}) })
	})
}

func c34Heart(c *h.C) {
	stand := standIn(c)
	r := c.Rand("kill")
	c.Repeat("a kill request", c.N(60, 400), func(i int) {
		killOnce(c, r, stand, i)
	})
	if c.Violated() {
		return
	}
	// a supervised service that is never well is restarted again and again
	dir := filepath.Join(c.Dir, "app")
	h.Must(os.MkdirAll(dir, 0o755))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	h.Must(err)
	g := grpc.NewServer()
	pb.RegisterGreeterServer(g, &rpcBackend{c: c})
	go g.Serve(l)
	go hb.Grpcc(l.Addr().String(), dir, "pwd >> runs")
	var first h.Held
	rounds := c.N(5, 20)
	for t := 0; len(runsOf(dir)) <= rounds; t++ {
		h.Progress()
		time.Sleep(100 * time.Millisecond)
		if len(runsOf(dir)) == 1 && first.Goroutines == 0 {
			first = h.Holds()
		}
		if t > 600*rounds {
			c.Violate("restarts", nil, "a service that is never well is restarted %d times only", len(runsOf(dir)))
			return
		}
	}
	if first.Goroutines == 0 {
		first = h.Holds()
	}
	// each restart takes four beats
	may := h.Held{first.Goroutines + rounds - 1, first.Files + rounds - 1, rounds - 2, 0}
	last, ok := h.Settle(may)
	if !ok {
		c.Violate("leak", map[string]interface{}{"before": first, "after": last},
			"after %d restarts the supervisor holds %+v, and %+v after the first", rounds, last, first)
	}
	c.Count("restarts", rounds)
	c.Case("restart", func() interface{} { return map[string]interface{}{"restarts": rounds, "before": first, "after": last} })
}

var c34 = &h.Prop{ID: "C34", Level: "exploration",
	Rule:        "every network operation (distributed HTTP and gRPC searches over backends that answer or fail in nine ways, the gRPC clients, the handlers, the kill requests and the supervisor's restarts) is repeated; the goroutines, open files and child processes (ended ones included) of the process are counted before and after, and a growth of more than a quarter per operation that stays for a minute is a leak. A case is one operation kind repeated; distinct by kind.",
	Assumptions: []string{"idle connections of the default HTTP client may stay for reuse"},
	Parts: []h.Part{
		{Name: "http", Run: c34Http},
		{Name: "grpc", Run: c34Grpc},
		{Name: "heart", Run: c34Heart},
	}}
