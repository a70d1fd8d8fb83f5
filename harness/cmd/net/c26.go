package main

import (
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-vgo/zlog/zlog"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/go-ego/riot/net/com"
	rgrpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

type rpcBackend struct {
	i    int
	reqs *sync.Map
	c    *h.C
}

func (b *rpcBackend) HeartBeat(context.Context, *pb.HeartReq) (*pb.Reply, error) {
	return nil, status.Error(codes.Internal, "not asked for")
}
func (b *rpcBackend) DocInx(context.Context, *pb.DocReq) (*pb.Reply, error) {
	return nil, status.Error(codes.Internal, "not asked for")
}
func (b *rpcBackend) Delete(context.Context, *pb.DeleteReq) (*pb.Reply, error) {
	return nil, status.Error(codes.Internal, "not asked for")
}

func (b *rpcBackend) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply, error) {
	h.Progress()
	v, ok := b.reqs.Load(in.Query)
	if !ok {
		b.c.Violate("backend-request", fmt.Sprint(in), "a backend gets a request nobody made: %v", in)
		return nil, status.Error(codes.Internal, "unknown")
	}
	d := v.(*dreq)
	d.params[b.i] = in
	atomic.AddInt32(&d.calls[b.i], 1)
	be := d.back[b.i]
	time.Sleep(be.delay)
	if be.kind != "ok" {
		return nil, status.Error(codes.Unavailable, "out of order")
	}
	docs := cut(be.docs, int(in.MaxOutputs))
	rep := &pb.SearchReply{Len: int32(len(docs)), Timestamp: time.Now().Unix()}
	for _, x := range docs {
		t := &pb.Text{Id: x.ID, Content: x.Content}
		if !x.Bare {
			t.Attri = &pb.Attri{Ts: x.Ts, Title: x.Title, Author: x.Author, Time: x.Time}
		}
		rep.Docs = append(rep.Docs, t)
	}
	return rep, nil
}

func c26Part(nb int, dead bool) func(c *h.C) {
	return func(c *h.C) {
		dict, _ := eng.WriteDict(c.Dir)
		zc := filepath.Join(c.Dir, "zlog.toml")
		h.Must(os.WriteFile(zc, []byte("mode = \"dev\"\n"), 0o644))
		h.Outside(func() { zlog.Init(zc) })
		var reqs sync.Map
		var conf com.Config
		conf.Engine = com.Engine{GseDict: dict, StoreFolder: filepath.Join(c.Dir, "store"), StoreShards: 1,
			NumShards: 2, MaxOutputs: 4, OutputOffset: 1}
		for i := 0; i < nb; i++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			h.Must(err)
			conf.Rpc.DistPort = append(conf.Rpc.DistPort, l.Addr().String())
			if dead && i == nb/2 {
				l.Close()
				continue
			}
			g := grpc.NewServer()
			pb.RegisterGreeterServer(g, &rpcBackend{i: i, reqs: &reqs, c: c})
			go g.Serve(l)
		}
		rgrpc.InitEngine(conf)
		srv := rgrpc.DistServer()
		for i := 0; i < c.N(60, 1500) && !c.Violated(); i++ {
			r := c.Rand("d", i)
			var ds []*dreq
			var ins []*pb.SearchReq
			for k := 0; k < 12; k++ {
				d := randDist(r, fmt.Sprintf("q%d-%d %d", i, k, r.Intn(1000)), nb, false)
				for _, b := range d.back {
					for n := range b.docs {
						b.docs[n].Score = ""
					}
				}
				if dead {
					d.back[nb/2].kind = "refused"
				}
				in := &pb.SearchReq{Id: d.user, Query: d.key, Time: d.time, OutputOffset: num32(d.off), MaxOutputs: num32(d.max)}
				if r.Intn(3) == 0 {
					in.DocIds = map[string]bool{"1": true, "世": false}
				}
				if r.Intn(2) == 0 {
					in.Logic = &pb.Logic{Must: r.Intn(2) == 0, Should: r.Intn(2) == 0, NotIn: r.Intn(2) == 0}
					if r.Intn(2) == 0 {
						in.Logic.Expr = &pb.Expr{Must: []string{"a", d.key}, Should: []string{"b"}, NotIn: []string{d.key, "c"}}
					}
				}
				ds, ins = append(ds, d), append(ins, in)
			}
			c.Phase("distributed search %d over %d backends", i, nb)
			conc := []int{1, 4, 12}[r.Intn(3)]
			h.Workers(len(ds), conc, func(k int) {
				d, in := ds[k], ins[k]
				reqs.Store(d.key, d)
				var rep *pb.SearchReply
				var err error
				h.Outside(func() { rep, err = srv.Search(context.Background(), in) })
				reqs.Delete(d.key)
				h.Progress()
				bad := ""
				max, off := int(in.MaxOutputs), in.OutputOffset
				if max <= 0 {
					max, off = conf.Engine.MaxOutputs, int32(conf.Engine.OutputOffset)
				}
				if err != nil || rep == nil {
					bad = fmt.Sprintf("no reply: %v", err)
				} else {
					var got []bdoc
					for _, x := range rep.Docs {
						a := x.GetAttri()
						got = append(got, bdoc{x.Id, x.Content, a.GetTs(), a.GetTitle(), a.GetAuthor(), a.GetTime(), "", a == nil})
					}
					bad = d.compare(got, int(rep.Len), max)
				}
				for b := range d.back {
					if bad != "" || d.back[b].kind == "refused" {
						continue
					}
					if n := atomic.LoadInt32(&d.calls[b]); n != 1 {
						bad = fmt.Sprintf("backend %d was asked %d times", b, n)
						continue
					}
					p := d.params[b].(*pb.SearchReq)
					if p.Id != in.Id || p.Query != in.Query || p.Time != in.Time || p.OutputOffset != off || int(p.MaxOutputs) != max ||
						!sameSet(p.DocIds, in.DocIds) || !sameLogic(p.Logic, in.Logic) {
						bad = fmt.Sprintf("backend %d was sent %+v for %+v", b, p, in)
					}
				}
				if bad != "" {
					c.Violate("distributed", d.witness(fmt.Sprint(in, rep)), "query %q (%v) over %d backends: %s", d.key, in, nb, bad)
					return
				}
				ok := 0
				for _, b := range d.back {
					c.Count("backend_"+b.kind, 1)
					if b.kind == "ok" {
						ok++
					}
				}
				if conc > 1 {
					c.Count("concurrent_requests", 1)
				}
				n := len(cut(d.merged(max), max))
				sig := ""
				if ok > 1 && n > 1 {
					sig = fmt.Sprint(d.key, d.max)
				}
				c.Count("documents", n)
				c.Case(sig, func() interface{} { return d.witness(nil) })
			})
		}
		// documents given to the distributed server go to its own engine
		live := map[string]string{}
		r := c.Rand("docs")
		for i := 0; i < 40 && !c.Violated(); i++ {
			var wg sync.WaitGroup
			for _, id := range []string{"a", "b", "c", "d"} {
				id := id
				switch r.Intn(3) {
				case 0:
					live[id] = fmt.Sprintf("hello v%d", i)
					req := &pb.DocReq{DocId: id, Content: live[id]}
					wg.Add(1)
					go func() {
						defer wg.Done()
						if rep, err := srv.DocInx(context.Background(), req); err != nil || rep.Result != 0 {
							c.Violate("docinx", nil, "DocInx answers %v %v", rep, err)
						}
					}()
				case 1:
					delete(live, id)
					wg.Add(1)
					go func() {
						defer wg.Done()
						if rep, err := srv.Delete(context.Background(), &pb.DeleteReq{DocId: id}); err != nil || rep.Result != 0 {
							c.Violate("delete", nil, "Delete answers %v %v", rep, err)
						}
					}()
				}
			}
			wg.Wait()
			com.Flush()
			h.Progress()
			got := map[string]string{}
			for _, x := range com.Search(com.SearchArgs{Query: "hello", MaxOutputs: 100}).Docs.(types.ScoredDocs) {
				got[x.DocId] = x.Content
			}
			if !reflect.DeepEqual(got, live) {
				c.Violate("documents", nil, "the engine holds %v after %v was given to the distributed server", got, live)
			}
			m := int32(r.Uint32())
			if rep, err := srv.HeartBeat(context.Background(), &pb.HeartReq{Msg: m}); err != nil || rep.Result != m {
				c.Violate("heartbeat", nil, "HeartBeat %d answers %v %v", m, rep, err)
			}
			c.Case("", nil)
		}
	}
}

func sameSet(a, b map[string]bool) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func sameLogic(a, b *pb.Logic) bool {
	l := func(x *pb.Logic) string {
		e := x.GetExpr()
		s := fmt.Sprint(x.GetMust(), x.GetShould(), x.GetNotIn())
		for _, w := range [][]string{e.GetMust(), e.GetShould(), e.GetNotIn()} {
			w = append([]string{}, w...)
			sort.Strings(w)
			s += fmt.Sprintf("%q", w)
		}
		return s
	}
	return l(a) == l(b)
}

var c26 = &h.Prop{ID: "C26", Level: "exploration",
	Rule:        "the distributed gRPC server in front of up to 35 stub backends that answer with random documents after random delays or fail (refused or with an error), sequentially and with up to twelve concurrent requests, under the race detector; every reply must be the sorted merge of the answers of the backends that are well, cut to the limit, and every backend must be asked once with the request's own parameters, filter and logic; documents given to the distributed server reach its own engine. A case is one request; non-trivial with at least two answering backends and two documents, distinct by request.",
	Assumptions: []string{"backends answer sorted documents cut to the limit they are sent, as the search service does", "no backend hangs: the client sets no deadline"},
	Parts: []h.Part{
		{Name: "none", Race: true, Run: c26Part(0, false)},
		{Name: "one", Race: true, Run: c26Part(1, false)},
		{Name: "two", Race: true, Run: c26Part(2, false)},
		{Name: "three", Race: true, Run: c26Part(3, false)},
		{Name: "five", Race: true, Run: c26Part(5, false)},
		{Name: "many", Race: true, Run: c26Part(35, false)},
		{Name: "dead", Race: true, Run: c26Part(3, true)},
		{Name: "deadone", Race: true, Run: c26Part(2, true)},
	}}
