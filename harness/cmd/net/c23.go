package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/gse"
	"github.com/gogo/protobuf/proto"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/net/com"
	rgrpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

// hit is one document of a response.
type hit struct {
	ID, Content, Time string
	Ts                int64
}

// nq is one search over the network.
type nq struct {
	Text     string
	Off, Max string // as sent; "" leaves them out
	DocIds   map[string]bool
	Logic    *types.Logic
}

// front is one of the two services.
type front interface {
	add(id string, d *nver, force bool)
	del(id string)
	search(q nq) (hits []hit, n int, ok bool)
}

// nver is one version of a document.
type nver struct {
	N       int
	Content string
	Tokens  []types.TokenData
	Time    string
	Ts      int64
	keys    map[string][]int

	badAttri bool
	from     int64 // the time span of the AddIndex call
	to       int64
}

type httpFront struct{ s *server }

func (f httpFront) add(id string, d *nver, force bool) {
	v := url.Values{"docid": {id}, "query": {d.Content}}
	if d.Content == "" {
		v.Del("query")
	}
	d.from = time.Now().UnixNano()
	body, resp := f.s.get("AddIndex", func() (*http.Response, error) {
		if d.N%2 == 0 || len(d.Content) > 5000 {
			return f.s.hc.PostForm(f.s.url+"/add", v)
		}
		return f.s.hc.Get(f.s.url + "/add?" + v.Encode())
	})
	d.to = time.Now().UnixNano()
	if resp == nil {
		return
	}
	var j rhttp.JsonResponse
	if resp.StatusCode != 200 || json.Unmarshal(body, &j) != nil || j.Code != 0 || j.Len != 0 || len(j.Docs) != 0 {
		f.s.c.Violate("add-response", f.s.wit(), "AddIndex of %q answers %d %q", id, resp.StatusCode, body)
	}
}

func (f httpFront) del(id string) {
	f.s.get("DelIndex", func() (*http.Response, error) {
		return f.s.hc.Get(f.s.url + "/del?" + url.Values{"docid": {id}}.Encode())
	})
}

func (f httpFront) search(q nq) ([]hit, int, bool) {
	v := url.Values{"query": {q.Text}, "userid": {"u"}, "time": {"t"}}
	if q.Off != "" {
		v.Set("outputOffset", q.Off)
	}
	if q.Max != "" {
		v.Set("maxOutputs", q.Max)
	}
	body, resp := f.s.get("Search", func() (*http.Response, error) {
		if len(q.Text)%2 == 0 {
			return f.s.hc.PostForm(f.s.url+"/search", v)
		}
		return f.s.hc.Get(f.s.url + "/search?" + v.Encode())
	})
	if resp == nil {
		return nil, 0, false
	}
	var j rhttp.JsonResponse
	var raw struct {
		Code, Len, Timestamp *int64
		Docs                 []map[string]interface{}
	}
	if resp.StatusCode != 200 || json.Unmarshal(body, &j) != nil || json.Unmarshal(body, &raw) != nil ||
		raw.Code == nil || raw.Len == nil || raw.Timestamp == nil || j.Code != 0 ||
		!strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json") {
		f.s.c.Violate("search-response", f.s.wit(), "Search answers %d %v %q", resp.StatusCode, resp.Header, body)
		return nil, 0, false
	}
	var out []hit
	for i, d := range j.Docs {
		for _, k := range []string{"id", "content", "score", "attri"} {
			if _, ok := raw.Docs[i][k]; !ok {
				f.s.c.Violate("search-response", f.s.wit(), "a document of the response lacks %q: %q", k, body)
			}
		}
		out = append(out, hit{d.Id, d.Content, d.Attri.Time, d.Attri.Ts})
	}
	return out, j.Len, true
}

// grpcFront talks to the gRPC service, in part through the client helpers of
// the library.
type grpcFront struct{ s *server }

func (f grpcFront) helper(id string, n int) bool {
	x, err := strconv.ParseUint(id, 10, 64)
	return n%3 == 0 && err == nil && strconv.FormatUint(x, 10) == id
}

func (f grpcFront) add(id string, d *nver, force bool) {
	at, err := proto.Marshal(&pb.Attri{Time: d.Time, Ts: d.Ts, Title: "t", Author: "a"})
	h.Must(err)
	if d.badAttri {
		at = []byte{0xff}
	} else if d.Time == "" {
		at = nil
	}
	req := &pb.DocReq{DocId: id, Content: d.Content, Attri: at, ForceUpdate: force}
	for _, t := range d.Tokens {
		x := &pb.TokenData{Text: t.Text}
		for _, l := range t.Locations {
			x.Locations = append(x.Locations, int32(l))
		}
		req.Tokens = append(req.Tokens, x)
	}
	if f.helper(id, d.N) {
		x, _ := strconv.ParseUint(id, 10, 64)
		f.s.c.Count("client_helper_calls", 1)
		f.s.call("InitGrpcc", func(ctx context.Context) error {
			if n := rgrpc.InitGrpcc(f.s.gaddr, rgrpc.Doc{DocId: x, Content: req.Content, Attri: at, Tokens: req.Tokens, ForceUpdate: force}); n != 0 {
				return fmt.Errorf("result %d", n)
			}
			return nil
		})
		return
	}
	f.s.call("DocInx", func(ctx context.Context) error {
		rep, err := f.s.rpc.DocInx(ctx, req)
		if err == nil && rep.Result != 0 {
			err = fmt.Errorf("result %d", rep.Result)
		}
		return err
	})
}

func (f grpcFront) del(id string) {
	if len(id)%3 == 0 {
		f.s.call("InitDelGrpcc", func(ctx context.Context) error {
			if n := rgrpc.InitDelGrpcc(f.s.gaddr, id); n != 0 {
				return fmt.Errorf("result %d", n)
			}
			return nil
		})
		return
	}
	f.s.call("Delete", func(ctx context.Context) error {
		rep, err := f.s.rpc.Delete(ctx, &pb.DeleteReq{DocId: id})
		if err == nil && rep.Result != 0 {
			err = fmt.Errorf("result %d", rep.Result)
		}
		return err
	})
}

func num32(s string) int32 {
	var n int32
	fmt.Sscan(s, &n)
	return n
}

func (f grpcFront) search(q nq) (out []hit, n int, ok bool) {
	req := &pb.SearchReq{Id: "u", Query: q.Text, OutputOffset: num32(q.Off), MaxOutputs: num32(q.Max),
		Time: "t", DocIds: q.DocIds}
	if l := q.Logic; l != nil {
		req.Logic = &pb.Logic{Must: l.Must, Should: l.Should, NotIn: l.NotIn}
		if len(l.Expr.Must)+len(l.Expr.Should)+len(l.Expr.NotIn) > 0 {
			req.Logic.Expr = &pb.Expr{Must: l.Expr.Must, Should: l.Expr.Should, NotIn: l.Expr.NotIn}
		}
	}
	var rep *pb.SearchReply
	if len(q.Text)%4 == 0 {
		a := com.SearchArgs{Id: "u", Query: q.Text, Time: "t", OutputOffset: int(req.OutputOffset), MaxOutputs: int(req.MaxOutputs), DocIds: q.DocIds}
		if q.Logic != nil {
			a.Logic = *q.Logic
		}
		ok = f.s.call("InitSearchRpc", func(ctx context.Context) (err error) {
			rep, err = rgrpc.InitSearchRpc(f.s.gaddr, a)
			if rep == nil && err == nil {
				err = fmt.Errorf("no reply")
			}
			return
		})
	} else {
		ok = f.s.call("Search", func(ctx context.Context) (err error) {
			rep, err = f.s.rpc.Search(ctx, req)
			return
		})
	}
	if !ok {
		return
	}
	for _, d := range rep.Docs {
		out = append(out, hit{d.Id, d.Content, d.GetAttri().GetTime(), d.GetAttri().GetTs()})
	}
	return out, int(rep.Len), true
}

// service is a history over one service and its model.
type service struct {
	c     *h.C
	r     *rand.Rand
	grpc  bool
	conf  com.Config
	tok   *eng.TokModel
	live  map[string]*nver
	last  map[string]*nver // the version issued last, deleted or not
	ids   []string
	desc  string
	srv   *server
	f     front
	mu    sync.Mutex
	log   []string
	n     int64
	base  time.Time
	clock bool // the wall clock has been steady
	many  bool // a history of very many documents
}

func (v *service) note(format string, args ...interface{}) {
	v.mu.Lock()
	v.log = append(v.log, fmt.Sprintf(format, args...))
	v.mu.Unlock()
}

func (v *service) witness() interface{} {
	v.mu.Lock()
	defer v.mu.Unlock()
	l := v.log
	if len(l) > 200 {
		l = l[len(l)-200:]
	}
	return map[string]interface{}{"options": v.desc, "history": append([]string{}, l...)}
}

// steady tells whether the wall clock has run with the monotonic one.
func (v *service) steady() bool {
	now := time.Now()
	mono := now.Sub(v.base)
	wall := now.Round(0).Sub(v.base.Round(0))
	if d := wall - mono; d > time.Millisecond || d < -time.Millisecond {
		v.clock = false
	}
	return v.clock
}

var netWords = []string{"世界", "七十亿", "人口", "中国", "hello", "world", "new", "york", "东京都", "京都", "it's", "<b>&\"q\"</b>", "x9", "\\", "the"}

func netContent(r *rand.Rand) string {
	var p []string
	for n := r.Intn(8); n > 0; n-- {
		p = append(p, netWords[r.Intn(1+r.Intn(len(netWords)))])
	}
	s := strings.Join(p, []string{" ", " ", "", ", "}[r.Intn(4)])
	if r.Intn(3) == 0 {
		s = strings.ToUpper(s)
	}
	return s
}

func (v *service) newVer(r *rand.Rand, id string) *nver {
	d := &nver{N: int(atomic.AddInt64(&v.n, 1))}
	d.Content = netContent(r)
	if d.Content != "" {
		// most versions are told apart by their contents
		d.Content += fmt.Sprintf(" v%d", d.N)
	}
	if r.Intn(150) == 0 && v.conf.Engine.Using < 3 { // mode 3 makes every prefix a key
		d.Content += strings.Repeat(" "+netContent(r), 1+r.Intn(4000)) // long, in a POST body or over gRPC
		d.Content = d.Content[:min(len(d.Content), 150000)]
		d.Content = strings.ToValidUTF8(d.Content, "")
	}
	if old := v.last[id]; old != nil && r.Intn(5) == 0 {
		d.Content = old.Content // the same text again, later or after a removal
	}
	v.last[id] = d
	if v.grpc {
		d.Ts = int64(r.Intn(6)) - 1
		if r.Intn(3) == 0 {
			d.Ts = r.Int63() - r.Int63()
		}
		d.Time = fmt.Sprintf("time %d", d.N)
		switch r.Intn(12) {
		case 0: // no attributes
			d.Ts, d.Time = 0, ""
		case 1: // attributes that nobody can decode
			d.Ts, d.Time, d.badAttri = 0, "", true
		}
		for k := r.Intn(3); k > 0; k-- {
			d.Tokens = append(d.Tokens, types.TokenData{Text: []string{"世界", "tok", "Explicit", "the"}[r.Intn(4)],
				Locations: []int{r.Intn(9), 10 + r.Intn(9)}[:[]int{2, 2, 1, 0}[r.Intn(4)]]})
		}
	}
	d.keys = v.tok.KeysOf(types.DocData{Content: d.Content, Tokens: d.Tokens})
	return d
}

func (v *service) start() bool {
	v.note("start: %+v", v.conf.Engine)
	v.srv = startServer(v.c, srvConf{Conf: v.conf, Grpc: v.grpc}, v.witness)
	if v.srv == nil {
		return false
	}
	if v.grpc {
		v.f = grpcFront{v.srv}
	} else {
		v.f = httpFront{v.srv}
	}
	return true
}

func (v *service) query(r *rand.Rand) nq {
	q := nq{}
	switch r.Intn(8) {
	case 0:
		q.Text = netContent(r)
	case 1:
		q.Text = "nothing has this"
	case 2:
		q.Text = ""
	default:
		q.Text = netWords[r.Intn(1+r.Intn(len(netWords)))]
		if r.Intn(3) == 0 {
			q.Text += " " + netWords[r.Intn(len(netWords))]
		}
	}
	q.Off = []string{"", "", "0", "0", "1", "2", "5", "300", "1000", "-3", "abc", "2147483647"}[r.Intn(12)]
	q.Max = []string{"", "0", "-1", "1", "2", "3", "5", "100", "100", "600", "2147483647", "-2147483648"}[r.Intn(12)]
	if !v.grpc && r.Intn(8) == 0 {
		q.Max = []string{"9223372036854775807", "99999999999999999999", "x", "1e3"}[r.Intn(4)]
	}
	if v.grpc {
		if r.Intn(4) == 0 {
			q.DocIds = map[string]bool{}
			for k := r.Intn(6); k > 0; k-- {
				q.DocIds[v.ids[r.Intn(len(v.ids))]] = r.Intn(3) > 0
			}
			if len(q.DocIds) == 0 {
				q.DocIds = nil // an empty map does not travel
			}
		}
		if r.Intn(2) == 0 {
			l := &types.Logic{}
			words := func() (o []string) {
				for k := 1 + r.Intn(2); k > 0; k-- {
					o = append(o, []string{"世界", "七十亿", "人口", "hello", "world", "tok", "Explicit", "absent"}[r.Intn(8)])
				}
				return
			}
			if r.Intn(2) == 0 {
				l.Must = r.Intn(2) == 0
				l.Should = r.Intn(2) == 0
				l.NotIn = (l.Must || l.Should) && r.Intn(3) == 0
			} else {
				if r.Intn(3) > 0 {
					l.Expr.Must = words()
				}
				if len(l.Expr.Must) == 0 || r.Intn(3) == 0 {
					l.Expr.Should = words()
				}
				if r.Intn(2) == 0 {
					l.Expr.NotIn = words()
				}
			}
			q.Logic = l
			if len(v.tok.QueryOf(q.Text, nil)) == 0 && (l.Must || l.Should || l.NotIn) {
				q.Text = "世界" // flags need keywords
			}
			mq := v.model(q)
			if mq.IsLogic() && mq.ShouldOnly() {
				q.DocIds = nil // known finding of C02
			}
		}
	}
	return q
}

func (v *service) model(q nq) eng.Query {
	m := eng.Query{Tokens: v.tok.QueryOf(q.Text, nil), DocIds: q.DocIds}
	if q.Logic != nil {
		m.Logic = *q.Logic
	}
	return m
}

// page gives the offset and limit the service applies.
func (v *service) page(q nq) (off, max int) {
	atoi := func(s string) int {
		var n int
		switch s {
		case "abc", "x", "1e3", "":
			return 0
		case "99999999999999999999":
			return 9223372036854775807
		}
		fmt.Sscan(s, &n)
		return n
	}
	off, max = atoi(q.Off), atoi(q.Max)
	if max <= 0 {
		off, max = v.conf.Engine.OutputOffset, v.conf.Engine.MaxOutputs
	}
	if off < 0 {
		off = 0
	}
	return
}

func (q nq) String() string {
	s := fmt.Sprintf("query=%q offset=%q max=%q", q.Text, q.Off, q.Max)
	if q.DocIds != nil {
		s += fmt.Sprintf(" docIds=%v", q.DocIds)
	}
	if q.Logic != nil {
		s += fmt.Sprintf(" logic=%+v", *q.Logic)
	}
	return s
}

// check compares one search with the model while nothing is written.
func (v *service) check(q nq, name string) {
	hits, n, ok := v.f.search(q)
	if !ok {
		return
	}
	wit := map[string]interface{}{"state": v.witness(), "query": q.String(), "hits": fmt.Sprintf("%+v", hits)}
	mq := v.model(q)
	want := map[string]bool{}
	for id, d := range v.live {
		if mq.Match(&eng.Ver{ID: id, Keys: d.keys}) && mq.In(id) {
			want[id] = true
		}
	}
	off, max := v.page(q)
	size := len(want) - off
	if size < 0 {
		size = 0
	}
	if size > max {
		size = max
	}
	if n != len(hits) {
		v.c.Violate("len", wit, "%s: len is %d with %d documents", q, n, len(hits))
	}
	v.order(hits, q, wit)
	seen := map[string]bool{}
	for _, x := range hits {
		if seen[x.ID] {
			v.c.Violate("duplicate", wit, "%s: %q is in the response twice", q, x.ID)
		}
		seen[x.ID] = true
		if !want[x.ID] {
			v.c.Violate("wrong-document", wit, "%s finds %q, which does not match or is not live", q, x.ID)
			return
		}
		v.payload(x, v.live[x.ID], q, wit)
	}
	if len(hits) != size {
		ids := []string{}
		for id := range want {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		if len(ids) > 50 && off == 0 && len(want) <= max {
			rest := []string{}
			for _, id := range ids {
				if !seen[id] {
					rest = append(rest, id)
				}
			}
			v.c.Violate("number", wit, "%s: %d documents, expected all %d matching, %.500q are missing", q, len(hits), len(want), rest)
			return
		}
		v.c.Violate("number", wit, "%s: %d documents, expected %d of the %d matching %q (offset %d, limit %d)", q, len(hits), size, len(want), ids, off, max)
	}
	if !v.grpc && v.steady() {
		// newest first: calls that did not overlap order their documents
		for i := 1; i < len(hits); i++ {
			a, b := v.live[hits[i-1].ID], v.live[hits[i].ID]
			if a.to < b.from {
				v.c.Violate("newest-first", wit, "%s: %q, added earlier, comes before %q", q, hits[i-1].ID, hits[i].ID)
			}
		}
	}
	sig := ""
	if len(want) > 0 {
		sig = v.desc + q.String() + fmt.Sprint(len(v.log))
	}
	v.c.Count("hits", len(hits))
	v.c.Max("most_hits", len(hits))
	v.c.Max("most_documents", len(v.live))
	if len(hits) > 0 {
		v.c.Count("nonempty", 1)
	}
	if len(hits) > 1 {
		v.c.Count("ordered_pairs", len(hits)-1)
	}
	v.c.Case(sig, func() interface{} {
		return map[string]interface{}{"where": name, "query": q.String(), "live": len(v.live), "hits": fmt.Sprintf("%+v", hits)}
	})
}

func (v *service) order(hits []hit, q nq, wit interface{}) {
	for i := 1; i < len(hits); i++ {
		a, b := hits[i-1], hits[i]
		if a.Ts < b.Ts || a.Ts == b.Ts && a.ID < b.ID {
			v.c.Violate("order", wit, "%s: %q (time %d) comes before %q (time %d)", q, a.ID, a.Ts, b.ID, b.Ts)
		}
	}
}

func (v *service) payload(x hit, d *nver, q nq, wit interface{}) {
	if x.Content != d.Content {
		v.c.Violate("content", wit, "%s: %q has the content %q, expected %q", q, x.ID, x.Content, d.Content)
	}
	if v.grpc {
		if x.Ts != d.Ts || x.Time != d.Time {
			v.c.Violate("attributes", wit, "%s: %q has the attributes %q %d, expected %q %d", q, x.ID, x.Time, x.Ts, d.Time, d.Ts)
		}
	} else {
		if _, err := time.Parse("2006-01-02 15:04:05", x.Time); err != nil {
			v.c.Violate("attributes", wit, "%s: %q has the time %q", q, x.ID, x.Time)
		}
		if v.steady() && (x.Ts < d.from || x.Ts > d.to) {
			v.c.Violate("attributes", wit, "%s: %q was added between %d and %d and has the time %d", q, x.ID, d.from, d.to, x.Ts)
		}
	}
}

// round writes concurrently, with searches on the side, and flushes.
func (v *service) round(r *rand.Rand) {
	type op struct {
		id    string
		vers  []*nver
		force []bool
	}
	var ops []op
	touched := map[string][]*nver{}
	for _, id := range v.ids {
		if r.Float64() > 0.45 && (!v.many || v.live[id] != nil) {
			continue
		}
		o := op{id: id}
		if v.live[id] != nil && r.Intn(3) == 0 || r.Intn(12) == 0 {
			v.note("delete %q", id)
		} else {
			for k := 1 + r.Intn(2)*r.Intn(3); k > 0; k-- {
				d := v.newVer(r, id)
				o.vers = append(o.vers, d)
				o.force = append(o.force, v.grpc && r.Intn(8) == 0)
				v.note("add %q %q tokens=%v ts=%d", id, d.Content, d.Tokens, d.Ts)
			}
		}
		ops = append(ops, o)
		touched[id] = append([]*nver{}, o.vers...)
		if v.live[id] != nil {
			touched[id] = append(touched[id], v.live[id])
		}
	}
	var stop int32
	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		qs := []nq{}
		for j := 0; j < 40; j++ {
			q := v.query(r)
			q.Off, q.Max = "0", "100000"
			qs = append(qs, q)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; atomic.LoadInt32(&stop) == 0 && !v.c.Violated(); j++ {
				v.during(qs[j%len(qs)], touched)
			}
		}()
	}
	h.Workers(len(ops), 4, func(i int) {
		o := ops[i]
		if len(o.vers) == 0 {
			v.f.del(o.id)
		}
		for k, d := range o.vers {
			v.f.add(o.id, d, o.force[k])
		}
		v.c.Count("writes", 1)
	})
	v.srv.flush()
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	v.note("flush")
	for _, o := range ops {
		if len(o.vers) == 0 {
			delete(v.live, o.id)
		} else {
			v.live[o.id] = o.vers[len(o.vers)-1]
		}
	}
}

// during checks a search that overlaps with writes to the touched documents.
func (v *service) during(q nq, touched map[string][]*nver) {
	hits, n, ok := v.f.search(q)
	if !ok {
		return
	}
	wit := map[string]interface{}{"state": v.witness(), "query": q.String(), "hits": fmt.Sprintf("%+v", hits)}
	if n != len(hits) {
		v.c.Violate("len", wit, "%s: len is %d with %d documents", q, n, len(hits))
	}
	v.order(hits, q, wit)
	mq := v.model(q)
	got := map[string]bool{}
	for _, x := range hits {
		if got[x.ID] {
			v.c.Violate("duplicate", wit, "%s: %q is in the response twice", q, x.ID)
		}
		got[x.ID] = true
		ts, busy := touched[x.ID]
		if !busy {
			if d := v.live[x.ID]; d == nil {
				v.c.Violate("wrong-document", wit, "%s finds %q, which is not live", q, x.ID)
			} else {
				v.payload(x, d, q, wit)
			}
			continue
		}
		known := false
		for _, d := range ts {
			known = known || d.Content == x.Content
		}
		if !known {
			v.c.Violate("content", wit, "%s: %q has the content %q, which no version has", q, x.ID, x.Content)
		}
	}
	for id, d := range v.live {
		if _, busy := touched[id]; busy {
			continue
		}
		if m := mq.Match(&eng.Ver{ID: id, Keys: d.keys}) && mq.In(id); m != got[id] {
			v.c.Violate("during-writes", wit, "%s while other documents are written: %q found=%v, expected %v", q, id, got[id], m)
		}
	}
	v.c.Count("searches_during_writes", 1)
}

func serviceHistory(c *h.C, i int, grpc bool) {
	r := c.Rand("h", i)
	dir := filepath.Join(c.Dir, fmt.Sprint("s", i))
	h.Must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	dict, stop := eng.WriteDict(dir)
	v := &service{c: c, r: r, grpc: grpc, live: map[string]*nver{}, last: map[string]*nver{}, base: time.Now(), clock: true}
	e := &v.conf.Engine
	e.GseDict = dict
	e.StoreFolder = filepath.Join(dir, "store")
	e.StoreEngine = []string{"", "ldb", "bolt", "bg"}[r.Intn(4)]
	e.StoreShards = 1 + r.Intn(3)
	e.OutputOffset = r.Intn(3) * r.Intn(2)
	e.MaxOutputs = 1 + r.Intn(12)
	e.Using = []int{0, 0, 1, 3}[r.Intn(4)]
	if i == 1 { // so many documents that searches find more than a thousand
		v.many, e.StoreEngine, e.Using = true, "ldb", 0
	}
	v.tok = &eng.TokModel{Seg: &gse.Segmenter{}, Stops: map[string]bool{}}
	h.Must(v.tok.Seg.LoadDict(dict))
	if r.Intn(2) == 0 {
		e.StopTokenFile = stop
		for _, s := range eng.StopWords {
			v.tok.Stops[s] = true
		}
	}
	v.tok.O.Using = e.Using
	nid := 3 + r.Intn(30)
	voc := eng.NewVocab(r, 1, 0, nid)
	dup := map[string]bool{"0": true}
	for _, id := range voc.IDs {
		if grpc || strings.TrimSpace(id) != "" {
			if grpc && r.Intn(3) == 0 {
				id = fmt.Sprint(1 + r.Uint64()>>uint(r.Intn(64)))
			}
			if !dup[id] {
				v.ids = append(v.ids, id)
			}
			dup[id] = true
		}
	}
	for k := 0; v.many && k < 5000; k++ {
		v.ids = append(v.ids, fmt.Sprint(1000000+k*7))
	}
	for life := 0; life < 1+r.Intn(3); life++ {
		e.NumShards = 1 + r.Intn(4)
		v.desc = fmt.Sprintf("history %d: %+v", i, *e)
		c.Phase("%s", v.desc)
		if !v.start() {
			return
		}
		if life > 0 {
			for k := 0; k < 12 && !c.Violated(); k++ {
				v.check(v.query(r), "after restart")
			}
			c.Count("restarts", 1)
		}
		for round := 0; round < 1+r.Intn(4) && !c.Violated(); round++ {
			v.round(r)
			for k := 0; v.many && k < 6 && !c.Violated(); k++ {
				v.check(nq{Text: netWords[k%3], Off: []string{"0", "700"}[k%2], Max: []string{"2147483647", "1500"}[k/3]}, "after flush")
			}
			for k := 0; k < 12 && !c.Violated(); k++ {
				v.check(v.query(r), "after flush")
			}
			if grpc {
				m := int32(r.Uint32())
				v.srv.call("HeartBeat", func(ctx context.Context) error {
					rep, err := v.srv.rpc.HeartBeat(ctx, &pb.HeartReq{Msg: m})
					if err == nil && rep.Result != m {
						c.Violate("heartbeat", v.witness(), "HeartBeat %d answers %d", m, rep.Result)
					}
					return err
				})
			}
		}
		if c.Violated() {
			v.srv.kill()
			return
		}
		if r.Intn(3) == 0 {
			v.note("killed after Flush")
			v.srv.kill()
		} else {
			v.note("closed")
			v.srv.stop()
		}
		c.Count("lives_"+e.StoreEngine, 1)
	}
	if i%4 == 0 && !c.Violated() {
		v.inStore()
	}
}

// inStore opens the folder of a service that ended with an engine of its own:
// the configured store holds the documents.
func (v *service) inStore() {
	o := v.conf.Engine
	v.c.Phase("%s: the store", v.desc)
	// A process that is being started holds the locks of this one for a moment.
	forks.RLock()
	defer forks.RUnlock()
	e := &riot.Engine{}
	e.Init(types.EngineOpts{NotUseGse: true, Using: 2, NumShards: 1, UseStore: true, NumGseThreads: 1, NumIndexerThreads: 1, NumRankerThreads: 1,
		StoreFolder: o.StoreFolder, StoreEngine: o.StoreEngine, StoreShards: o.StoreShards})
	e.Flush()
	ids, docs := e.GetDBAllDocs()
	h.Progress()
	got := map[string]bool{}
	for k, id := range ids {
		d := v.live[id]
		if d == nil || got[id] || docs[k].Content != d.Content {
			v.c.Violate("store", v.witness(), "the store holds %q with the content %q, live: %v %+v", id, docs[k].Content, d != nil, d)
		}
		got[id] = true
	}
	if len(got) != len(v.live) {
		v.c.Violate("store", v.witness(), "the configured store holds %d documents, %d are live", len(got), len(v.live))
	}
	v.c.Count("stores_opened", 1)
	v.c.Count("documents_in_store", len(got))
	e.Close()
}

var c23 = &h.Prop{ID: "C23", Level: "exploration",
	Rule:        "a server process with the HTTP handlers over an engine with a random configuration and store, driven over loopback through histories of concurrent AddIndex and DelIndex requests, flushes and restarts (closed or killed after Flush); every Search response is compared with the model: length, documents, contents, attributes, order, offset and limit; searches overlapping writes must still find every document that is not being written. A case is one search while nothing is written; non-trivial when documents match, distinct by configuration, history and request.",
	Assumptions: []string{"max_outputs of the configuration is positive", "word boundaries are those of gse, called by the oracle on its own segmenter with the same dictionary"},
	Parts: []h.Part{{Name: "http", Run: func(c *h.C) {
		h.Workers(c.N(160, 2500), 4, func(i int) {
			if !c.Violated() {
				serviceHistory(c, i, false)
			}
		})
	}}}}

var c25 = &h.Prop{ID: "C25", Level: "exploration",
	Rule:        "a server process with the gRPC service over an engine with a random configuration and store, driven over loopback through histories of concurrent DocInx and Delete calls, flushes and restarts (closed or killed after Flush), directly and through the client helpers of the library; every Search reply is compared with the model: length, documents, contents, attributes, order, offset and limit, document filter and logic; HeartBeat echoes. A case is one search while nothing is written; non-trivial when documents match, distinct by configuration, history and request.",
	Assumptions: []string{"max_outputs of the configuration is positive", "word boundaries are those of gse, called by the oracle on its own segmenter with the same dictionary"},
	Parts: []h.Part{{Name: "grpc", Run: func(c *h.C) {
		h.Workers(c.N(160, 2500), 4, func(i int) {
			if !c.Violated() {
				serviceHistory(c, i, true)
			}
		})
	}}}}
