package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/riot/net/com"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"

	"verif/harness/h"
)

// bdoc is a document a stub backend returns.
type bdoc struct {
	ID, Content string
	Ts          int64
	Title       string
	Author      string
	Time        string
	Score       string // JSON (HTTP only)
	Bare        bool   // given without attributes (gRPC only)
}

func lessDoc(a, b bdoc) bool {
	if a.Ts != b.Ts {
		return a.Ts > b.Ts
	}
	return a.ID > b.ID
}

// behaviour of one backend for one request.
type behave struct {
	kind  string // ok, or a way to fail
	docs  []bdoc
	delay time.Duration
}

// dreq is one distributed request and what each backend does with it.
type dreq struct {
	key         string
	user, time  string
	off, max    string
	back        []behave
	calls       []int32
	params      []interface{} // what each backend was sent
	hangTimeout int32
}

// randDocs draws the answer of a conforming backend.
func randDocs(r *rand.Rand, key string, b int) []bdoc {
	var ds []bdoc
	n := r.Intn(8) * r.Intn(3) / 2
	if r.Intn(30) == 0 {
		n = r.Intn(600)
	}
	for k := n; k > 0; k-- {
		d := bdoc{ID: fmt.Sprintf("%d-%d", r.Intn(20), b), Ts: int64(r.Intn(5)) - 1, Title: fmt.Sprint("t", k)}
		if r.Intn(3) == 0 {
			d.Ts = r.Int63() - r.Int63()
		}
		if r.Intn(4) == 0 {
			d.ID = fmt.Sprint(r.Intn(20)) // several backends may hold it
		}
		if r.Intn(6) == 0 {
			d.Ts, d.Title, d.Bare = 0, "", true
		}
		if !d.Bare && r.Intn(2) == 0 {
			d.Author, d.Time = fmt.Sprint("a", b, k), fmt.Sprint("2006-01-0", k)
		}
		d.Score = []string{"null", "[]", "[0]", fmt.Sprintf("[%d.5]", k), fmt.Sprintf("[%d,%d,-1.25]", b, k)}[r.Intn(5)]
		d.Content = fmt.Sprintf("%s backend %d <%d> \"世界\"", key, b, k)
		if r.Intn(60) == 0 {
			d.Content += strings.Repeat("long 世界 ", r.Intn(30000))
		}
		ds = append(ds, d)
	}
	sort.SliceStable(ds, func(i, j int) bool { return lessDoc(ds[i], ds[j]) })
	return ds
}

func cut(ds []bdoc, n int) []bdoc {
	if len(ds) > n {
		ds = ds[:n]
	}
	return ds
}

// effective gives the offset and limit of the request.
func (d *dreq) effective(conf *com.Config) (off string, max int) {
	max, _ = strconv.Atoi(d.max)
	if max <= 0 {
		return strconv.Itoa(conf.Engine.OutputOffset), conf.Engine.MaxOutputs
	}
	return d.off, max
}

// merged is the answer a distributed search must give.
func (d *dreq) merged(max int) []bdoc {
	var all []bdoc
	for _, b := range d.back {
		if b.kind == "ok" {
			all = append(all, cut(b.docs, max)...)
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return lessDoc(all[i], all[j]) })
	return all
}

// compare tells how the documents of a response differ from the merge.
func (d *dreq) compare(got []bdoc, n, max int) string {
	all := d.merged(max)
	want := cut(all, max)
	if n != len(got) {
		return fmt.Sprintf("len is %d with %d documents", n, len(got))
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d documents, expected %d of %d (limit %d)", len(got), len(want), len(all), max)
	}
	pool := map[bdoc]int{}
	for _, x := range all {
		pool[x]++
	}
	for i, x := range got {
		if x.ID != want[i].ID || x.Ts != want[i].Ts {
			return fmt.Sprintf("document %d is %q (time %d), expected %q (time %d)", i, x.ID, x.Ts, want[i].ID, want[i].Ts)
		}
		if pool[x] == 0 {
			return fmt.Sprintf("document %d, %+v, was given by no backend, or is repeated", i, x)
		}
		pool[x]--
	}
	return ""
}

// httpBackend is a stub search server.
type httpBackend struct {
	i    int
	srv  *httptest.Server
	reqs *sync.Map
	c    *h.C
}

func (b *httpBackend) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	q.ParseForm()
	v, ok := b.reqs.Load(q.Form.Get("query"))
	if !ok || q.URL.Path != "/search" {
		b.c.Violate("backend-request", fmt.Sprintf("%v %v", q.URL, q.Form), "a backend gets a request nobody made: %v %v", q.URL, q.Form)
		return
	}
	d := v.(*dreq)
	f := url.Values{}
	for k, x := range q.Form {
		f[k] = x
	}
	d.params[b.i] = f
	atomic.AddInt32(&d.calls[b.i], 1)
	h.Progress()
	be := d.back[b.i]
	time.Sleep(be.delay)
	max, _ := strconv.Atoi(q.Form.Get("maxOutputs"))
	docs := cut(be.docs, max)
	resp := rhttp.JsonResponse{Len: len(docs), Timestamp: time.Now().Unix()}
	for _, x := range docs {
		t := rhttp.Text{Id: x.ID, Content: x.Content, Attri: types.Attri{Ts: x.Ts, Title: x.Title, Author: x.Author, Time: x.Time}}
		json.Unmarshal([]byte(x.Score), &t.Score)
		resp.Docs = append(resp.Docs, t)
	}
	body, _ := json.Marshal(&resp)
	switch be.kind {
	case "ok":
		w.Write(body)
	case "empty":
	case "abort":
		c, _, _ := w.(http.Hijacker).Hijack()
		c.Close()
	case "short":
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body[:len(body)/2])
	case "status":
		http.Error(w, "no such page", []int{404, 500, 503, 502}[len(docs)%4])
	case "statusjson":
		w.WriteHeader(500)
		w.Write(body)
	case "garbage":
		io.WriteString(w, "<html>under construction</html>")
	case "cutjson":
		w.Write(body[:len(body)-1])
	case "hang":
		for t := 0; t < 200; t++ {
			select {
			case <-q.Context().Done():
				return
			case <-time.After(100 * time.Millisecond):
				h.Progress()
			}
		}
		atomic.StoreInt32(&d.hangTimeout, 1)
	}
}

func randDist(r *rand.Rand, key string, nb int, hang bool) *dreq {
	d := &dreq{key: key, user: fmt.Sprint("user ", r.Intn(9)), time: fmt.Sprint(r.Intn(9)),
		calls: make([]int32, nb), params: make([]interface{}, nb)}
	d.off = []string{"0", "0", "0", "", "2", "-1", "x"}[r.Intn(7)]
	d.max = []string{"1", "2", "3", "5", "100", "100", "2147483647", "", "0", "-1", "x"}[r.Intn(11)]
	good := r.Intn(3) > 0
	for b := 0; b < nb; b++ {
		be := behave{kind: "ok", docs: randDocs(r, key, b)}
		if !good && r.Intn(2) == 0 {
			be.kind = []string{"empty", "abort", "short", "error", "status", "statusjson", "garbage", "cutjson"}[r.Intn(8)]
		}
		if r.Intn(3) == 0 {
			be.delay = time.Duration(r.Intn(4000)) * time.Microsecond
		}
		d.back = append(d.back, be)
	}
	if hang && nb > 0 {
		d.back[r.Intn(nb)].kind = "hang"
	}
	return d
}

func (d *dreq) witness(extra interface{}) interface{} {
	return map[string]interface{}{"request": fmt.Sprintf("query=%q user=%q time=%q offset=%q max=%q", d.key, d.user, d.time, d.off, d.max),
		"backends": clip(fmt.Sprintf("%+v", d.back), 20000), "observed": clip(fmt.Sprintf("%+v", extra), 20000)}
}

func c24Part(c *h.C) {
	var reqs sync.Map
	var backs []*httpBackend
	for i := 0; i < 40; i++ {
		b := &httpBackend{i: i, reqs: &reqs, c: c}
		b.srv = httptest.NewServer(b)
		backs = append(backs, b)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	h.Must(err)
	deadURL := "http://" + l.Addr().String()
	l.Close()
	front := httptest.NewServer(http.HandlerFunc(rhttp.WgDist))
	hc := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16}, Timeout: 100 * time.Second}

	for i := 0; i < c.N(160, 4000) && !c.Violated(); i++ {
		r := c.Rand("d", i)
		nb := []int{0, 1, 2, 2, 3, 3, 4, 6}[r.Intn(8)]
		if r.Intn(12) == 0 {
			nb = 7 + r.Intn(34)
		}
		var conf com.Config
		conf.Engine.MaxOutputs = 1 + r.Intn(10)
		conf.Engine.OutputOffset = r.Intn(3)
		dead := -1
		for b := 0; b < nb; b++ {
			conf.Url = append(conf.Url, backs[b].srv.URL)
		}
		if nb > 0 && r.Intn(5) == 0 {
			dead = r.Intn(nb)
			conf.Url[dead] = deadURL
		}
		com.Conf = conf
		hang := r.Intn(40) == 0
		var ds []*dreq
		for k := 0; k < 12; k++ {
			d := randDist(r, fmt.Sprintf("q%d-%d %d", i, k, r.Intn(1000)), nb, hang && k%3 == 0)
			if dead >= 0 {
				d.back[dead].kind = "refused"
			}
			ds = append(ds, d)
		}
		c.Phase("distributed search %d over %d backends", i, nb)
		conc := []int{1, 4, 12}[r.Intn(3)]
		h.Workers(len(ds), conc, func(k int) {
			d := ds[k]
			for try := 0; ; try++ {
				reqs.Store(d.key, d)
				t0 := time.Now()
				bad, obs := dist(c, hc, front.URL, d, &conf)
				reqs.Delete(d.key)
				h.Progress()
				if bad == "" {
					break
				}
				// a loaded machine may let the client's deadline of a second
				// pass for a backend that is well
				took := time.Since(t0)
				if took > 700*time.Millisecond && took < 60*time.Second && try < 4 && d.hangTimeout == 0 {
					c.Count("retried", 1)
					old := *d
					d = &dreq{key: fmt.Sprint(old.key, " again ", try), user: old.user, time: old.time, off: old.off, max: old.max,
						back: old.back, calls: make([]int32, nb), params: make([]interface{}, nb)}
					continue
				}
				c.Violate("distributed", d.witness(obs), "query %q (offset %q, limit %q) over %d backends: %s", d.key, d.off, d.max, nb, bad)
				return
			}
			ok := 0
			for _, b := range d.back {
				c.Count("backend_"+b.kind, 1)
				if b.kind == "ok" {
					ok++
				}
			}
			if conc > 1 {
				c.Count("concurrent_requests", 1)
			}
			_, max := d.effective(&conf)
			n := len(cut(d.merged(max), max))
			sig := ""
			if ok > 1 && n > 1 {
				sig = fmt.Sprint(d.key, d.max)
			}
			c.Count("documents", n)
			c.Case(sig, func() interface{} { return d.witness(nil) })
		})
	}
}

func dist(c *h.C, hc *http.Client, base string, d *dreq, conf *com.Config) (string, interface{}) {
	v := url.Values{"query": {d.key}, "userid": {d.user}, "time": {d.time}, "outputOffset": {d.off}, "maxOutputs": {d.max}}
	var j rhttp.JsonResponse
	var st int
	var ct string
	var err error
	h.Outside(func() {
		var resp *http.Response
		resp, err = hc.Get(base + "?" + v.Encode())
		if err == nil {
			st, ct = resp.StatusCode, resp.Header.Get("Content-Type")
			err = json.NewDecoder(resp.Body).Decode(&j)
			resp.Body.Close()
		}
	})
	if err != nil || st != 200 || !strings.HasPrefix(ct, "application/json") || j.Code != 0 {
		return fmt.Sprintf("the answer is not a response: %v %d %q %+v", err, st, ct, j), j
	}
	if d.hangTimeout != 0 {
		return "a backend that hangs is waited for without limit", j
	}
	off, max := d.effective(conf)
	var got []bdoc
	for _, x := range j.Docs {
		score, _ := json.Marshal(x.Score)
		got = append(got, bdoc{x.Id, x.Content, x.Attri.Ts, x.Attri.Title, x.Attri.Author, x.Attri.Time, string(score), x.Attri == types.Attri{}})
	}
	if s := d.compare(got, j.Len, max); s != "" {
		return s, j
	}
	for b := range d.back {
		want := int32(1)
		if d.back[b].kind == "refused" {
			want = 0
		}
		n := atomic.LoadInt32(&d.calls[b])
		if n != want && d.back[b].kind != "abort" && d.back[b].kind != "hang" {
			return fmt.Sprintf("backend %d was asked %d times, expected %d", b, n, want), j
		}
		if n == 0 || want == 0 {
			continue
		}
		f := d.params[b].(url.Values)
		for k, w := range map[string]string{"query": d.key, "userid": d.user, "time": d.time, "outputOffset": off} {
			if f.Get(k) != w {
				return fmt.Sprintf("backend %d was sent %s=%q, expected %q", b, k, f.Get(k), w), j
			}
		}
		if m, _ := strconv.Atoi(f.Get("maxOutputs")); m != max {
			return fmt.Sprintf("backend %d was sent the limit %q, expected %d", b, f.Get("maxOutputs"), max), j
		}
	}
	return "", nil
}

var c24 = &h.Prop{ID: "C24", Level: "exploration",
	Rule:        "the distributed HTTP handler served over loopback in front of up to forty stub backends that answer with random documents after random delays, or fail (refused, aborted, empty, truncated, an error status, something that is no response, or hanging), sequentially and with up to twelve concurrent requests, under the race detector; every response must be the sorted merge of the answers of the backends that are well, cut to the limit, and every backend must be asked once with the request's own parameters. A case is one request; non-trivial with at least two answering backends and two documents, distinct by request.",
	Assumptions: []string{"backends answer sorted documents cut to the limit they are sent, as the search handler does", "backends that are well answer within the client's deadline of one second: a case that took longer is repeated up to four times before it counts"},
	Parts:       []h.Part{{Name: "dist", Race: true, Run: c24Part}}}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
