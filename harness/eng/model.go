// Package eng holds the reference model of the search engine and the drivers
// that run the real engine and the real index against it.
package eng

import (
	"encoding/gob"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/go-ego/riot/types"
)

// Ver is one version of a document as the model sees it.
type Ver struct {
	ID       string
	N        int // unique over the run
	Data     types.DocData
	Keys     map[string][]int // search key -> locations
	TokenLen int              // number of tokens given
}

// Payload is the fields value of the generated documents.
type Payload struct {
	ID   string
	N    int
	A, B float32
	List []int
}

// Vocab is the set of search keys of a case.
type Vocab struct {
	Tokens, Labels, Absent []string
	IDs                    []string
	Rich                   bool   // documents with many tokens, labels and locations
	Scale                  string // what this vocabulary has very much of
}

func init() {
	gob.Register(Payload{})
	gob.Register(types.Attri{})
}

var oddTokens = []string{"世界", "人口", "a b", "A", "a", "aa", "ab", "b", "0", "00",
	"é", "日本", "token-with-dash", "x\x00y", "zz", "z", "-1", "10", "9", "~", "the", "Ａ",
	"long" + strings.Repeat("g", 80)}

// ScaleOne is how rare vocabularies of unusual size are.
var ScaleOne = 16

var lengths = []int{64, 128, 255, 256, 257, 512, 1023, 1024, 1025, 2048, 4096, 5000}

var oddIDs = []string{"1", "2", "3", "10", "11", "9", "a", "A", "aa", "b", "世界", "世",
	"00", "01", "-1", "z", "zz", " ", "x y", "18446744073709551615", "é", "id\x00id",
	"doc/1", "doc/10", "doc/2", strings.Repeat("long", 40) + "1", strings.Repeat("long", 40) + "2"}

// NewVocab draws a vocabulary of about the given size; now and then one with
// far more documents, so that posting lists get long, or with rich documents.
func NewVocab(r *rand.Rand, nTok, nLab, nID int) *Vocab {
	v := &Vocab{}
	switch r.Intn(24) {
	case 0:
		nID += 40 + r.Intn(160)
	case 1:
		nID += 20 + r.Intn(50)
		nTok += r.Intn(20)
	case 2, 3:
		v.Rich = true
		nTok += r.Intn(20)
		nLab += r.Intn(6)
	}
	if r.Intn(ScaleOne) == 0 {
		v.Scale = []string{"documents", "tokens", "tokens", "occurrences", "occurrences",
			"labels", "labels", "lengths", "lengths"}[r.Intn(9)]
	}
	switch v.Scale {
	case "documents":
		nID += 600 + r.Intn(1500)
	case "tokens":
		nTok += 300
		nID = min(nID, 6)
	case "occurrences":
		nTok = min(nTok, 5)
		nID = min(nID, 8)
	case "labels":
		nLab += 200
		nID = min(nID, 8)
	}
	pool := append([]string{}, oddTokens...)
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	for i := 0; i < nTok; i++ {
		if i < len(pool) && r.Intn(3) > 0 {
			v.Tokens = append(v.Tokens, pool[i])
		} else {
			v.Tokens = append(v.Tokens, fmt.Sprintf("t%d", i))
		}
	}
	for i := 0; i < nLab; i++ {
		if r.Intn(4) == 0 {
			v.Labels = append(v.Labels, v.Tokens[r.Intn(len(v.Tokens))])
		} else {
			v.Labels = append(v.Labels, fmt.Sprintf("label%d", i))
		}
	}
	v.Absent = []string{"nowhere", "t", "label"}
	ids := append([]string{}, oddIDs...)
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	for i := 0; i < nID; i++ {
		if i < len(ids) && r.Intn(2) == 0 {
			v.IDs = append(v.IDs, ids[i])
		} else {
			v.IDs = append(v.IDs, fmt.Sprintf("d%d", i))
		}
	}
	if v.Scale == "lengths" {
		long := func(l []string) {
			for i := range l {
				if n := lengths[r.Intn(len(lengths))] - len(l[i]); n > 0 && r.Intn(3) > 0 {
					// either end tells them apart
					if f := strings.Repeat("x", n); r.Intn(2) == 0 {
						l[i] += f
					} else {
						l[i] = f + l[i]
					}
				}
			}
		}
		long(v.Tokens)
		long(v.Labels)
		long(v.IDs)
	}
	return v
}

// DocOpt shapes generated documents.
type DocOpt struct {
	MaxTok, MaxLab int
	MaxOcc         int // occurrences per token
	Bare           bool
}

// Evolve makes the version share some of its parts with an earlier one, as
// when only the labels or only the attributes of a document change.
func (d *Ver) Evolve(r *rand.Rand, p *Ver) {
	keep := 1 + r.Intn(31)
	switch r.Intn(4) {
	case 0:
		keep = 31 &^ (1 << r.Intn(5)) // one part changes
	case 1:
		keep = 1 << r.Intn(5) // one part stays
	}
	if keep&1 != 0 {
		d.Data.Content = p.Data.Content
	}
	if keep&2 != 0 {
		d.Data.Fields = p.Data.Fields
	}
	if keep&4 != 0 {
		d.Data.Attri = p.Data.Attri
	}
	if keep&8 != 0 {
		d.Data.Labels = append([]string(nil), p.Data.Labels...)
	}
	if keep&16 != 0 {
		d.Data.Tokens = append([]types.TokenData(nil), p.Data.Tokens...)
	}
	d.Keys = map[string][]int{}
	for _, t := range d.Data.Tokens {
		d.Keys[t.Text] = append([]int{}, t.Locations...)
	}
	for _, l := range d.Data.Labels {
		if _, ok := d.Keys[l]; !ok {
			d.Keys[l] = []int{}
		}
	}
	d.TokenLen = len(d.Data.Tokens)
}

// NewVer draws the content of one document version. The locations of a token
// are ascending, as a segmenter produces them; those of different tokens
// follow one another, or overlap as in the search mode of the segmenter.
func NewVer(r *rand.Rand, v *Vocab, id string, n int, o DocOpt) *Ver {
	d := &Ver{ID: id, N: n, Keys: map[string][]int{}}
	if v.Rich {
		o.MaxTok += 10
		o.MaxLab += 3
		o.MaxOcc += 3
	}
	switch v.Scale {
	case "tokens":
		o.MaxTok += 600
	case "labels":
		o.MaxLab += 300
	case "occurrences":
		o.MaxOcc += 900
	}
	nt := r.Intn(o.MaxTok + 1)
	occ := map[string]int{}
	var order []string
	for i := 0; i < nt; i++ {
		t := v.Tokens[r.Intn(len(v.Tokens))]
		if _, ok := occ[t]; ok {
			continue
		}
		k := 1
		if o.MaxOcc > 1 {
			k = 1 + r.Intn(o.MaxOcc)
		}
		if r.Intn(12) == 0 {
			k = 0 // a token without locations
		}
		occ[t] = k
		order = append(order, t)
	}
	var seq []string
	for _, t := range order {
		for i := 0; i < occ[t]; i++ {
			seq = append(seq, t)
		}
	}
	r.Shuffle(len(seq), func(i, j int) { seq[i], seq[j] = seq[j], seq[i] })
	locs := map[string][]int{}
	p := r.Intn(3)
	overlap := r.Intn(3)
	for _, t := range seq {
		if n := len(locs[t]); n > 0 && p <= locs[t][n-1] {
			p = locs[t][n-1] + 1
		}
		locs[t] = append(locs[t], p)
		switch overlap {
		case 0:
			p += len(t) + r.Intn(4)*r.Intn(3)
		case 1:
			p += 1 + r.Intn(4)
		case 2:
			p += r.Intn(2 + len(t))
		}
		if v.Scale == "lengths" { // far apart
			p += r.Intn(3) * r.Intn(100000)
		}
	}
	for _, t := range order {
		d.Data.Tokens = append(d.Data.Tokens, types.TokenData{Text: t, Locations: locs[t]})
		d.Keys[t] = append([]int{}, locs[t]...)
	}
	d.TokenLen = len(d.Data.Tokens)
	if len(v.Labels) > 0 && o.MaxLab > 0 {
		for i := r.Intn(o.MaxLab + 1); i > 0; i-- {
			l := v.Labels[r.Intn(len(v.Labels))]
			d.Data.Labels = append(d.Data.Labels, l)
			if _, ok := d.Keys[l]; !ok {
				d.Keys[l] = []int{}
			}
		}
	}
	if o.Bare {
		return d
	}
	d.Data.Content = fmt.Sprintf("content of %s version %d", id, n)
	d.Data.Fields = Payload{ID: id, N: n, A: float32(r.Intn(5)), B: float32(r.Intn(50)),
		List: []int{n, len(id)}}
	d.Data.Attri = types.Attri{Title: id, Author: fmt.Sprint("author", n), Ts: int64(n)}
	return d
}

// DocIndex gives the version in the form the index takes.
func (d *Ver) DocIndex() *types.DocIndex {
	x := &types.DocIndex{DocId: d.ID, TokenLen: float32(d.TokenLen)}
	ks := make([]string, 0, len(d.Keys))
	for k := range d.Keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.Keywords = append(x.Keywords, types.KeywordIndex{Text: k,
			Frequency: float32(len(d.Keys[k])), Starts: append([]int{}, d.Keys[k]...)})
	}
	return x
}

// Query is one search as the model sees it.
type Query struct {
	Tokens, Labels []string
	DocIds         map[string]bool
	Logic          types.Logic
}

func (q Query) String() string {
	return fmt.Sprintf("tokens=%q labels=%q docIds=%v logic=%+v", q.Tokens, q.Labels, q.DocIds, q.Logic)
}

// Req makes the search request.
func (q Query) Req() types.SearchReq {
	return types.SearchReq{Tokens: q.Tokens, Labels: q.Labels, DocIds: q.DocIds, Logic: q.Logic}
}

// IsLogic tells whether the request is a logic search.
func (q Query) IsLogic() bool {
	kw := len(q.Tokens) + len(q.Labels)
	l := q.Logic
	return (l.Must || l.Should || l.NotIn) && kw > 0 || len(l.Expr.Must) > 0 || len(l.Expr.Should) > 0
}

// ShouldOnly tells whether the logic search has no must clause.
func (q Query) ShouldOnly() bool {
	return q.IsLogic() && !q.Logic.Must && len(q.Logic.Expr.Must) == 0
}

// Match tells whether the query selects the document, leaving DocIds aside.
func (q Query) Match(d *Ver) bool {
	kw := append(append([]string{}, q.Tokens...), q.Labels...)
	has := func(k string) bool { _, ok := d.Keys[k]; return ok }
	if !q.IsLogic() {
		if len(kw) == 0 {
			return false
		}
		for _, k := range kw {
			if !has(k) {
				return false
			}
		}
		return true
	}
	pick := func(e []string) []string {
		if len(e) > 0 {
			return e
		}
		return kw
	}
	l := q.Logic
	if l.Must || len(l.Expr.Must) > 0 {
		for _, k := range pick(l.Expr.Must) {
			if !has(k) {
				return false
			}
		}
	}
	if l.Should || len(l.Expr.Should) > 0 {
		any := false
		for _, k := range pick(l.Expr.Should) {
			any = any || has(k)
		}
		if !any {
			return false
		}
	}
	if l.NotIn || len(l.Expr.NotIn) > 0 {
		for _, k := range pick(l.Expr.NotIn) {
			if has(k) {
				return false
			}
		}
	}
	return true
}

// In tells whether DocIds lets the document through.
func (q Query) In(id string) bool {
	if q.DocIds == nil {
		return true
	}
	_, ok := q.DocIds[id]
	return ok
}

// Eval gives the ids the query selects, sorted.
func (q Query) Eval(live map[string]*Ver) []string {
	var out []string
	for id, d := range live {
		if q.Match(d) && q.In(id) {
			out = append(out, id)
		}
	}
	sort.Strings(out)
	return out
}

// EvalNoFilter is Eval without DocIds.
func (q Query) EvalNoFilter(live map[string]*Ver) []string {
	q.DocIds = nil
	return q.Eval(live)
}

// RandKeys draws n search keys.
func RandKeys(r *rand.Rand, v *Vocab, n int) []string {
	var ks []string
	for i := 0; i < n; i++ {
		x := r.Intn(20)
		switch {
		case x == 0:
			ks = append(ks, v.Absent[r.Intn(len(v.Absent))])
		case x < 5 && len(v.Labels) > 0:
			ks = append(ks, v.Labels[r.Intn(len(v.Labels))])
		default:
			ks = append(ks, v.Tokens[r.Intn(len(v.Tokens))])
		}
	}
	return ks
}

// RandDocIds draws a document filter: nil, empty, or a part of the ids; the
// values do not matter, only the keys.
func RandDocIds(r *rand.Rand, v *Vocab) map[string]bool {
	switch r.Intn(6) {
	case 0, 1, 2:
		return nil
	case 3:
		if r.Intn(3) == 0 {
			return map[string]bool{}
		}
	}
	m := map[string]bool{}
	for _, id := range v.IDs {
		if r.Intn(2) == 0 {
			m[id] = r.Intn(2) == 0
		}
	}
	if r.Intn(3) == 0 {
		m["no such doc"] = true
		if r.Intn(20) == 0 {
			for i := r.Intn(5000); i > 0; i-- {
				m[fmt.Sprint("no such doc ", i)] = true
			}
		}
	}
	return m
}

// AndQuery draws a search without logic. Half of the time its keys come from
// one live document, so that long conjunctions match.
func AndQuery(r *rand.Rand, v *Vocab, live map[string]*Ver) Query {
	var q Query
	if r.Intn(2) == 0 && len(live) > 0 {
		d := live[v.IDs[r.Intn(len(v.IDs))]]
		if d != nil {
			var toks []string
			for _, t := range d.Data.Tokens {
				toks = append(toks, t.Text)
			}
			r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
			if len(toks) > 0 {
				q.Tokens = toks[:1+r.Intn(len(toks))]
			}
			if len(d.Data.Labels) > 0 && r.Intn(2) == 0 {
				q.Labels = []string{d.Data.Labels[r.Intn(len(d.Data.Labels))]}
			}
			if n := len(d.Data.Labels); n >= 10 && r.Intn(2) == 0 { // many of its labels
				for _, k := range r.Perm(n)[:10+r.Intn(n-9)] {
					q.Labels = append(q.Labels, d.Data.Labels[k])
				}
			}
			if x := r.Intn(12); x < 2 || x < 9 && len(q.Tokens)+len(q.Labels) >= 20 {
				// and one key that it may not have
				into := &q.Tokens
				if len(q.Labels) > 0 && r.Intn(2) == 0 {
					into = &q.Labels
				}
				at := r.Intn(len(*into) + 1)
				if r.Intn(3) == 0 {
					at = len(*into)
				}
				add := RandKeys(r, v, 1)
				if r.Intn(2) == 0 {
					add[0] = v.Absent[r.Intn(len(v.Absent))]
				}
				*into = append((*into)[:at:at], append(add, (*into)[at:]...)...)
			}
			if len(q.Tokens)+len(q.Labels) > 0 {
				q.DocIds = RandDocIds(r, v)
				return q
			}
		}
	}
	n := 1 + r.Intn(3)
	if r.Intn(40) == 0 {
		n += r.Intn(100)
	}
	for _, k := range RandKeys(r, v, n) {
		if r.Intn(4) == 0 {
			q.Labels = append(q.Labels, k)
		} else {
			q.Tokens = append(q.Tokens, k)
		}
	}
	q.DocIds = RandDocIds(r, v)
	return q
}

// LogicQuery draws a logic search with a must or a should clause.
func LogicQuery(r *rand.Rand, v *Vocab) Query {
	var q Query
	many := func() int {
		if r.Intn(30) == 0 {
			return r.Intn(100)
		}
		return 0
	}
	for {
		q = Query{DocIds: RandDocIds(r, v)}
		nk := r.Intn(3) + r.Intn(8)/7*r.Intn(4)
		for _, k := range RandKeys(r, v, nk) {
			if r.Intn(4) == 0 {
				q.Labels = append(q.Labels, k)
			} else {
				q.Tokens = append(q.Tokens, k)
			}
		}
		kw := len(q.Tokens)+len(q.Labels) > 0
		if kw {
			q.Logic.Must = r.Intn(3) == 0
			q.Logic.Should = r.Intn(3) == 0
			q.Logic.NotIn = r.Intn(5) == 0
		}
		if r.Intn(2) == 0 || !kw {
			if r.Intn(2) == 0 {
				q.Logic.Expr.Must = RandKeys(r, v, 1+r.Intn(2)+r.Intn(6)/5*r.Intn(3)+many())
			}
			if r.Intn(2) == 0 {
				q.Logic.Expr.Should = RandKeys(r, v, 1+r.Intn(3)+r.Intn(6)/5*r.Intn(6)+many())
			}
			if r.Intn(2) == 0 {
				q.Logic.Expr.NotIn = RandKeys(r, v, 1+r.Intn(2)+r.Intn(6)/5*r.Intn(6)+many())
			}
		}
		must := q.Logic.Must || len(q.Logic.Expr.Must) > 0
		should := q.Logic.Should || len(q.Logic.Expr.Should) > 0
		if must || should {
			return q
		}
	}
}

// LiveLogic is LogicQuery, now and then with must keys that a live document
// has, so that long conjunctions match, and perhaps one that it has not.
func LiveLogic(r *rand.Rand, v *Vocab, live map[string]*Ver) Query {
	q := LogicQuery(r, v)
	d := live[v.IDs[r.Intn(len(v.IDs))]]
	if d == nil || len(d.Keys) == 0 || r.Intn(4) > 0 && (len(d.Keys) < 20 || r.Intn(4) == 0) {
		return q
	}
	if r.Intn(2) == 0 {
		q.Logic.NotIn, q.Logic.Expr.NotIn = false, nil
	}
	if r.Intn(3) == 0 {
		q.DocIds = nil
	}
	var ks []string
	for k := range d.Keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	ks = ks[:1+r.Intn(len(ks))]
	if r.Intn(3) == 0 {
		i := r.Intn(len(ks) + 1)
		if r.Intn(3) == 0 {
			i = len(ks)
		}
		add := RandKeys(r, v, 1)
		if r.Intn(2) == 0 {
			add[0] = v.Absent[r.Intn(len(v.Absent))]
		}
		ks = append(ks[:i:i], append(add, ks[i:]...)...)
	}
	if r.Intn(3) == 0 {
		q.Tokens, q.Labels, q.Logic.Must = ks, nil, true
		if r.Intn(2) == 0 {
			n := r.Intn(len(ks) + 1)
			q.Tokens, q.Labels = ks[:n:n], ks[n:]
		}
		q.Logic.Expr.Must = nil
		q.Logic.NotIn = false
	} else {
		q.Logic.Expr.Must = ks
	}
	return q
}

// Same compares two id lists as sorted lists (so duplicates count).
func Same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
