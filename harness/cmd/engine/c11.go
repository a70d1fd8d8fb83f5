package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gpy/phrase"
	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"

	"verif/harness/eng"
	"verif/harness/h"
)

var c11 = &h.Prop{ID: "C11", Level: "exploration",
	Rule:        "documents of Chinese, Latin and mixed text with explicit tokens and labels, in every tokenization mode (segmenter on or off, the seven modes, search mode, stop tokens, pinyin); every key any mode could produce is searched, and the documents found must be exactly those for which the documented rules give that key; searched texts must be split into the tokens the same rules give. A case is one posting list or search text; non-trivial when documents match, distinct by corpus and key.",
	Assumptions: []string{"word boundaries and pinyin are those of the gse and gpy libraries, called by the oracle on its own segmenter with the same dictionary"},
	Parts: []h.Part{{Name: "engine", Run: func(c *h.C) {
		dict, stop := eng.WriteDict(c.Dir)
		other := filepath.Join(c.Dir, "other.txt")
		h.Must(os.WriteFile(other, []byte("有七 50 n\n七十 90 n\n亿人 90 n\n人中 80 n\n口上 70 n\n海外 90 n\n"), 0o644))
		var blank gse.Segmenter
		quiet(func() { h.Must(blank.LoadDict(other)) })
		for i := 0; i < c.N(3000, 20000) && !c.Violated(); i++ {
			r := c.Rand("h", i)
			o := eng.RandOpts(r)
			o.IDOnly = false
			o.NotUseGse = r.Intn(3) == 0
			o.Using = r.Intn(7)
			if o.NotUseGse { // modes that call no segmenter
				o.Using = []int{0, 2, 4, 5, 6}[r.Intn(5)]
			}
			o.GseMode = r.Intn(3) == 0
			o.Hmm = r.Intn(8) == 0
			m := &eng.TokModel{Seg: &gse.Segmenter{}, Stops: map[string]bool{}}
			if !o.NotUseGse {
				o.GseDict = dict
				if r.Intn(2) == 0 {
					o.StopTokenFile = stop
					for _, s := range eng.StopWords {
						m.Stops[s] = true
					}
				}
			}
			o.PinYin = r.Intn(4) == 0
			if o.PinYin && !o.NotUseGse {
				o.UsePhrase = r.Intn(3) == 0
			}
			long := i%40 == 7
			if long { // the pinyin of every prefix is a key, too many
				o.PinYin, o.UsePhrase = false, false
			}
			m.O = o
			quiet(func() { h.Must(m.Seg.LoadDict(dict)) })
			e := &riot.Engine{}
			quiet(func() {
				if !o.NotUseGse && r.Intn(3) == 0 {
					var s gse.Segmenter
					h.Must(s.LoadDict(dict))
					e.WithGse(s)
					if r.Intn(2) == 0 { // the segmenter given goes before the dictionary
						o.GseDict = other
					}
				}
				e.Init(o)
			})
			desc := fmt.Sprintf("%s pinyin=%v phrase=%v gsemode=%v hmm=%v stops=%v", eng.DescOpts(o), o.PinYin, o.UsePhrase, o.GseMode, o.Hmm, o.StopTokenFile != "")
			c.Phase("tokenization with %s", desc)
			// the segmenter of the phrases is a variable of their package; the
			// engine must use its own, the oracle sets it only after the Flush
			phrase.WithGse(blank)
			live := map[string]types.DocData{}
			keys := map[string]map[string][]int{}
			cand := map[string]bool{"nowhere": true}
			for d := 0; d < 2+r.Intn(8); d++ {
				id := fmt.Sprint("d", d)
				var data types.DocData
				if r.Intn(6) > 0 {
					data.Content = eng.RandContent(r, !o.PinYin || !o.UsePhrase && r.Intn(2) == 0)
					if o.PinYin && d == 1 && i%3 == 0 { // some lines of text
						for n := 30 + r.Intn(400); len(data.Content) < n; {
							data.Content += eng.RandContent(r, !o.UsePhrase)
						}
					}
				}
				if long && d == 0 {
					data.Content = longContent(r, o)
					c.Max("longest_content", len(data.Content))
				}
				for k := r.Intn(3); k > 0; k-- {
					data.Tokens = append(data.Tokens, types.TokenData{
						Text:      []string{"世界", "Explicit", "the", "人", "tok", "七", "The", "THE", "Stop Me"}[r.Intn(9)],
						Locations: []int{r.Intn(5), 7 + r.Intn(5)}})
				}
				for k := r.Intn(3); k > 0; k-- {
					data.Labels = append(data.Labels, []string{"label", "世界", "有", "Lab 2", "the", "The", "THE"}[r.Intn(7)])
				}
				e.Index(id, data, r.Intn(6) == 0)
				h.Progress()
				live[id] = data
			}
			e.Flush()
			for id, data := range live {
				keys[id] = m.KeysOf(data)
				for k := range keys[id] {
					cand[k] = true
				}
				// keys of other modes
				if len(data.Content) > 2000 {
					continue
				}
				m2 := *m
				m2.O.Using, m2.O.NotUseGse, m2.O.PinYin, m2.Stops = 3, false, false, nil
				for k := range m2.KeysOf(data) {
					cand[k] = true
				}
				cand[strings.ToLower(data.Content)] = true
			}
			for _, s := range eng.StopWords {
				cand[s] = true
			}
			delete(cand, "")
			for k := range cand {
				var want []string
				for id := range live {
					if _, ok := keys[id][k]; ok {
						want = append(want, id)
					}
				}
				resp := e.Search(types.SearchReq{Tokens: []string{k}})
				h.Progress()
				docs := eng.ScoredOf(resp.Docs)
				got := eng.Ids(resp.Docs)
				wit := map[string]interface{}{"options": desc, "documents": fmt.Sprintf("%q", live), "key": k, "got": got}
				if !eng.Same(got, want) {
					c.Violate("keys", wit, "key %q finds %q, the documented tokenization gives %q (%s)", k, got, want, desc)
				}
				if o.IndexerOpts.IndexType == types.LocsIndex {
					for _, d := range docs {
						exp := keys[d.DocId][k]
						if len(exp) == 0 {
							continue
						}
						if len(d.TokenLocs) != 1 || fmt.Sprint(d.TokenLocs[0]) != fmt.Sprint(exp) {
							c.Violate("locations", wit, "key %q of %q is at %v, the segmenter and the given tokens put it at %v (%s)", k, d.DocId, d.TokenLocs, exp, desc)
						}
					}
				}
				sig := ""
				if len(want) > 0 {
					sig = fmt.Sprint(i, k)
				}
				c.Count("postings", len(want))
				c.Case(sig, func() interface{} { return wit })
			}
			// search texts
			for k := 0; k < 10; k++ {
				req := types.SearchReq{Text: eng.RandContent(r, true)}
				if r.Intn(4) == 0 {
					req.Tokens = []string{"世界"}
				}
				if r.Intn(4) == 0 {
					req.Labels = []string{"label"}
				}
				want := m.QueryOf(req.Text, req.Tokens)
				resp := e.Search(req)
				h.Progress()
				wit := map[string]interface{}{"options": desc, "documents": fmt.Sprintf("%q", live), "request": fmt.Sprintf("%q", req), "response": fmt.Sprintf("%q", resp)}
				if fmt.Sprintf("%q", resp.Tokens) != fmt.Sprintf("%q", want) {
					c.Violate("query-tokens", wit, "the text %q is searched as %q, the documented rules give %q (%s)", req.Text, resp.Tokens, want, desc)
				}
				var ids []string
				for id := range live {
					all := len(want)+len(req.Labels) > 0
					for _, t := range append(append([]string{}, want...), req.Labels...) {
						_, ok := keys[id][t]
						all = all && ok
					}
					if all {
						ids = append(ids, id)
					}
				}
				if got := eng.Ids(resp.Docs); !eng.Same(got, ids) {
					c.Violate("text-search", wit, "the text %q with labels %q finds %q, expected %q (%s)", req.Text, req.Labels, got, ids, desc)
				}
				sig := ""
				if len(ids) > 0 {
					sig = fmt.Sprint(i, req)
				}
				c.Count("text_matches", len(ids))
				c.Case(sig, nil)
			}
			// a document is found by its own text, in any case
			words := o.NotUseGse && (o.Using == 0 || o.Using == 4) ||
				!o.NotUseGse && (o.Using == 0 || o.Using == 1 || o.Using == 3)
			for id, d := range live {
				if !words {
					break
				}
				if len(d.Content) > 5000 && o.IndexerOpts.IndexType == types.LocsIndex {
					continue // the distances of so many words take too long
				}
				if !utf8.ValidString(d.Content) { // lower case replaces such bytes
					continue
				}
				text := d.Content
				if r.Intn(3) == 0 {
					text = strings.ToUpper(text)
				}
				resp := e.Search(types.SearchReq{Text: text})
				h.Progress()
				found := len(resp.Tokens) == 0 // nothing but stop tokens
				for _, g := range eng.Ids(resp.Docs) {
					found = found || g == id
				}
				wit := map[string]interface{}{"options": desc, "document": fmt.Sprintf("%q", d), "keys": fmt.Sprintf("%q", keys[id]), "response": fmt.Sprintf("%q", resp)}
				if !found {
					key := "own-text"
					if !o.NotUseGse && (o.GseMode || o.Hmm) && fmt.Sprintf("%q", resp.Tokens) == fmt.Sprintf("%q", m.QueryOf(text, nil)) {
						key = "own-text-gsemode-hmm"
					}
					c.Violate(key, wit, "the document %q is not found by its own text %q, searched as %q (%s)", id, text, resp.Tokens, desc)
				}
				sig := ""
				if len(resp.Tokens) > 0 {
					sig = fmt.Sprint("own", i, id)
					c.Count("own_text", 1)
				}
				c.Case(sig, func() interface{} { return wit })
			}
			e.Close()
		}
	}}}}

// longContent is a text as long as the mode can bear.
func longContent(r *rnd, o types.EngineOpts) string {
	var b strings.Builder
	switch {
	case o.Using == 4, o.NotUseGse && o.Using == 0:
		for n := 100 + r.Intn(900); n > 0; n-- {
			fmt.Fprintf(&b, "w%d ", r.Intn(1000))
		}
	case o.Using == 6:
		for b.Len() < 60 {
			b.WriteString(eng.RandContent(r, true))
		}
	case o.Using == 3 || o.Using == 5:
		for n := 100 + r.Intn(900); b.Len() < n; {
			b.WriteString(eng.RandContent(r, true))
		}
	default:
		for n := 1000 << uint(r.Intn(8)); b.Len() < n; {
			b.WriteString(eng.RandContent(r, true))
			if r.Intn(9) == 0 {
				fmt.Fprintf(&b, "w%d", r.Intn(300))
			}
		}
	}
	return b.String()
}

// quiet keeps the dictionary loader from writing to standard output.
func quiet(f func()) { f() }
