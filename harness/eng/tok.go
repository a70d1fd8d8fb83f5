package eng

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gpy"
	"github.com/go-ego/gpy/phrase"
	"github.com/go-ego/gse"
	"github.com/go-ego/riot/types"

	"verif/harness/h"
)

var DictWords = []string{"世界", "有", "七", "十", "亿", "七十亿", "人口", "中国", "人", "口", "国", "中", "界", "世",
	"东京", "东京都", "京都", "都", "上海", "上海外滩", "外滩", "hello", "world", "new", "york",
	"重庆", "银行", "长城", "音乐"} // words whose characters sound otherwise alone

var StopWords = []string{"有", "the", "人", ",", "hello world", "中国人", "十"}

func WriteDict(dir string) (dict, stop string) {
	var d, s strings.Builder
	for i, w := range DictWords {
		fmt.Fprintf(&d, "%s %d n\n", w, 20+i%7*9)
	}
	for _, w := range StopWords {
		fmt.Fprintf(&s, "%s\n\n", w)
	}
	dict, stop = filepath.Join(dir, "dict.txt"), filepath.Join(dir, "stop.txt")
	h.Must(os.WriteFile(dict, []byte(d.String()), 0o644))
	h.Must(os.WriteFile(stop, []byte(s.String()), 0o644))
	return
}

func RandContent(r *rand.Rand, latin bool) string {
	pieces := []string{"世界", "有", "七十亿", "人口", "中国", "人", "中国人", "东京都", "上海外滩", "都", "京", "重庆", "长城", "音乐"}
	if latin {
		pieces = append(pieces, "Hello", "the", " ", " ", "  ", "World", "new york", ",", "，", "x9", "É", "日本語", "École", "Привет", "thehello", "Ａ股", "É\xffЖ", "\xe4\xb8")
	}
	var b strings.Builder
	for n := r.Intn(7); n > 0; n-- {
		b.WriteString(pieces[r.Intn(len(pieces))])
		if latin && r.Intn(3) == 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}

// TokModel is the documented tokenization.
type TokModel struct {
	O     types.EngineOpts
	Seg   *gse.Segmenter
	Stops map[string]bool
}

// lower is the text in lower case with every character at its place: one whose
// small letter takes another number of bytes stays.
func lower(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if l := strings.ToLower(string(c)); n > 1 && len(l) == n || c < 0x80 {
			b.WriteString(l)
		} else {
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

func (m *TokModel) segs(content string, keys map[string][]int) int {
	segs := m.Seg.ModeSegment([]byte(lower(content)), m.O.GseMode)
	for _, s := range segs {
		if t := s.Token().Text(); !m.Stops[t] {
			keys[t] = append(keys[t], s.Start())
		}
	}
	return len(segs)
}

// split gives the keys of the splitting modes: every piece and every
// concatenation from the start; and with combination every substring of
// pieces. They are located by their running number, which is returned.
func (m *TokModel) split(ps []string, comb bool, keys map[string][]int) int {
	n, at := 0, map[string][]int{}
	add := func(k string) {
		if !m.Stops[k] {
			n++
			at[k] = append(at[k], n)
		}
	}
	acc := ""
	for i, p := range ps {
		if p == "" {
			continue
		}
		acc += p
		add(p)
		add(acc)
		if comb {
			s := ""
			for _, x := range ps[i+1:] {
				s += x
				add(s)
			}
		}
	}
	for k, l := range at { // a piece goes before a word of the segmenter
		keys[k] = l
	}
	return n
}

// KeysOf gives the keys of a document with their locations (nil when these are
// not specified).
func (m *TokModel) KeysOf(d types.DocData) map[string][]int {
	keys, _ := m.KeysLen(d)
	return keys
}

// KeysLen also gives the number of tokens of the document.
func (m *TokModel) KeysLen(d types.DocData) (map[string][]int, int) {
	keys := map[string][]int{}
	n := 0
	o := m.O
	tokens := func() {
		for _, t := range d.Tokens {
			if !m.Stops[t.Text] {
				keys[t.Text] = t.Locations
			}
		}
		n += len(d.Tokens)
	}
	low := strings.ToLower(d.Content)
	has := d.Content != ""
	switch {
	case o.NotUseGse && o.Using == 0:
		n += m.split(strings.Split(low, " "), false, keys)
		tokens()
	case o.Using == 0:
		if has {
			n += m.segs(d.Content, keys)
		}
		tokens()
	case o.Using == 1:
		if has {
			n += m.segs(d.Content, keys)
		} else {
			tokens()
		}
	case o.Using == 2:
		tokens()
	case o.Using == 4:
		n += m.split(strings.Split(low, " "), false, keys)
		tokens()
	default:
		if has && o.Using == 3 {
			n += m.segs(low, keys)
		}
		n += m.split(strings.Split(low, ""), o.Using == 6, keys)
		tokens()
	}
	if o.PinYin {
		ks := m.pinyin(d.Content)
		n += len(ks)
		for i, k := range ks {
			if m.Stops[k] {
				continue
			}
			if keys[k] = []int{i}; o.UsePhrase {
				keys[k] = nil
			}
		}
	}
	for _, l := range d.Labels {
		if _, ok := keys[l]; !ok && !m.Stops[l] {
			keys[l] = []int{}
		}
	}
	return keys, n
}

func (m *TokModel) pinyin(s string) []string {
	if m.O.UsePhrase {
		return phrase.Pinyin(s, *m.Seg)
	}
	var out []string
	add := func(k string) {
		if !m.Stops[k] {
			out = append(out, k)
		}
	}
	acc := ""
	for _, p := range strings.Split(s, "") {
		acc += p
		add(p)
		add(acc)
	}
	if !m.O.NotUseGse {
		for _, k := range m.cut(s) {
			add(k)
		}
	}
	full, init := "", ""
	for _, p := range gpy.LazyConvert(s, nil) {
		full += p
		add(full)
		if p != "" {
			init += p[:1]
			add(init)
		}
	}
	return out
}

func (m *TokModel) cut(s string) []string {
	var out, ts []string
	if m.O.GseMode {
		ts = m.Seg.CutSearch(s, m.O.Hmm)
	} else {
		ts = m.Seg.Cut(s, m.O.Hmm)
	}
	for _, t := range ts {
		if !m.Stops[t] {
			out = append(out, t)
		}
	}
	return out
}

// query gives the tokens a search text stands for.
func (m *TokModel) QueryOf(text string, tokens []string) []string {
	var out []string
	if text != "" {
		low := strings.ToLower(text)
		if m.O.NotUseGse {
			for _, p := range strings.Split(low, " ") {
				if p != "" {
					out = append(out, p)
				}
			}
		} else if m.O.GseMode || m.O.Hmm {
			out = m.cut(low)
		} else { // the words of a document with this text
			for _, s := range m.Seg.ModeSegment([]byte(low), false) {
				if t := s.Token().Text(); !m.Stops[t] {
					out = append(out, t)
				}
			}
		}
	}
	return append(out, tokens...)
}
