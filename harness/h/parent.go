package h

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"
)

// Known findings: lines "KNOWN-FINDING: property=<id> key=<key> <what fails>"
// in /verif/KNOWN_FINDINGS.txt suppress violations with exactly that property
// and key; "fixed:" lines suppress nothing.
var (
	knownOnce sync.Once
	known     map[string]string
)

func loadKnown() {
	known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			known[m[1]+" "+m[2]] = m[3]
		}
	}
}

func knownKey(prop, key string) bool {
	knownOnce.Do(loadKnown)
	_, ok := known[prop+" "+key]
	return ok
}

// Main runs the property named on the command line.
func Main(props []*Prop) {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness <property>")
		os.Exit(2)
	}
	for _, p := range props {
		if p.ID == os.Args[1] {
			if name := os.Getenv("VERIF_PART"); name != "" {
				for i := range p.Parts {
					if p.Parts[i].Name == name {
						childMain(p, &p.Parts[i])
					}
				}
				os.Exit(77)
			}
			os.Exit(parentMain(p))
		}
	}
	fmt.Println("no such property:", os.Args[1])
	os.Exit(2)
}

type outcome struct {
	res      Result
	inconcl  string
	stderr   string
	wall     float64
	exitDesc string
}

func parentMain(p *Prop) int {
	scratch, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	budget := 400 * time.Second
	if tier() == "thorough" {
		budget = 3600 * time.Second
	}
	par := 4
	if v, err := strconv.Atoi(os.Getenv("VERIF_PAR")); err == nil && v > 0 {
		par = v
	}
	only := os.Getenv("VERIF_ONLY")
	outs := make([]outcome, len(p.Parts))
	Workers(len(p.Parts), par, func(i int) {
		if only != "" && p.Parts[i].Name != only {
			return
		}
		dir := filepath.Join(scratch, fmt.Sprint("p", i))
		os.MkdirAll(dir, 0o755)
		outs[i] = runChild(p, &p.Parts[i], dir, budget)
	})

	cov := map[string]interface{}{}
	distinct := map[string]bool{}
	evals := 0
	var samples []interface{}
	counts := map[string]int64{}
	var viols []Viol
	knownSeen := map[string]Viol{}
	inconcl := ""
	perPart := map[string]interface{}{}
	for i, o := range outs {
		name := p.Parts[i].Name
		if only != "" && name != only {
			continue
		}
		evals += o.res.Evaluations
		for _, d := range o.res.Distinct {
			distinct[fmt.Sprint(name, "/", d)] = true
		}
		if len(o.res.Samples) > 0 && len(samples) < 6 {
			for _, s := range o.res.Samples[:min(2, len(o.res.Samples))] {
				samples = append(samples, map[string]interface{}{"part": name, "case": s})
			}
		}
		for k, v := range o.res.Counts {
			counts[name+"."+k] = v
		}
		perPart[name] = map[string]interface{}{"evaluations": o.res.Evaluations,
			"distinct": len(o.res.Distinct), "wall_s": o.wall}
		for _, v := range o.res.Violations {
			v.Msg = "[" + name + "] " + v.Msg
			if knownKey(p.ID, v.Key) {
				if _, ok := knownSeen[v.Key]; !ok {
					knownSeen[v.Key] = v
				}
				continue
			}
			viols = append(viols, v)
		}
		if o.inconcl != "" {
			inconcl += "[" + name + "] " + o.inconcl + "; "
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println(tail(o.stderr, 4000))
			}
		}
	}
	cov["evaluations"] = evals
	cov["distinct_nontrivial"] = len(distinct)
	cov["rule"] = p.Rule
	if samples == nil {
		samples = []interface{}{}
	}
	cov["samples"] = samples
	cov["observed"] = counts
	cov["parts"] = perPart
	if len(knownSeen) > 0 {
		ks := []string{}
		for k := range knownSeen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_seen"] = ks
	}
	if inconcl != "" {
		cov["inconclusive"] = inconcl
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": p.ID, "tier": tier(), "seed": seed,
		"level": p.Level, "coverage": cov, "assumptions": p.Assumptions,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(viols)}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	edir := filepath.Join(os.Getenv("VERIF_DIR"), "evidence")
	os.MkdirAll(edir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(edir, p.ID+".json"), append(b, '\n'), 0o644)

	for _, k := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, known[p.ID+" "+k], clip(oneLine(knownSeen[k].Msg), 400))
	}
	replay := filepath.Join("evidence", p.ID+".replay.json")
	if len(viols) > 0 {
		rb, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID,
			"seed": seed, "tier": tier(), "violations": viols}, "", " ")
		os.WriteFile(filepath.Join(os.Getenv("VERIF_DIR"), replay), rb, 0o644)
		for i, v := range viols {
			if i < 5 {
				fmt.Printf("violation: [%s] %s\n", v.Key, clip(oneLine(v.Msg), 600))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
		return 1
	}
	os.Remove(filepath.Join(os.Getenv("VERIF_DIR"), replay))
	if inconcl != "" {
		fmt.Println("INCONCLUSIVE:", oneLine(inconcl))
		return 3
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n",
		p.ID, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

func sortedKeys(m map[string]Viol) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// what is printed is valid UTF-8 without control characters, whatever texts
// the documents of a violation held
func oneLine(s string) string {
	s = strings.ReplaceAll(strings.ToValidUTF8(s, "?"), "\n", " | ")
	return strings.Map(func(r rune) rune {
		if unicode.IsControl(r) || r == 0x2028 || r == 0x2029 {
			return ' '
		}
		return r
	}, s)
}
func clip(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return strings.ToValidUTF8(s, "?")
}

// head-and-tail bounded capture of a child's stderr
type capture struct {
	mu   sync.Mutex
	head bytes.Buffer
	tail []byte
	race []string
	cur  *bytes.Buffer
	line bytes.Buffer
}

const capMax = 1 << 20

func (w *capture) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.head.Len() < capMax {
		w.head.Write(p)
	} else {
		w.tail = append(w.tail, p...)
		if len(w.tail) > 2*capMax {
			w.tail = append([]byte{}, w.tail[len(w.tail)-capMax:]...)
		}
	}
	for _, b := range p {
		w.line.WriteByte(b)
		if b == '\n' {
			l := w.line.String()
			w.line.Reset()
			if strings.HasPrefix(l, "WARNING: DATA RACE") {
				w.cur = &bytes.Buffer{}
			}
			if w.cur != nil {
				if strings.HasPrefix(l, "==================") {
					if len(w.race) < 200 {
						w.race = append(w.race, w.cur.String())
					}
					w.cur = nil
				} else if w.cur.Len() < 20000 {
					w.cur.WriteString(l)
				}
			}
		}
	}
	return len(p), nil
}

func (w *capture) String() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.head.String() + string(w.tail)
}

var crashRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|SIGSEGV.*|unexpected fault address.*)$`)

func runChild(p *Prop, part *Part, dir string, budget time.Duration) (o outcome) {
	t0 := time.Now()
	out := filepath.Join(dir, "result.json")
	work := filepath.Join(dir, "w")
	os.MkdirAll(work, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self, p.ID)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "VERIF_PART="+part.Name, "VERIF_OUT="+out,
		"VERIF_SCRATCH="+work, "GORACE=halt_on_error=0 exitcode=0 history_size=3",
		"GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, part.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var capt capture
	cmd.Stderr = &capt
	cmd.Stdout = io.Discard
	err := cmd.Run()
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	o.wall = time.Since(t0).Seconds()
	o.stderr = capt.String()
	if os.Getenv("VERIF_DEBUG") != "" {
		os.WriteFile(fmt.Sprintf("/tmp/verif-debug-%s-%s.log", p.ID, part.Name), []byte(o.stderr), 0o644)
	}
	if b, e := os.ReadFile(out); e == nil {
		json.Unmarshal(b, &o.res)
	}
	o.res.Part = part.Name
	if o.res.Counts == nil {
		o.res.Counts = map[string]int64{}
	}
	if part.Race {
		o.res.Counts["race_reports"] = int64(len(capt.race))
		seen := map[string]bool{}
		for _, r := range capt.race {
			key := raceKey(r)
			if key == "" || seen[key] {
				continue
			}
			seen[key] = true
			o.res.Violations = append(o.res.Violations, Viol{Key: "race:" + key,
				Msg: "data race: " + key, Detail: r})
		}
	}
	if ctx.Err() != nil {
		o.inconcl = fmt.Sprintf("time limit %v reached without an answer", budget)
		return
	}
	if err == nil && (o.res.Done || len(o.res.Violations) > 0) {
		return
	}
	if len(o.res.Violations) > 0 {
		return
	}
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() &&
			ws.Signal() == syscall.SIGKILL {
			o.inconcl = "the child was killed from outside"
			return
		}
	}
	if code == 77 {
		o.inconcl = "harness error: " + tail(o.stderr, 500)
		return
	}
	// The process died under the workload: a panic, a fatal runtime error, or
	// log.Fatal inside the library.
	msg := "process exited " + strconv.Itoa(code)
	if m := crashRe.FindString(o.stderr); m != "" {
		msg = m
	} else {
		ls := strings.Split(strings.TrimSpace(o.stderr), "\n")
		msg += ": " + clip(ls[len(ls)-1], 300)
	}
	o.res.Violations = append(o.res.Violations, Viol{Key: "crash",
		Msg: "the process under test crashed: " + msg, Detail: clip(crashPart(o.stderr), 20000)})
	return
}

func crashPart(s string) string {
	if loc := crashRe.FindStringIndex(s); loc != nil {
		return s[loc[0]:]
	}
	return tail(s, 4000)
}

var frameRe = regexp.MustCompile(`(?m)^  (\S+)\(`)

// raceKey names a race by its first frames inside the repository; reports
// that do not touch it are not its races.
func raceKey(r string) string {
	var ks []string
	for _, blk := range strings.Split(r, "\n\n") {
		if !(strings.Contains(blk, "Write at") || strings.Contains(blk, "Read at") ||
			strings.Contains(blk, "Previous write") || strings.Contains(blk, "Previous read") ||
			strings.Contains(blk, "revious atomic")) {
			continue
		}
		for _, m := range frameRe.FindAllStringSubmatch(blk, -1) {
			if strings.Contains(m[1], "go-ego/riot") {
				ks = append(ks, m[1][strings.LastIndex(m[1], "/")+1:])
				break
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}
