package main

// SMT back ends: an incremental process for path feasibility and a portfolio
// of stand-alone runs for obligations.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Proved         // negation unsatisfiable
	Refuted        // model found
)

func (r Result) String() string { return [...]string{"unknown", "proved", "refuted"}[r] }

type Backend struct {
	Name string
	Cmd  string
	Args func(file string, ms int) []string
	Pre  string
}

var backends = []Backend{
	{"z3-new", "z3-new", func(f string, ms int) []string { return []string{fmt.Sprintf("-T:%d", ms/1000+1), f} }, ""},
	{"cvc5", "cvc5", func(f string, ms int) []string {
		return []string{"--strings-exp", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", ms), "-q", f}
	}, ""},
	{"z3", "z3", func(f string, ms int) []string { return []string{fmt.Sprintf("-T:%d", ms/1000+1), f} }, ""},
	{"cvc5-plain", "cvc5", func(f string, ms int) []string {
		return []string{"--strings-exp", fmt.Sprintf("--tlimit=%d", ms), "-q", f}
	}, ""},
}

type Stats struct {
	mu      sync.Mutex
	Queries int
	By      map[string]int
	Time    map[string]float64
	Feas    int
	FeasT   float64
	Inv     int
}

var stats = Stats{By: map[string]int{}, Time: map[string]float64{}}

var workDir string
var slots = make(chan struct{}, 8)
var fileN int
var fileMu sync.Mutex
var keepFiles = os.Getenv("GV_KEEP") != ""

func runBackend(ctx context.Context, b Backend, text string, ms int) (string, string) {
	select {
	case slots <- struct{}{}:
	case <-ctx.Done():
		return "cancelled", ""
	}
	defer func() { <-slots }()
	if ctx.Err() != nil {
		return "cancelled", ""
	}
	fileMu.Lock()
	fileN++
	fn := filepath.Join(workDir, fmt.Sprintf("q%d.smt2", fileN))
	fileMu.Unlock()
	if err := os.WriteFile(fn, []byte(text), 0o644); err != nil {
		return "error", err.Error()
	}
	if !keepFiles {
		defer os.Remove(fn)
	}
	t0 := time.Now()
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond+1500*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c2, b.Cmd, b.Args(fn, ms)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.WaitDelay = time.Second
	_ = cmd.Run()
	d := time.Since(t0).Seconds()
	stats.mu.Lock()
	stats.Time[b.Name] += d
	stats.mu.Unlock()
	s := out.String()
	first, rest, _ := strings.Cut(s, "\n")
	first = strings.TrimSpace(first)
	if keepFiles {
		os.WriteFile(fn+"."+b.Name+".out", []byte(s+fmt.Sprintf("\n; %.2fs", d)), 0o644)
	}
	return first, rest
}

// Query is a rendered obligation.
type Query struct {
	Text string
}

const smtHead = "(set-option :produce-models true)\n(set-logic ALL)\n"

// render makes a query whose unsatisfiability proves the goal.
func render(assumps []*Term, goal *Term) string {
	ts := append([]*Term{}, assumps...)
	ts = append(ts, Not(goal))
	return renderTerms(ts, true)
}

func renderTerms(ts []*Term, seqs bool) string {
	extra := unfoldAll(ts)
	ts = append(ts, extra...)
	if seqs {
		ts = append(ts, quantDefs(ts)...)
	}
	ts = append(ts, axiomsFor(ts)...)
	if seqs {
		ts = append(ts, seqAxioms(ts)...)
	}
	if absIndex {
		for i, t := range ts {
			ts[i] = absolute(t)
		}
	}
	var b strings.Builder
	b.WriteString(smtHead)
	p := NewPrinter(&b)
	p.prepare(ts...)
	for _, t := range ts {
		if t != True {
			b.WriteString("(assert " + p.expr(t) + ")\n")
		}
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

type Outcome struct {
	R       Result
	By      string
	Detail  string
	Elapsed float64
}

var memoQ = map[string]Outcome{}
var memoMu sync.Mutex

var quickMS, fullMS = 4000, 30000

// prove decides one rendered query. level 0: one quick run; 1: full portfolio.
func prove(text string, level int) Outcome { return proveMs(text, level, quickMS) }

func proveMs(text string, level int, quickMS int) Outcome {
	text = canonical(text)
	memoMu.Lock()
	if o, ok := memoQ[text]; ok && (o.R != Unknown || level == 0) {
		memoMu.Unlock()
		return o
	}
	memoMu.Unlock()
	t0 := time.Now()
	stats.mu.Lock()
	stats.Queries++
	stats.mu.Unlock()
	done := func(o Outcome) Outcome {
		o.Elapsed = time.Since(t0).Seconds()
		memoMu.Lock()
		memoQ[text] = o
		memoMu.Unlock()
		return o
	}
	r, det := runBackend(context.Background(), backends[0], text, quickMS)
	switch r {
	case "unsat":
		return done(Outcome{R: Proved, By: backends[0].Name})
	case "sat":
		return done(Outcome{R: Refuted, By: backends[0].Name})
	}
	last := backends[0].Name + ": " + r + " " + firstLine(det)
	if strings.HasPrefix(r, "(error") {
		last = backends[0].Name + ": " + r
	}
	if level == 0 {
		return done(Outcome{R: Unknown, Detail: last})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ b, r, d string }
	ch := make(chan res, len(backends))
	for _, b := range backends {
		go func(b Backend) {
			r, d := runBackend(ctx, b, text, fullMS)
			ch <- res{b.Name, r, d}
		}(b)
	}
	sat := ""
	for range backends {
		x := <-ch
		switch x.r {
		case "unsat":
			return done(Outcome{R: Proved, By: x.b})
		case "sat":
			sat = x.b
		default:
			last += "; " + x.b + ": " + x.r
		}
	}
	if sat != "" {
		return done(Outcome{R: Refuted, By: sat})
	}
	return done(Outcome{R: Unknown, Detail: last})
}

// staged proves an obligation, from few of the assumptions first.
func staged(q, q2, light string, level int) Outcome {
	for _, l := range strings.Split(light, "\x00") {
		if l != "" {
			if o := proveMs(l, 0, 1000); o.R == Proved {
				return o
			}
		}
	}
	if q2 != "" {
		if o := prove(q2, level); o.R == Proved {
			return o
		}
	}
	o := prove(q, level)
	if d := os.Getenv("GV_DUMP"); d != "" && o.R != Proved && level == 1 {
		fileMu.Lock()
		fileN++
		n := fileN
		fileMu.Unlock()
		for i, l := range append(strings.Split(light, "\x00"), q2, q) {
			os.WriteFile(fmt.Sprintf("%s/f%d_%d.smt2", d, n, i), []byte(l), 0o644)
		}
	}
	return o
}

var lightMemo = map[*Term][2]bool{}
var lightMu sync.Mutex

// traits: whether a term has quantifiers, and strings
func traits(t *Term) (bool, bool) {
	if r, ok := lightMemo[t]; ok {
		return r[0], r[1]
	}
	q := t.Op == "forall" || t.Op == "exists"
	s := t.Sort == SStr
	for _, a := range t.Args {
		aq, as := traits(a)
		q, s = q || aq, s || as
	}
	lightMemo[t] = [2]bool{q, s}
	return q, s
}

// lightSlice leaves out assumptions with quantifiers and, for a goal without
// strings, those with strings.
func lightSlice(pc []*Term, goal *Term) ([]*Term, bool) {
	lightMu.Lock()
	defer lightMu.Unlock()
	gq, gs := traits(goal)
	if gq {
		return nil, false
	}
	var out []*Term
	for _, t := range pc {
		q, s := traits(t)
		if q || s && !gs {
			continue
		}
		out = append(out, t)
	}
	return out, len(out) < len(pc)
}

func renderLight(pc []*Term, goal *Term) string {
	out := ""
	if l, ok := lightSlice(pc, goal); ok {
		out = render(l, goal)
	}
	if !noGround {
		out += "\x00" + renderGround(pc, goal)
	}
	return out
}

var noGround = os.Getenv("GV_NOGROUND") != ""

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	if len(l) > 160 {
		l = l[:160]
	}
	return l
}

// Inc is an incremental z3 process used for feasibility.
type Inc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	buf *strings.Builder
	p   *Printer
	n   int
}

func newInc(ms int) *Inc {
	cmd := exec.Command("z3-new", "-in")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	i := &Inc{cmd: cmd, in: in, out: bufio.NewReader(out), buf: &strings.Builder{}}
	i.p = NewPrinter(i.buf)
	i.buf.WriteString(fmt.Sprintf("(set-option :timeout %d)\n(set-logic ALL)\n", ms))
	return i
}

func (i *Inc) close() {
	i.in.Close()
	i.cmd.Process.Kill()
	i.cmd.Wait()
}

var feasMemo = map[string]string{}

// check returns "sat", "unsat" or "unknown" for the conjunction.
func (i *Inc) check(ts []*Term) string {
	t0 := time.Now()
	defer func() {
		stats.Feas++
		stats.FeasT += time.Since(t0).Seconds()
	}()
	i.p.prepare(ts...)
	i.buf.WriteString("(push)\n")
	for _, t := range ts {
		i.buf.WriteString("(assert " + i.p.expr(t) + ")\n")
	}
	i.buf.WriteString("(check-sat)\n(pop)\n")
	if _, err := io.WriteString(i.in, i.buf.String()); err != nil {
		return "unknown"
	}
	if os.Getenv("GV_FEASLOG") != "" {
		f, _ := os.OpenFile(os.Getenv("GV_FEASLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		f.WriteString(i.buf.String())
		f.Close()
	}
	i.buf.Reset()
	for {
		l, err := i.out.ReadString('\n')
		if err != nil {
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.HasPrefix(l, "(error") && !strings.Contains(l, "canceled") {
			fmt.Fprintln(os.Stderr, "feasibility solver:", l)
		}
	}
}

// canonical renames fresh variables in order of appearance, so that queries
// that differ only in them are recognised.
func canonical(s string) string {
	var b strings.Builder
	b.Grow(len(s))
	names := map[string]string{}
	cnt := map[string]int{}
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			j = min(j+1, len(s))
			b.WriteString(s[i:j])
			i = j
			continue
		}
		if c == '|' {
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			tok := s[i+1 : j]
			if k := strings.LastIndexAny(tok, "!?"); k > 0 && allDigits(tok[k+1:]) {
				n, ok := names[tok]
				if !ok {
					base := tok[:k+1]
					cnt[base]++
					n = fmt.Sprintf("%s%d", base, cnt[base])
					names[tok] = n
				}
				tok = n
			}
			b.WriteByte('|')
			b.WriteString(tok)
			b.WriteByte('|')
			i = j + 1
			continue
		}
		if c == '$' && i+1 < len(s) && s[i+1] == 't' {
			j := i + 2
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			tok := s[i:j]
			n, ok := names[tok]
			if !ok {
				cnt["$t"]++
				n = fmt.Sprintf("$t%d", cnt["$t"])
				names[tok] = n
			}
			b.WriteString(n)
			i = j
			continue
		}
		b.WriteByte(c)
		i++
	}
	return b.String()
}

func allDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

var absIndex = os.Getenv("GV_REL") == ""

var absMemo = map[*Term]*Term{}
var absMu sync.Mutex

// absolute rewrites quantifiers over positions in a slice to ones over
// positions in its array, whose patterns match whatever way an index is put
// together.
func absolute(t *Term) *Term {
	absMu.Lock()
	defer absMu.Unlock()
	return absRec(t)
}

func absRec(t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := absMemo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = absRec(a)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	if (r.Op == "forall" || r.Op == "exists") && len(r.Pats) == 0 {
		for _, v := range r.Bnd {
			if v.Sort != SInt {
				continue
			}
			if off := offsetOf(r.Args[0], v, r.Bnd); off != nil {
				j := FreshB("at", SInt)
				body := Subst(r.Args[0], map[*Term]*Term{v: Sub(j, off)})
				bnd := append([]*Term{}, r.Bnd...)
				for i := range bnd {
					if bnd[i] == v {
						bnd[i] = j
					}
				}
				r = quant(r.Op, bnd, body, nil)
				if r.Op != t.Op {
					break
				}
			}
		}
	}
	absMemo[t] = r
	return r
}

// offsetOf finds what is added to a bound variable to index an array.
func offsetOf(t, v *Term, bnd []*Term) *Term {
	seen := map[*Term]bool{}
	var out *Term
	var mentions func(u *Term) bool
	mentions = func(u *Term) bool {
		if !u.fv {
			return false
		}
		if u.Op == "bvar" {
			return true
		}
		for _, a := range u.Args {
			if mentions(a) {
				return true
			}
		}
		return false
	}
	bare := false
	var rec func(u *Term)
	rec = func(u *Term) {
		if seen[u] || !u.fv {
			return
		}
		seen[u] = true
		if u.Op == "select" {
			i := u.Args[1]
			if i == v {
				bare = true
			}
			if i.Op == "+" && len(i.Args) == 2 && out == nil {
				if i.Args[0] == v && !mentions(i.Args[1]) {
					out = i.Args[1]
				} else if i.Args[1] == v && !mentions(i.Args[0]) {
					out = i.Args[0]
				}
			}
		}
		for _, a := range u.Args {
			rec(a)
		}
	}
	rec(t)
	if bare {
		return nil
	}
	return out
}
