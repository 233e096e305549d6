package main

// Loops: write sets by probing, invariants by Houdini over contract-given and
// automatic candidates, cut at the header.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	fn    *ssa.Function
	hdr   *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	back  []*ssa.BasicBlock
	index int
}

var loopMemo = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := loopMemo[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := m[s]
				if lp == nil {
					lp = &Loop{fn: fn, hdr: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = lp
				}
				lp.back = append(lp.back, b)
				var add func(b *ssa.BasicBlock)
				add = func(b *ssa.BasicBlock) {
					if lp.body[b] {
						return
					}
					lp.body[b] = true
					for _, p := range b.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	// irreducible control flow isn't produced by Go sources without goto
	var hs []int
	for h := range m {
		hs = append(hs, h.Index)
	}
	sort.Ints(hs)
	for h, lp := range m {
		for i, k := range hs {
			if k == h.Index {
				lp.index = i
			}
		}
	}
	loopMemo[fn] = m
	return m
}

func loopAt(b *ssa.BasicBlock) *Loop { return loopsOf(b.Parent())[b] }

func popLoopCtx(cs []*WCtx, lp *Loop) []*WCtx { return cs }

type loopSets struct {
	cells map[*Cell]bool
	iters map[*Cell]*ssa.Range
	locs  map[string][]Loc
	whole map[string]bool
	evs   bool
	addrs map[string]*Addr // places behind locs, by address term
}

func rootCell(fr *Frame, v ssa.Value) *Cell {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.Alloc:
			if p, ok := fr.env[a].(VPtr); ok && p.A.Kind == ALocal {
				return p.A.Cell
			}
			return nil
		default:
			return nil
		}
	}
}

func (x *Exec) staticCells(fr *Frame, lp *Loop) (map[*Cell]bool, map[*Cell]*ssa.Range) {
	cells := map[*Cell]bool{}
	iters := map[*Cell]*ssa.Range{}
	for b := range lp.body {
		for _, ins := range b.Instrs {
			switch s := ins.(type) {
			case *ssa.Store:
				if c := rootCell(fr, s.Addr); c != nil {
					if a, ok := rootAlloc(s.Addr); ok && lp.body[a.Block()] {
						continue
					}
					cells[c] = true
				}
			case *ssa.Next:
				if v, ok := fr.env[s.Iter].(VTuple); ok {
					if R, ok := s.Iter.(*ssa.Range); ok && !lp.body[R.Block()] {
						iters[v[0].(VIter).cell] = R
					}
				}
			}
		}
	}
	return cells, iters
}

func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.Alloc:
			return a, true
		default:
			return nil, false
		}
	}
}

func (x *Exec) havocLoop(fr *Frame, s *State, ls *loopSets) {
	s.havocWm()
	for _, c := range sortedCells(ls.cells) {
		if strings.Contains(c.T.String(), "deferStack") {
			continue
		}
		v := freshValue(c.name, c.T)
		s.cells[c] = v
		s.facts(v, c.T, s.wm)
	}
	for c, R := range ls.iters {
		it := fr.env[R].(VTuple)
		if mt, ok := R.X.Type().Underlying().(*types.Map); ok {
			s.cells[c] = VS{Fresh("visited", ArrSort(mapKeySort(mt), SBool))}
			continue
		}
		p := Fresh("pos", SInt)
		s.cells[c] = VS{p}
		s.assume(And(Le(Int(0), p), Le(p, StrLen(it[1].(VS).T))))
	}
	for _, k := range sortedKeys(ls.whole) {
		s.heap[k] = Fresh("loop:"+k, compSorts[k])
	}
	for _, k := range sortedKeys(ls.locs) {
		if ls.whole[k] {
			continue
		}
		srt := compSorts[k]
		if strings.HasPrefix(k, "G:") {
			s.heap[k] = Fresh("loop:"+k, srt)
			continue
		}
		t := s.get(k, srt)
		_, ev := arrParts(srt)
		for _, l := range ls.locs[k] {
			t = Store(t, l.Ref, Fresh("loop:"+k, ev))
		}
		s.heap[k] = t
	}
	if ls.evs {
		s.events = append(s.events, &Event{Kind: "loop", Name: "loop"})
	}
}

func sortedCells(m map[*Cell]bool) []*Cell {
	var out []*Cell
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// stable: the term mentions nothing made after the marker.
func stableTerm(t *Term, marker int) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		if t.Op == "var" && t.id >= marker && !strings.HasPrefix(t.S, "H0:") {
			return false
		}
		for _, a := range t.Args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func (c *WCtx) probeWrite(comp string, ref *Term) {
	if c.whole[comp] {
		return
	}
	if ref == nil {
		if c.locs[comp] == nil {
			c.locs[comp] = []Loc{{}}
			c.changed = true
		}
		return
	}
	if stableTerm(ref, c.marker) {
		c.addLoc(comp, ref)
		return
	}
	if !c.onUnst(comp, ref) {
		c.whole[comp] = true
		c.changed = true
	}
}

func (c *WCtx) addLoc(comp string, ref *Term) {
	for _, l := range c.locs[comp] {
		if l.Ref == ref {
			return
		}
	}
	c.locs[comp] = append(c.locs[comp], Loc{Ref: ref})
	c.changed = true
}

type cand struct {
	name   string
	user   bool
	eval   func(fr *Frame, st *State) *Term
	alive  bool
	why    string
	entryQ []Outcome
}

var traceLoops = os.Getenv("GV_LOOPS") != ""

// runBody executes the loop body from its header until the back edges.
func (x *Exec) runBody(fr *Frame, lp *Loop, from *ssa.BasicBlock, s *State, onBack func(fr *Frame, st *State)) {
	f2 := fr.clone()
	f2.active = append(f2.active, &LoopCtx{lp: lp, collect: true, onBack: onBack})
	x.silent++
	defer func() { x.silent-- }()
	sv := append([]*ssa.Function{}, x.stack...)
	x.enterBlock(f2, from, lp.hdr, s)
	x.stack = sv
}

func (x *Exec) loop(fr *Frame, lp *Loop, from *ssa.BasicBlock, st *State) {
	for _, ins := range lp.hdr.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			unsupp("phi at a loop header")
		}
	}
	ls := &loopSets{locs: map[string][]Loc{}, whole: map[string]bool{}, addrs: map[string]*Addr{}}
	ls.cells, ls.iters = x.staticCells(fr, lp)
	marker := len(termList)
	entry := st.clone()
	unstTried := map[string]bool{}
	// write set
	for round := 0; ; round++ {
		if round > 12 {
			unsupp("%s: the write set of a loop doesn't stabilise", fnName(fr.fn))
		}
		s := entry.clone()
		x.havocLoop(fr, s, ls)
		ctx := &WCtx{name: "loop", wm: entry.wm, locs: ls.locs, whole: ls.whole, probe: true, marker: marker}
		ctx.onUnst = func(comp string, ref *Term) bool {
			if unstTried[comp] {
				return true
			}
			unstTried[comp] = true
			for _, r := range x.entryRefs(entry, ls, comp) {
				ctx.addLoc(comp, r)
			}
			ctx.changed = true
			return true
		}
		s.ctxs = append(s.ctxs[:len(s.ctxs):len(s.ctxs)], ctx)
		nev := len(s.events)
		x.runBody(fr, lp, from, s, func(_ *Frame, b *State) {
			if len(b.events) > nev && !ls.evs {
				ls.evs = true
				ctx.changed = true
			}
		})
		if !ctx.changed {
			break
		}
	}
	// a second chance for components with unstable writes: new entry refs may
	// have come in
	for comp := range unstTried {
		c := &WCtx{locs: ls.locs, whole: ls.whole}
		for _, r := range x.entryRefs(entry, ls, comp) {
			c.addLoc(comp, r)
		}
	}
	cands := x.candidates(fr, lp, entry, ls)
	probing := false
	for _, c := range entry.ctxs {
		if c.probe {
			probing = true
		}
	}
	// entry
	type job struct {
		c     *cand
		q, q2, light string
	}
	var jobs []job
	for _, c := range cands {
		t := c.evalSafe(fr, entry)
		if t == nil {
			c.alive = false
			continue
		}
		switch entry.quickTruth(t) {
		case 1:
			continue
		case -1:
			c.alive = false
			c.why = "not established"
			continue
		}
		j := job{c: c, q: render(entry.pc, t)}
		if pc2, ok := sliced(entry.pc, c.name); ok {
			j.q2 = render(pc2, t)
		}
		j.light = renderLight(entry.pc, t)
		jobs = append(jobs, j)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lv := 0
			if j.c.user && !probing {
				lv = 1
			}
			if staged(j.q, j.q2, j.light, lv).R != Proved {
				mu.Lock()
				j.c.alive = false
				j.c.why = "not established"
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	// preservation
	npres := 0
	for round := 0; ; round++ {
		if round > 40 {
			unsupp("%s: invariants don't stabilise", fnName(fr.fn))
		}
		s := entry.clone()
		x.havocLoop(fr, s, ls)
		for _, c := range cands {
			if c.alive {
				if t := c.evalSafe(fr, s); t != nil {
					s.assumeAs(t, c.name)
				} else {
					c.alive = false
				}
			}
		}
		failed := ""
		ctx := &WCtx{name: "loop", wm: entry.wm, locs: ls.locs, whole: ls.whole}
		ctx.fail = func(comp string) { failed = comp }
		s.ctxs = append(s.ctxs[:len(s.ctxs):len(s.ctxs)], ctx)
		type bk struct {
			fr *Frame
			st *State
		}
		var backs []bk
		x.runBody(fr, lp, from, s, func(f *Frame, b *State) {
			backs = append(backs, bk{f, b})
		})
		if failed != "" {
			ls.whole[failed] = true
			// invariants that were dropped may still hold, those kept are rechecked
			if traceLoops {
				fmt.Fprintf(os.Stderr, "  loop %s#%d: whole %s\n", fnName(fr.fn), lp.index, failed)
			}
			continue
		}
		dropped := false
		var wg sync.WaitGroup
		npres = 0
		for _, b := range backs {
			for _, c := range cands {
				if !c.alive {
					continue
				}
				t := c.evalSafe(b.fr, b.st)
				if t == nil {
					c.alive = false
					dropped = true
					continue
				}
				npres++
				switch b.st.quickTruth(t) {
				case 1:
					continue
				case -1:
					if x.feasible(b.st) {
						c.alive, dropped = false, true
						c.why = "not preserved"
						continue
					}
				}
				q, q2 := render(b.st.pc, t), ""
				if pc2, ok := sliced(b.st.pc, c.name); ok {
					q2 = render(pc2, t)
				}
				light := renderLight(b.st.pc, t)
				wg.Add(1)
				go func() {
					defer wg.Done()
					mu.Lock()
					al := c.alive
					mu.Unlock()
					if !al {
						return
					}
					lv := 0
					if c.user && !probing {
						lv = 1
					}
					t0 := time.Now()
					defer func() {
						if d := time.Since(t0); traceLoops && d > 3*time.Second {
							fmt.Fprintf(os.Stderr, "    slow %s: %.1fs\n", c.name, d.Seconds())
						}
					}()
					if o := staged(q, q2, light, lv); o.R != Proved {
						mu.Lock()
						c.alive = false
						dropped = true
						c.why = "not preserved (" + o.R.String() + ") " + strings.Join(tail(b.st.trace, 6), ", ")
						mu.Unlock()
					}
				}()
			}
		}
		wg.Wait()
		if !dropped {
			break
		}
	}
	if traceLoops {
		fmt.Fprintf(os.Stderr, "  loop %s#%d (%s):\n", fnName(fr.fn), lp.index, lp.hdr.Comment)
		for _, c := range cands {
			if c.alive || c.user {
				fmt.Fprintf(os.Stderr, "    %v %s %s\n", c.alive, c.name, c.why)
			}
		}
		for _, k := range sortedKeys(ls.locs) {
			fmt.Fprintf(os.Stderr, "    writes %s at %v whole=%v\n", k, ls.locs[k], ls.whole[k])
		}
	}
	s := entry.clone()
	x.havocLoop(fr, s, ls)
	n := 0
	for _, c := range cands {
		if c.alive {
			if t := c.evalSafe(fr, s); t != nil {
				s.assumeAs(t, c.name)
			}
			n++
		} else if c.user && x.silent == 0 {
			x.dropped = append(x.dropped, fmt.Sprintf("%s loop %d: %s: %s", fnName(fr.fn), lp.index, c.name, c.why))
		}
	}
	if x.silent == 0 {
		o := &Obl{Fn: x.curName(), Kind: "invariant", Label: fmt.Sprintf("loop %d of %s: %d invariants established and preserved", lp.index, fnName(fr.fn), n), Goal: True, done: make(chan struct{}), Out: Outcome{R: Proved, By: "houdini"}}
		if x.cur != nil {
			o.Props = x.cur.Props
		}
		close(o.done)
		x.obs = append(x.obs, o)
		stats.mu.Lock()
		stats.Inv += n
		stats.mu.Unlock()
		if x.cur != nil && x.cur.terminates {
			x.termination(fr, lp, from, s.clone(), entry, ls)
		}
	}
	f2 := fr.clone()
	f2.active = append(f2.active, &LoopCtx{lp: lp, onBack: func(*Frame, *State) {}})
	s.note("%s: loop", x.pos(firstPos(lp.hdr)))
	x.enterBlock(f2, from, lp.hdr, s)
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func (c *cand) evalSafe(fr *Frame, st *State) (t *Term) {
	if !c.alive {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupp); ok {
				c.why = u.Msg
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(fr, st)
}

// entryRefs: references at the loop entry that an unstable write to a
// component could go to.
func (x *Exec) entryRefs(entry *State, ls *loopSets, comp string) []*Term {
	var out []*Term
	add := func(t *Term) {
		if t.Op == "int" {
			return
		}
		for _, o := range out {
			if o == t {
				return
			}
		}
		out = append(out, t)
	}
	var fromVal func(v Value, T types.Type)
	fromVal = func(v Value, T types.Type) {
		switch y := v.(type) {
		case VSlice:
			E := T.Underlying().(*types.Slice).Elem()
			if strings.HasPrefix(comp, "E:"+typeName(E)) {
				add(y.Ref)
			}
		case VPtr:
			if strings.HasPrefix(comp, "F:") && y.A.Kind == AObj && len(y.A.Path) == 0 {
				k, _ := objKey(y.A.Base, nil)
				if strings.HasPrefix(comp, "F:"+typeName(k)+".") {
					add(y.A.Ref)
				}
			}
		case VS:
			if _, ok := T.Underlying().(*types.Map); ok && strings.HasPrefix(comp, "M:"+typeName(T)) {
				add(y.T)
			}
		case VStruct:
			u := T.Underlying().(*types.Struct)
			for i, f := range y.F {
				fromVal(f, u.Field(i).Type())
			}
		}
	}
	for _, c := range sortedCells(ls.cells) {
		if v, ok := entry.cells[c]; ok {
			fromVal(v, c.T)
		}
	}
	if strings.HasPrefix(comp, "E:") {
		for _, k := range sortedKeys(ls.locs) {
			if !strings.HasSuffix(k, "#ref") {
				continue
			}
			for _, l := range ls.locs[k] {
				t := entry.get(k, compSorts[k])
				if l.Ref == nil {
					add(t)
				} else if strings.HasPrefix(string(compSorts[k]), "(Array Int Int") {
					add(Select(t, l.Ref))
				}
			}
		}
	}
	return out
}

// findVar finds the variable with the name that is visible at the loop.
func findVar(fr *Frame, lp *Loop, name string, T types.Type) *ssa.Alloc {
	var best *ssa.Alloc
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			a, ok := ins.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			if _, ok := fr.env[a]; !ok {
				continue
			}
			if !b.Dominates(lp.hdr) || lp.body[b] && b != lp.hdr {
				continue
			}
			if lp.body[b] {
				continue
			}
			if T != nil && !types.Identical(derefType(a.Type()), T) {
				continue
			}
			if best == nil || best.Block().Dominates(b) {
				best = a
			}
		}
	}
	return best
}

func (x *Exec) candidates(fr *Frame, lp *Loop, entry *State, ls *loopSets) []*cand {
	var out []*cand
	add := func(name string, user bool, f func(fr *Frame, st *State) *Term) {
		if !user && x.cur != nil && x.cur.manual {
			return
		}
		out = append(out, &cand{name: name, user: user, alive: true, eval: f})
	}
	// contract-given
	for _, c := range x.contractsFor(fr) {
		x.userInvariants(c, fr, lp, entry, add)
	}
	// bounds known at the entry
	type bound struct {
		n string
		t *Term
	}
	var bounds []bound
	addB := func(n string, t *Term) {
		for _, b := range bounds {
			if b.t == t {
				return
			}
		}
		bounds = append(bounds, bound{n, t})
	}
	for _, b := range fr.fn.Blocks {
		if !b.Dominates(lp.hdr) || lp.body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			a, ok := ins.(*ssa.Alloc)
			if !ok {
				continue
			}
			p, ok := fr.env[a].(VPtr)
			if !ok || p.A.Kind != ALocal || ls.cells[p.A.Cell] {
				continue
			}
			switch v := entry.cells[p.A.Cell].(type) {
			case VS:
				if v.T.Sort == SInt && isInteger(p.A.Cell.T) {
					addB(a.Comment, v.T)
				} else if v.T.Sort == SStr {
					addB("len("+a.Comment+")", StrLen(v.T))
				}
			case VSlice:
				addB("len("+a.Comment+")", v.Len)
			}
		}
	}
	for _, ins := range lp.hdr.Instrs {
		if bo, ok := ins.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if v, ok := fr.env[o].(VS); ok && v.T.Sort == SInt {
					if i, ok := o.(ssa.Instruction); ok && !lp.body[i.Block()] {
						addB("bound", v.T)
					}
				}
			}
		}
	}
	if len(bounds) > 6 {
		bounds = bounds[:6]
	}
	pseudo := func(name string, T types.Type, isIdx bool, get func(st *State) Value) {
		ev := get(entry)
		switch e := ev.(type) {
		case VS:
			g := func(st *State) *Term { return get(st).(VS).T }
			switch {
			case e.T.Sort == SInt && isInteger(T):
				add(name+" >= at entry", false, func(_ *Frame, st *State) *Term { return Ge(g(st), e.T) })
				add(name+" <= at entry", false, func(_ *Frame, st *State) *Term { return Le(g(st), e.T) })
				for _, k := range []int64{-1, 0} {
					add(fmt.Sprintf("%s >= %d", name, k), false, func(_ *Frame, st *State) *Term { return Ge(g(st), Int(k)) })
				}
				for _, b := range bounds {
					add(name+" <= "+b.n, false, func(_ *Frame, st *State) *Term { return Le(g(st), b.t) })
					add(name+" < "+b.n, false, func(_ *Frame, st *State) *Term { return Lt(g(st), b.t) })
				}
			case e.T.Sort == SStr:
				add(name+" is a suffix of its value at entry", false, func(_ *Frame, st *State) *Term { return StrSuffix(g(st), e.T) })
			case e.T.Sort == SBool || e.T.Sort == SBV8 || e.T.Sort == SReal:
				add(name+" unchanged", false, func(_ *Frame, st *State) *Term { return Eq(g(st), e.T) })
			}
		case VSlice:
			g := func(st *State) VSlice { return get(st).(VSlice) }
			add(name+" shares or owns its array", false, func(_ *Frame, st *State) *Term {
				return Or(Eq(g(st).Ref, e.Ref), Gt(g(st).Ref, entry.wm))
			})
			add(name+" offset", false, func(_ *Frame, st *State) *Term { return Eq(g(st).Off, e.Off) })
			add(name+" grows", false, func(_ *Frame, st *State) *Term { return Ge(g(st).Len, e.Len) })
			add(name+" same length", false, func(_ *Frame, st *State) *Term { return Eq(g(st).Len, e.Len) })
			add(name+" same array", false, func(_ *Frame, st *State) *Term {
				return And(Eq(g(st).Ref, e.Ref), Eq(g(st).Cap, e.Cap))
			})
			add(name+" owns its array", false, func(_ *Frame, st *State) *Term {
				return Or(Eq(g(st).Ref, Int(0)), Gt(g(st).Ref, entry.wm))
			})
			if e.Ref.Op != "int" {
				add(name+" not nil", false, func(_ *Frame, st *State) *Term { return Ne(g(st).Ref, Int(0)) })
			}
		case VPtr:
			if e.A.Kind != AObj || len(e.A.Path) > 0 {
				return
			}
			g := func(st *State) *Term { return addrTerm(get(st).(VPtr).A) }
			add(name+" unchanged", false, func(_ *Frame, st *State) *Term { return Eq(g(st), e.A.Ref) })
			add(name+" not nil", false, func(_ *Frame, st *State) *Term { return Ne(g(st), Int(0)) })
			add(name+" fresh or nil", false, func(_ *Frame, st *State) *Term { return Or(Eq(g(st), Int(0)), Gt(g(st), entry.wm)) })
		case VIface:
			add(name+" unchanged", false, func(_ *Frame, st *State) *Term {
				v := get(st).(VIface)
				return And(Eq(v.Tag, e.Tag), Eq(v.Val, e.Val))
			})
			add(name+" not nil", false, func(_ *Frame, st *State) *Term { return Ne(get(st).(VIface).Tag, Int(0)) })
		}
	}
	for _, c := range sortedCells(ls.cells) {
		v, ok := entry.cells[c]
		if !ok || strings.Contains(c.T.String(), "deferStack") {
			continue
		}
		if _, isStruct := v.(VStruct); isStruct {
			u := c.T.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				pseudo(c.name+"."+u.Field(i).Name(), u.Field(i).Type(), false, func(st *State) Value { return st.cells[c].(VStruct).F[i] })
			}
			continue
		}
		pseudo(c.name, c.T, c.name == "rangeindex", func(st *State) Value { return st.cells[c] })
	}
	// heap places
	for _, k := range sortedKeys(ls.locs) {
		if ls.whole[k] || !(strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "C:")) {
			continue
		}
		for _, l := range ls.locs[k] {
			if l.Ref == nil {
				continue
			}
			srt := compSorts[k]
			_, ev := arrParts(srt)
			g := func(st *State) *Term { return Select(st.get(k, srt), l.Ref) }
			e := g(entry)
			switch {
			case strings.HasSuffix(k, "#ref"):
				add(k+" shares or owns its array", false, func(_ *Frame, st *State) *Term {
					return Or(Eq(g(st), e), Gt(g(st), entry.wm))
				})
				add(k+" same array", false, func(_ *Frame, st *State) *Term { return Eq(g(st), e) })
			case strings.HasSuffix(k, "#off"), strings.HasSuffix(k, "#cap"), strings.HasSuffix(k, "#tag"):
				add(k+" unchanged", false, func(_ *Frame, st *State) *Term { return Eq(g(st), e) })
			case ev == SInt:
				add(k+" unchanged", false, func(_ *Frame, st *State) *Term { return Eq(g(st), e) })
				add(k+" >= at entry", false, func(_ *Frame, st *State) *Term { return Ge(g(st), e) })
			case ev == SStr:
				add(k+" unchanged", false, func(_ *Frame, st *State) *Term { return Eq(g(st), e) })
			default:
				add(k+" unchanged", false, func(_ *Frame, st *State) *Term { return Eq(g(st), e) })
			}
		}
	}
	return out
}

func isInteger(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// termination finds a measure that every iteration decreases.
func (x *Exec) termination(fr *Frame, lp *Loop, from *ssa.BasicBlock, s *State, entry *State, ls *loopSets) {
	label := fmt.Sprintf("loop %d of %s terminates", lp.index, fnName(fr.fn))
	rec := func(ok bool, why string) {
		o := &Obl{Fn: x.curName(), Kind: "termination", Label: label, Pos: x.pos(firstPos(lp.hdr)), Goal: BoolT(ok), done: make(chan struct{})}
		if x.cur != nil {
			o.Props = x.cur.Props
		}
		if ok {
			o.Out = Outcome{R: Proved, By: why}
		} else {
			o.Out = Outcome{R: Unknown, Detail: why}
		}
		close(o.done)
		x.obs = append(x.obs, o)
	}
	if lp.hdr.Comment == "rangeindex.loop" || lp.hdr.Comment == "rangeiter.loop" {
		rec(true, "range loop")
		return
	}
	type meas struct {
		n string
		f func(fr *Frame, st *State) []*Term
	}
	var ms []meas
	for _, c := range x.contractsFor(fr) {
		x.userMeasures(c, fr, lp, entry, func(n string, f func(fr *Frame, st *State) []*Term) {
			ms = append(ms, meas{n, f})
		})
	}
	var ups []func(st *State) *Term
	for _, b := range fr.fn.Blocks {
		if !b.Dominates(lp.hdr) || lp.body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok {
				if p, ok := fr.env[a].(VPtr); ok && p.A.Kind == ALocal {
					c := p.A.Cell
					switch v := s.cells[c].(type) {
					case VS:
						if v.T.Sort == SInt && isInteger(c.T) {
							ups = append(ups, func(st *State) *Term { return st.cells[c].(VS).T })
						} else if v.T.Sort == SStr {
							ups = append(ups, func(st *State) *Term { return StrLen(st.cells[c].(VS).T) })
						}
					case VSlice:
						ups = append(ups, func(st *State) *Term { return st.cells[c].(VSlice).Len })
					}
				}
			}
		}
	}
	for _, u := range ups {
		ms = append(ms, meas{"value", func(_ *Frame, st *State) []*Term { return []*Term{u(st)} }})
		for _, w := range ups {
			ms = append(ms, meas{"difference", func(_ *Frame, st *State) []*Term { return []*Term{Add(Sub(u(st), w(st)), Int(1))} }})
		}
	}
	type bk struct {
		fr *Frame
		st *State
	}
	hs := s.clone()
	var backs []bk
	x.runBody(fr, lp, from, s, func(f *Frame, b *State) { backs = append(backs, bk{f, b}) })
	// with few assumptions first
	for _, light := range []bool{true, false} {
		for _, m := range ms {
			ok := true
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(Unsupp); is {
							ok = false
							return
						}
						panic(r)
					}
				}()
				m0 := m.f(fr, hs)
				for _, b := range backs {
					g := lexLess(m.f(b.fr, b.st), m0)
					if b.st.quickTruth(g) == 1 {
						continue
					}
					if g == False {
						ok = false
						return
					}
					if light {
						l, _ := lightSlice(b.st.pc, g)
						ok = proveMs(render(l, g), 0, 1000).R == Proved
					} else {
						ok = x.valid(b.st, g)
					}
					if !ok {
						return
					}
				}
			}()
			if ok {
				rec(true, "measure "+m.n)
				return
			}
		}
	}
	rec(false, "no measure found")
}

// lexLess: b decreases to a, bounded below by zero.
func lexLess(a, b []*Term) *Term {
	var alts []*Term
	var eqs []*Term
	for i := range a {
		alts = append(alts, And(append(append([]*Term{}, eqs...), Ge(b[i], Int(0)), Lt(a[i], b[i]))...))
		eqs = append(eqs, Eq(a[i], b[i]))
	}
	return Or(alts...)
}
