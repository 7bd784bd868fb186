package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A decision on a path: branch outcome, concretisation candidate, or n-way choice.
type Dec struct {
	K byte // 'b' branch, 'v' value, 's' choice
	V uint64
	N uint64
	F bool // forced: implied by the path condition, not added to it
}

type WorkItem struct {
	trail []Dec
	model map[string]uint64
}

type abortKind int

const (
	abAssume abortKind = iota
	abUnsupported
	abBound
	abUnknown
	abKill
	abStop // property decided on this path; stop
	abTime
)

type pathAbort struct {
	kind abortKind
	why  string
}

type tpanic struct {
	v   Iface
	msg string
}

type Violation struct {
	Harness string     `json:"harness"`
	Kind    string     `json:"kind"`
	Msg     string     `json:"msg"`
	Where   string     `json:"where"`
	Inputs  []InputVal `json:"inputs"`
	Sched   []string   `json:"schedule,omitempty"`
	Trace   []string   `json:"trace,omitempty"`
}

type InputVal struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	V    uint64 `json:"v"`
}

// M executes one path.
type M struct {
	w       *Worker
	c       *Ctx
	prog    *ssa.Program
	h       *Harness
	item    WorkItem
	trail   []Dec
	pos     int
	pc      []*Term
	model   Model
	ev      *evaler
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	stdio   bool    // standard input and output are the harness's
	stdin   []*Term // what is still to be read
	stdout  []*Term // what has been printed
	initing int
	steps   int
	newWork []WorkItem
	inputs  []*Term // symbolic inputs, in creation order
	inNames []string
	inConc  []InputVal // parallel: concrete choices (w=-1 → take from term)
	cnt     map[string]int
	viol    []Violation
	nAssert int
	nDis    int
	reached map[string]bool
	fnSeen  map[*ssa.Function]bool
	trace   []string
	stubs   map[string]int

	// scheduler
	gors        []*Gor
	cur         *Gor
	mainDone    chan struct{}
	kill        chan struct{}
	wg          sync.WaitGroup
	abort       *pathAbort
	endOnce     sync.Once
	preempts    int
	schedLog    []string
	sideTab     map[*Value]any
	timers      []*Timer
	now         int64
	mapFork     int
	maxPre      int
	memory      bool // accesses to shared structs and maps are preemption points
	selects     int  // remaining choices of another than the first ready select case, -1: any
	delays      int  // remaining delays of a delay-bounded schedule, -1: every schedule
	lastRun     int
	timerFires  int
	maxSteps    int
	crcTab      map[string]*Term
	hooks       map[string]*Closure
	expectPanic bool
	lastPos     string
}

func (m *M) unsupported(why string) pathAbort {
	return pathAbort{abUnsupported, why + " @ " + m.where()}
}

func (m *M) where() string {
	if m.cur == nil {
		return "?"
	}
	return m.cur.where()
}

func (m *M) tpanicStr(s string) tpanic {
	return tpanic{v: Iface{t: runtimeErrType(m.prog), v: Str{s: s}}, msg: s}
}

var rtErrT types.Type
var rtErrOnce sync.Once

func runtimeErrType(p *ssa.Program) types.Type {
	rtErrOnce.Do(func() {
		pk := p.ImportedPackage("runtime")
		if pk != nil {
			rtErrT = pk.Pkg.Scope().Lookup("plainError").Type()
			if o := pk.Pkg.Scope().Lookup("errorString"); o != nil {
				rtErrT = o.Type()
			}
		} else {
			rtErrT = types.Typ[types.String]
		}
	})
	return rtErrT
}

// ---- symbolic inputs

func (m *M) freshName(n string) string {
	k := m.cnt[n]
	m.cnt[n]++
	return fmt.Sprintf("%s#%d", n, k)
}

func (m *M) newVar(name string, w int) *Term {
	full := m.freshName(name)
	t := m.c.Var(full, w)
	m.model[t.id] = m.item.model[full] & mask(max(w, 1))
	m.inputs = append(m.inputs, t)
	m.inNames = append(m.inNames, full)
	m.inConc = append(m.inConc, InputVal{W: -1})
	return t
}

// newInternal: symbolic value that is not a replayable input (e.g. crc)
func (m *M) newInternal(name string, w int) *Term {
	full := m.freshName("!" + name)
	t := m.c.Var(full, w)
	m.model[t.id] = m.item.model[full] & mask(max(w, 1))
	return t
}

func (m *M) logChoice(name string, w int, v uint64) {
	m.inputs = append(m.inputs, nil)
	full := m.freshName(name)
	m.inNames = append(m.inNames, full)
	m.inConc = append(m.inConc, InputVal{Name: full, W: w, V: v})
}

func (m *M) inputVals(md Model) []InputVal {
	e := &evaler{m: md, memo: map[uint32]uint64{}}
	var out []InputVal
	for i, t := range m.inputs {
		if t == nil {
			out = append(out, m.inConc[i])
		} else {
			out = append(out, InputVal{m.inNames[i], int(t.w), e.eval(t)})
		}
	}
	return out
}

func (m *M) modelNames(md Model) map[string]uint64 {
	out := map[string]uint64{}
	for id, v := range md {
		if v != 0 {
			out[m.c.byID[id].name] = v
		}
	}
	return out
}

func (m *M) evalT(t *Term) uint64 { return m.ev.eval(t) }

func (m *M) setModel(md Model) {
	m.model = md
	m.ev = &evaler{m: md, memo: map[uint32]uint64{}}
}

// ---- queries

func (m *M) slice(cond *Term) []*Term {
	vs := map[uint32]bool{}
	for _, v := range m.c.varsOf(cond) {
		vs[v] = true
	}
	used := make([]bool, len(m.pc))
	out := []*Term{cond}
	for changed := true; changed; {
		changed = false
		for i, t := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			tv := m.c.varsOf(t)
			for _, v := range tv {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range tv {
					if !vs[v] {
						vs[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// sat decides pc ∧ cond; when satisfiable it returns a full model.
func (m *M) sat(cond *Term) (string, Model) {
	if cond.op == OFalse {
		return "unsat", nil
	}
	if cond.op == OTrue {
		return "sat", m.model
	}
	ts := m.slice(cond)
	key := sortedIDs(ts)
	r, ok := m.c.qcache[key]
	if !ok {
		r = m.c.solver.check(m.c, ts)
		if r.r != "unknown" {
			m.c.qcache[key] = r
		}
	} else {
		m.w.cacheHits++
	}
	if r.r != "sat" {
		return r.r, nil
	}
	md := make(Model, len(m.model))
	for k, v := range m.model {
		md[k] = v
	}
	for k, v := range r.m {
		md[k] = v
	}
	return "sat", md
}

func (m *M) addPC(t *Term) {
	if t.op == OTrue {
		return
	}
	if t.op == OAnd {
		m.addPC(t.a)
		m.addPC(t.b)
		return
	}
	m.pc = append(m.pc, t)
}

func (m *M) next() (Dec, bool) {
	if m.pos < len(m.item.trail) {
		d := m.item.trail[m.pos]
		m.pos++
		m.trail = append(m.trail, d)
		return d, true
	}
	return Dec{}, false
}

// overtime aborts a path that is still running when the exploration has to end.
func (m *M) overtime() {
	if d := m.w.deadlineAt(); d != 0 && time.Now().UnixNano() > d {
		panic(pathAbort{abTime, "deadline"})
	}
}

func (m *M) record(d Dec) {
	if len(m.trail)&15 == 15 {
		m.overtime()
	}
	m.trail = append(m.trail, d)
	m.pos++
	if len(m.trail) > m.h.maxDecs() {
		panic(pathAbort{abBound, "decision bound " + fmt.Sprint(m.h.maxDecs()) + " @ " + m.where()})
	}
}

func (m *M) fork(alt Dec, md Model) {
	tr := make([]Dec, len(m.trail)+1)
	copy(tr, m.trail)
	tr[len(m.trail)] = alt
	m.newWork = append(m.newWork, WorkItem{tr, m.modelNames(md)})
	if m.w.profile != nil {
		m.w.profile[string(alt.K)+" "+m.where()]++
	}
}

// decide resolves a boolean, forking when both outcomes are feasible.
func (m *M) decide(c *Term) bool {
	if c.op == OTrue {
		return true
	}
	if c.op == OFalse {
		return false
	}
	if d, ok := m.next(); ok {
		if d.K != 'b' {
			panic(pathAbort{abUnsupported, "replay divergence (branch) @ " + m.where()})
		}
		if !d.F {
			if d.V == 1 {
				m.addPC(c)
			} else {
				m.addPC(m.c.Not(c))
			}
		}
		return d.V == 1
	}
	v := m.evalT(c)
	taken, other := c, m.c.Not(c)
	if v == 0 {
		taken, other = other, taken
	}
	r, md := m.sat(other)
	switch r {
	case "unsat":
		m.record(Dec{K: 'b', V: v, F: true})
	case "sat":
		m.fork(Dec{K: 'b', V: 1 - v}, md)
		m.record(Dec{K: 'b', V: v})
		m.addPC(taken)
	default:
		panic(pathAbort{abUnknown, "solver unknown @ " + m.where()})
	}
	return v == 1
}

// concretize picks a concrete value for t, forking over all feasible ones.
func (m *M) concretize(t *Term) uint64 {
	if t.isC() {
		return t.k
	}
	if t.w == 0 {
		if m.decide(t) {
			return 1
		}
		return 0
	}
	for n := 0; ; n++ {
		if d, ok := m.next(); ok {
			if d.K != 'v' {
				panic(pathAbort{abUnsupported, "replay divergence (value) @ " + m.where()})
			}
			eq := m.c.Eq(t, m.c.K(d.V, int(t.w)))
			if d.N == 1 {
				if !d.F {
					m.addPC(eq)
				}
				return d.V
			}
			m.addPC(m.c.Not(eq))
			continue
		}
		if n > m.h.maxConc() {
			panic(pathAbort{abBound, fmt.Sprintf("more than %d values of a structural quantity @ %s", m.h.maxConc(), m.where())})
		}
		v := m.evalT(t)
		eq := m.c.Eq(t, m.c.K(v, int(t.w)))
		r, md := m.sat(m.c.Not(eq))
		switch r {
		case "unsat":
			m.record(Dec{K: 'v', V: v, N: 1, F: true})
			return v
		case "sat":
			m.fork(Dec{K: 'v', V: v, N: 0}, md)
			m.record(Dec{K: 'v', V: v, N: 1})
			m.addPC(eq)
			return v
		default:
			panic(pathAbort{abUnknown, "solver unknown @ " + m.where()})
		}
	}
}

// choose: n-way nondeterministic choice, all options feasible.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := m.next(); ok {
		if d.K != 's' || d.N != uint64(n) {
			panic(pathAbort{abUnsupported, "replay divergence (choice) @ " + m.where()})
		}
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(Dec{K: 's', V: uint64(i), N: uint64(n)}, m.model)
	}
	m.record(Dec{K: 's', V: 0, N: uint64(n)})
	return 0
}

func (m *M) assume(c *Term) {
	if c.op == OTrue {
		return
	}
	if c.op == OFalse {
		panic(pathAbort{abAssume, ""})
	}
	if d, ok := m.next(); ok {
		_ = d
		m.addPC(c)
		return
	}
	if m.evalT(c) == 0 {
		r, md := m.sat(c)
		if r == "unsat" {
			panic(pathAbort{abAssume, ""})
		}
		if r == "unknown" {
			panic(pathAbort{abUnknown, "solver unknown in assume @ " + m.where()})
		}
		m.setModel(md)
	}
	m.record(Dec{K: 'b', V: 1})
	m.addPC(c)
}

func (m *M) addViolation(kind, msg string, md Model) {
	v := Violation{Harness: m.h.Name, Kind: kind, Msg: msg, Where: m.where(), Inputs: m.inputVals(md)}
	if m.schedLog != nil {
		v.Sched = append([]string{}, m.schedLog...)
	}
	v.Trace = append([]string{}, m.trace...)
	m.viol = append(m.viol, v)
}

func (m *M) assertT(c *Term, msg string) {
	m.nAssert++
	if c.op == OTrue {
		m.nDis++
		return
	}
	if m.pos < len(m.item.trail) {
		// already decided on the parent path
		d, _ := m.next()
		if d.V == 1 && !d.F {
			m.addPC(c)
		}
		m.nAssert--
		return
	}
	if c.op != OFalse && m.evalT(c) == 1 {
		r, md := m.sat(m.c.Not(c))
		switch r {
		case "unsat":
			m.nDis++
			m.record(Dec{K: 'b', V: 1, F: true})
			return
		case "unknown":
			panic(pathAbort{abUnknown, "solver unknown in assertion @ " + m.where()})
		}
		m.addViolation("assert", msg, md)
	} else {
		m.addViolation("assert", msg, m.model)
		r, md := m.sat(c)
		if r != "sat" {
			panic(pathAbort{abStop, "assertion fails on every input of the path"})
		}
		m.setModel(md)
	}
	m.record(Dec{K: 'b', V: 1})
	m.addPC(c)
}

// ---- worker

type Worker struct {
	c         *Ctx
	cacheHits int
	fnInfo    map[*ssa.Function]*fnInfo
	profile   map[string]int
	deadline  *atomic.Int64
}

type PathResult struct {
	kind    abortKind
	why     string
	ok      bool
	steps   int
	viol    []Violation
	newWork []WorkItem
	nAssert int
	nDis    int
	reached map[string]bool
	fns     map[*ssa.Function]bool
	stubs   map[string]int
	decs    int
	pcLen   int
	inputs  []InputVal
	schedN  int
}

func (w *Worker) runPath(p *Prog, h *Harness, item WorkItem) PathResult {
	if len(w.c.byID) > 3000000 {
		w.c.resetTerms()
		w.c.solver.reset()
	}
	m := &M{w: w, c: w.c, prog: p.prog, h: h, item: item, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, cnt: map[string]int{}, reached: map[string]bool{}, fnSeen: map[*ssa.Function]bool{}, stubs: map[string]int{}, sideTab: map[*Value]any{}, crcTab: map[string]*Term{}, hooks: map[string]*Closure{}}
	m.setModel(Model{})
	m.mapFork = 3
	m.maxPre = h.Preempt
	m.delays = -1
	m.selects = -1
	m.maxSteps = h.MaxSteps
	if m.maxSteps == 0 {
		m.maxSteps = 5000000
	}
	m.mainDone = make(chan struct{})
	m.kill = make(chan struct{})
	m.now = 1_700_000_000_000_000_000
	g := m.newGor("main")
	g.start(func() {
		fn := h.fn
		if p.cli != nil {
			m.ensureInit(g, p.pkg)
			m.ensureInit(g, p.cli)
		}
		m.callFn(g, fn, nil, nil)
	})
	m.cur = g
	g.resume <- true
	<-m.mainDone
	close(m.kill)
	m.wg.Wait()
	r := PathResult{ok: true, steps: m.steps, viol: m.viol, newWork: m.newWork, nAssert: m.nAssert, nDis: m.nDis, reached: m.reached, fns: m.fnSeen, stubs: m.stubs, decs: len(m.trail), pcLen: len(m.pc), inputs: m.inputVals(m.model), schedN: len(m.schedLog)}
	if m.abort != nil {
		r.ok = false
		r.kind = m.abort.kind
		r.why = m.abort.why
	}
	return r
}

// ---- harness exploration

type Harness struct {
	Name     string
	fn       *ssa.Function
	Preempt  int
	MaxSteps int
	MaxDecs  int
	MaxConc  int
	MaxPaths int
	Reach    []string // labels that must be reached
}

func (h *Harness) maxDecs() int {
	if h.MaxDecs > 0 {
		return h.MaxDecs
	}
	return 4000
}
func (h *Harness) maxConc() int {
	if h.MaxConc > 0 {
		return h.MaxConc
	}
	return 300
}

type HResult struct {
	Name       string
	Paths      int
	Completed  int
	AssumedOut int
	Unsup      map[string]int
	Bound      map[string]int
	Unknown    int
	Steps      int64
	Asserts    int64
	Discharged int64
	Viols      []Violation
	Reached    map[string]bool
	Fns        map[*ssa.Function]bool
	Stubs      map[string]int
	Left       int
	MaxDecs    int
	Dur        time.Duration
	SampleIn   [][]InputVal
	Samples    []string
	SchedPts   int64
	ViolCount  int
}

const violationGrace = 20 * time.Second

type hjob struct {
	h      *Harness
	res    *HResult
	stack  []WorkItem
	active int
	t0     time.Time
}

// explore runs the harnesses to exhaustion (or until the deadline) on n workers.
// After the first violation for which news is true exploration goes on for another
// grace period only.
func explore(p *Prog, hs []*Harness, n int, deadline time.Time, profile bool, news func(h string, v Violation) bool) (map[string]*HResult, []*Worker) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	jobs := make([]*hjob, len(hs))
	for i, h := range hs {
		jobs[i] = &hjob{h: h, stack: []WorkItem{{}}, res: &HResult{Name: h.Name, Unsup: map[string]int{}, Bound: map[string]int{}, Reached: map[string]bool{}, Fns: map[*ssa.Function]bool{}, Stubs: map[string]int{}}}
	}
	var workers []*Worker
	var wg sync.WaitGroup
	var dl atomic.Int64
	dl.Store(deadline.UnixNano())
	rr := 0
	pick := func() *hjob {
		// several workers per harness; round robin over those with work
		for i := 0; i < len(jobs); i++ {
			j := jobs[(rr+i)%len(jobs)]
			if len(j.stack) > 0 {
				rr = (rr + i + 1) % len(jobs)
				return j
			}
		}
		return nil
	}
	busy := 0
	for i := 0; i < n; i++ {
		w := &Worker{c: newCtx(), fnInfo: map[*ssa.Function]*fnInfo{}, deadline: &dl}
		if profile {
			w.profile = map[string]int{}
		}
		workers = append(workers, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.c.solver = newSolver(30000)
			defer w.c.solver.close()
			for {
				mu.Lock()
				var j *hjob
				for {
					if time.Now().After(deadline) {
						mu.Unlock()
						cond.Broadcast()
						return
					}
					j = pick()
					if j != nil || busy == 0 {
						break
					}
					cond.Wait()
				}
				if j == nil {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				it := j.stack[len(j.stack)-1]
				j.stack = j.stack[:len(j.stack)-1]
				busy++
				if j.t0.IsZero() {
					j.t0 = time.Now()
				}
				mu.Unlock()
				r := w.runPath(p, j.h, it)
				mu.Lock()
				busy--
				j.add(r)
				if news != nil {
					for _, v := range r.viol {
						if news(j.h.Name, v) {
							news = nil
							if d := time.Now().Add(violationGrace); d.Before(deadline) {
								deadline = d
								dl.Store(d.UnixNano())
							}
							break
						}
					}
				}
				if j.h.MaxPaths > 0 && j.res.Paths >= j.h.MaxPaths {
					j.res.Left += len(j.stack)
					j.stack = nil
				}
				j.res.Dur = time.Since(j.t0)
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	out := map[string]*HResult{}
	for _, j := range jobs {
		j.res.Left += len(j.stack)
		out[j.h.Name] = j.res
	}
	return out, workers
}

func (j *hjob) add(r PathResult) {
	s := j.res
	s.Paths++
	s.Steps += int64(r.steps)
	s.Asserts += int64(r.nAssert)
	s.Discharged += int64(r.nDis)
	s.SchedPts += int64(r.schedN)
	if r.decs > s.MaxDecs {
		s.MaxDecs = r.decs
	}
	switch {
	case r.ok:
		s.Completed++
		// a spread of completed paths for native validation
		if n := s.Completed; n <= 2 || n&(n-1) == 0 && len(s.SampleIn) < 10 {
			s.SampleIn = append(s.SampleIn, r.inputs)
		}
		if len(s.Samples) < 3 && r.pcLen > 0 {
			s.Samples = append(s.Samples, fmtInputs(r.inputs, 12))
		}
	case r.kind == abAssume:
		s.AssumedOut++
	case r.kind == abUnsupported:
		s.Unsup[r.why]++
	case r.kind == abTime:
		s.Left++
	case r.kind == abBound:
		s.Bound[r.why]++
	case r.kind == abUnknown:
		s.Unknown++
		s.Unsup[r.why]++
	case r.kind == abStop:
		s.Completed++
	}
	for k := range r.reached {
		s.Reached[k] = true
	}
	for f := range r.fns {
		s.Fns[f] = true
	}
	for k, v := range r.stubs {
		s.Stubs[k] += v
	}
	s.ViolCount += len(r.viol)
	for _, v := range r.viol {
		n := 0
		for _, o := range s.Viols {
			if o.Msg == v.Msg && o.Kind == v.Kind {
				n++
			}
		}
		if n < 6 {
			s.Viols = append(s.Viols, v)
		}
	}
	// one violation is enough to decide; keep exploring within limits for other kinds
	j.stack = append(j.stack, r.newWork...)
}

func fmtInputs(in []InputVal, n int) string {
	var sb strings.Builder
	for i, v := range in {
		if i >= n {
			fmt.Fprintf(&sb, " ...(%d more)", len(in)-n)
			break
		}
		fmt.Fprintf(&sb, " %s=%#x", v.Name, v.V)
	}
	return strings.TrimSpace(sb.String())
}

func topN(m map[string]int, n int) []string {
	type kv struct {
		k string
		v int
	}
	var a []kv
	for k, v := range m {
		a = append(a, kv{k, v})
	}
	sort.Slice(a, func(i, j int) bool { return a[i].v > a[j].v })
	var out []string
	for i, x := range a {
		if i >= n {
			break
		}
		out = append(out, fmt.Sprintf("%6d %s", x.v, x.k))
	}
	return out
}

func (w *Worker) deadlineAt() int64 {
	if w.deadline == nil {
		return 0
	}
	return w.deadline.Load()
}
