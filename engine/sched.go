package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the interpreted program. Exactly one runs at a time (baton passing).

type Gor struct {
	m      *M
	id     int
	name   string
	resume chan bool
	done   bool
	ready  func() bool // nil: runnable
	why    string
	stack  []*Frame
	isMain bool
}

func (g *Gor) where() string {
	s := ""
	n := 0
	for i := len(g.stack) - 1; i >= 0 && n < 4; i-- {
		fr := g.stack[i]
		if fr.fn == nil {
			continue
		}
		pos := ""
		if fr.curInstr != nil && fr.curInstr.Pos().IsValid() {
			p := g.m.prog.Fset.Position(fr.curInstr.Pos())
			pos = fmt.Sprintf(":%d", p.Line)
		}
		if s != "" {
			s += " < "
		}
		s += fr.fn.String() + pos
		n++
	}
	return s
}

func (m *M) newGor(name string) *Gor {
	g := &Gor{m: m, id: len(m.gors), name: name, resume: make(chan bool)}
	g.isMain = len(m.gors) == 0
	m.gors = append(m.gors, g)
	return g
}

func (g *Gor) start(f func()) {
	m := g.m
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		select {
		case <-g.resume:
		case <-m.kill:
			return
		}
		defer func() {
			r := recover()
			g.done = true
			switch x := r.(type) {
			case nil:
				if g.isMain {
					m.finish(nil)
					return
				}
				// hand the baton over
				defer func() {
					if r2 := recover(); r2 != nil {
						if pa, ok := r2.(pathAbort); ok {
							m.finish(&pa)
							return
						}
						m.finish(&pathAbort{abUnsupported, fmt.Sprintf("engine panic: %v", r2)})
					}
				}()
				m.dispatch(nil)
			case pathAbort:
				m.finish(&x)
			case tpanic:
				m.uncaught(x)
			default:
				m.finish(&pathAbort{abUnsupported, fmt.Sprintf("engine panic: %v @ %s", r, g.where())})
				if debugEngine {
					panic(r)
				}
			}
		}()
		f()
	}()
}

var debugEngine = false

func (m *M) uncaught(x tpanic) {
	if m.pos >= len(m.item.trail) {
		m.addViolation("panic", "uncaught panic: "+m.panicText(x), m.model)
	}
	m.finish(&pathAbort{abStop, "panic"})
}

func (m *M) panicText(x tpanic) string {
	if x.msg != "" {
		return x.msg
	}
	if s, ok := x.v.v.(Str); ok {
		return s.s
	}
	if x.v.t != nil {
		return "value of type " + x.v.t.String()
	}
	return "nil"
}

func (m *M) finish(a *pathAbort) {
	m.endOnce.Do(func() {
		m.abort = a
		close(m.mainDone)
	})
}

// switchTo passes the baton from the running goroutine to g.
func (m *M) dispatch(self *Gor) {
	// choose among runnable goroutines (self excluded unless runnable)
	for {
		var run []*Gor
		for _, g := range m.gors {
			if !g.done && (g.ready == nil || g.ready()) {
				run = append(run, g)
			}
		}
		if len(run) == 0 {
			// fire a timer if one is pending
			if m.fireTimer() {
				continue
			}
			main := m.gors[0]
			blocked := ""
			for _, g := range m.gors {
				if !g.done {
					blocked += fmt.Sprintf("[g%d %s: %s @ %s] ", g.id, g.name, g.why, g.where())
				}
			}
			if !main.done {
				if m.pos >= len(m.item.trail) {
					m.addViolation("deadlock", "deadlock: harness goroutine blocked for ever", m.model)
					m.viol[len(m.viol)-1].Where = blocked
				}
				panic(pathAbort{abStop, "deadlock"})
			}
			panic(pathAbort{abStop, "all done"})
		}
		// keep the current goroutine first for stable choice numbering
		if self != nil {
			for i, g := range run {
				if g == self {
					run[0], run[i] = run[i], run[0]
					break
				}
			}
		}
		k := 0
		if len(run) > 1 && m.delays >= 0 {
			// delay-bounded: round robin by default, every other choice costs one delay
			last := m.lastRun
			less := func(a, b *Gor) bool {
				n := len(m.gors) + 1
				return (a.id-last-1+2*n)%n < (b.id-last-1+2*n)%n
			}
			for i := range run {
				for j := i; j > 0 && less(run[j], run[j-1]); j-- {
					run[j], run[j-1] = run[j-1], run[j]
				}
			}
			if m.delays > 0 {
				k = m.choose(len(run))
				if k > 0 {
					m.delays--
					m.schedLog = append(m.schedLog, fmt.Sprintf("g%d", run[k].id))
				}
			}
		} else if len(run) > 1 {
			k = m.choose(len(run))
			m.schedLog = append(m.schedLog, fmt.Sprintf("g%d", run[k].id))
		}
		g := run[k]
		m.lastRun = g.id
		g.ready = nil
		if g == self {
			m.cur = self
			return
		}
		m.cur = g
		g.resume <- true
		if self == nil || self.done {
			return
		}
		select {
		case <-self.resume:
		case <-m.kill:
			panic(pathAbort{abKill, ""})
		}
		return
	}
}

// yield is a scheduling point at which the current goroutine stays runnable.
func (m *M) yield(g *Gor) {
	if len(m.gors) == 1 || m.initing > 0 {
		return
	}
	others := false
	for _, o := range m.gors {
		if o != g && !o.done && (o.ready == nil || o.ready()) {
			others = true
			break
		}
	}
	if !others {
		return
	}
	if m.preempts >= m.maxPre {
		return
	}
	before := m.cur
	g.ready = nil
	n0 := len(m.schedLog)
	_ = n0
	// choosing someone else costs one preemption
	var run []*Gor
	run = append(run, g)
	for _, o := range m.gors {
		if o != g && !o.done && (o.ready == nil || o.ready()) {
			run = append(run, o)
		}
	}
	k := m.choose(len(run))
	m.schedLog = append(m.schedLog, fmt.Sprintf("g%d", run[k].id))
	if k == 0 {
		return
	}
	m.preempts++
	o := run[k]
	o.ready = nil
	m.cur = o
	o.resume <- true
	select {
	case <-g.resume:
	case <-m.kill:
		panic(pathAbort{abKill, ""})
	}
	_ = before
}

// gosched: voluntary yield (Sleep, Gosched): switching is free
func (m *M) gosched(g *Gor, why string) {
	if m.initing > 0 {
		return
	}
	g.ready = nil
	g.why = why
	m.dispatch(g)
}

// block parks g until ready() holds.
func (m *M) block(g *Gor, why string, ready func() bool) {
	if ready() {
		return
	}
	if m.initing > 0 {
		panic(m.unsupported("blocking during package init"))
	}
	g.ready = ready
	g.why = why
	m.dispatch(g)
	g.ready = nil
}

// ---- channels

type waiter struct {
	g    *Gor
	sel  *selState
	idx  int
	val  Value
	send bool
	ch   *Chan
}

type selState struct {
	fired       bool
	idx         int
	val         Value
	ok          bool
	panicClosed bool
}

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	zero   Value
	id     int
}

func (ch *Chan) popRecv() *waiter {
	for len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}
func (ch *Chan) popSend() *waiter {
	for len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}
func live(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (ch *Chan) canSend() bool { return ch.closed || len(ch.buf) < ch.cap || live(ch.recvq) }
func (ch *Chan) canRecv() bool { return len(ch.buf) > 0 || live(ch.sendq) || ch.closed }

// doSend assumes canSend
func (m *M) doSend(ch *Chan, v Value) {
	if ch.closed {
		panic(m.tpanicStr("send on closed channel"))
	}
	if w := ch.popRecv(); w != nil {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		return
	}
	ch.buf = append(ch.buf, v)
}

func (m *M) doRecv(ch *Chan) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		if w := ch.popSend(); w != nil {
			ch.buf = append(ch.buf, w.val)
			w.sel.fired, w.sel.idx = true, w.idx
		}
		return v, true
	}
	if w := ch.popSend(); w != nil {
		w.sel.fired, w.sel.idx = true, w.idx
		return w.val, true
	}
	return ch.zero, false // closed
}

func (m *M) chanSend(g *Gor, ch *Chan, v Value) {
	m.yield(g)
	if ch == nil {
		m.block(g, "send on nil chan", func() bool { return false })
	}
	if ch.canSend() {
		m.doSend(ch, v)
		return
	}
	st := &selState{}
	ch.sendq = append(ch.sendq, &waiter{g: g, sel: st, val: v, send: true, ch: ch})
	m.block(g, "chan send", func() bool { return st.fired })
	if st.panicClosed {
		panic(m.tpanicStr("send on closed channel"))
	}
}

func (m *M) chanRecv(g *Gor, ch *Chan) (Value, bool) {
	m.yield(g)
	if ch == nil {
		m.block(g, "recv on nil chan", func() bool { return false })
	}
	if ch.canRecv() {
		return m.doRecv(ch)
	}
	st := &selState{}
	ch.recvq = append(ch.recvq, &waiter{g: g, sel: st, ch: ch})
	m.block(g, "chan recv", func() bool { return st.fired })
	return st.val, st.ok
}

func (m *M) chanClose(g *Gor, ch *Chan) {
	m.yield(g)
	if ch == nil {
		panic(m.tpanicStr("close of nil channel"))
	}
	if ch.closed {
		panic(m.tpanicStr("close of closed channel"))
	}
	ch.closed = true
	for w := ch.popRecv(); w != nil; w = ch.popRecv() {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, ch.zero, false
	}
	for w := ch.popSend(); w != nil; w = ch.popSend() {
		w.sel.fired, w.sel.idx, w.sel.panicClosed = true, w.idx, true
	}
}

type selCase struct {
	ch   *Chan
	send bool
	val  Value
}

// selectOp returns (index, recvVal, recvOK); index -1 = default
func (m *M) selectOp(g *Gor, cases []selCase, blocking bool) (int, Value, bool) {
	m.yield(g)
	var rd []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send && c.ch.canSend() || !c.send && c.ch.canRecv() {
			rd = append(rd, i)
		}
	}
	if len(rd) == 0 && !blocking {
		return -1, nil, false
	}
	if len(rd) > 0 {
		i := rd[0]
		if len(rd) > 1 && m.selects != 0 {
			k := m.choose(len(rd))
			i = rd[k]
			if k > 0 && m.selects > 0 {
				m.selects--
			}
		}
		c := cases[i]
		if c.send {
			m.doSend(c.ch, c.val)
			return i, nil, false
		}
		v, ok := m.doRecv(c.ch)
		return i, v, ok
	}
	st := &selState{}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{g: g, sel: st, idx: i, val: c.val, send: c.send, ch: c.ch}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	m.block(g, "select", func() bool { return st.fired })
	if st.panicClosed {
		panic(m.tpanicStr("send on closed channel"))
	}
	return st.idx, st.val, st.ok
}

// ---- timers

type Timer struct {
	when    int64
	period  int64
	active  bool
	fire    func()
	oneShot bool
	fires   int
}

// fireTimer is called when nothing else can run: time advances to the next timer.
func (m *M) fireTimer() bool {
	var best *Timer
	for _, t := range m.timers {
		if t.active && (best == nil || t.when < best.when) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	m.timerFires++
	if m.timerFires > 1000 {
		panic(pathAbort{abBound, "more than 1000 timer firings"})
	}
	if best.when > m.now {
		m.now = best.when
	}
	if best.period > 0 {
		best.when += best.period
	} else {
		best.active = false
	}
	best.fires++
	best.fire()
	if m.delays > 0 || m.preempts < m.maxPre {
		// schedules are being explored: everything due at this instant happens at once, in any order
		for {
			var t *Timer
			for _, o := range m.timers {
				if o.active && o.when <= m.now && (t == nil || o.when < t.when) {
					t = o
				}
			}
			if t == nil {
				break
			}
			m.timerFires++
			if m.timerFires > 1000 {
				panic(pathAbort{abBound, "more than 1000 timer firings"})
			}
			if t.period > 0 {
				t.when += t.period
			} else {
				t.active = false
			}
			t.fires++
			t.fire()
		}
	}
	return true
}

func (m *M) spawn(fr *Frame, fn *ssa.Function, env []Value, args []Value, name string) {
	g := m.newGor(name)
	g.start(func() {
		m.callFn(g, fn, args, env)
	})
	m.yield(fr.g)
}
