package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines, channels, wait groups and locks. A goroutine is interpreted at its go statement until it blocks; a
// blocked one is put aside and resumed when the goroutine below it blocks or ends. What other schedules could do is
// derived from a happens-before order (vector clocks over go statements, messages, wait groups and closed channels):
// a receive only orders the receiver after a worker if it must be one of that worker's messages in every schedule,
// i.e. if it takes a distinguishable message or the last one of all. Accesses to the same memory that are not ordered
// and have no common lock are races.

type parTask struct {
	parent  int
	site    token.Pos
	vc      []int // clock: own entry is the current epoch
	eff     int   // epoch of the last effect
	ended   bool
	locks   map[*V]bool // held locks; true: exclusively
	wgDone  *V          // wait group to be told about the end
	pending bool        // a message was queued by a send that has not completed
}

type parMsg struct {
	v    *V
	task int
	vc   []int
}

type parChan struct {
	cap          int
	closed       bool
	closeVC      []int
	q            []parMsg
	sends, recvs int
	sendVC       []int // join of the clocks of all sends
	recvVC       []int // join of the clocks of all receives
	newest       bool  // in this path messages are taken from the latest sender first
	picked       bool
	drainer      int // the goroutine that took the last message, plus one
}

type parWG struct {
	n     int
	bad   bool // count unknown
	adds  [][2]int
	done  []int
	dones int
}

type parkedTask struct {
	frames []*Frame
	at     int
	on     *V // channel it waits to receive from
}

type parState struct {
	tasks  []*parTask
	chans  map[*V]*parChan
	wgs    map[*V]*parWG
	owner  map[*V]int // exclusively held locks
	shared map[*V]map[int]bool
	parked []parkedTask
	prog   int
	shadow map[*V][]access
	key    string // cached text of the shadow
}

type access struct {
	task, epoch int
	write       bool
	locks       string
	pos         token.Pos
}

func joinVC(a, b []int) []int {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]int, n)
	for i := range r {
		if i < len(a) {
			r[i] = a[i]
		}
		if i < len(b) && b[i] > r[i] {
			r[i] = b[i]
		}
	}
	return r
}

func vcAt(vc []int, t int) int {
	if t < len(vc) {
		return vc[t]
	}
	return 0
}

func (p *parState) clone() *parState {
	if p == nil {
		return nil
	}
	n := &parState{prog: p.prog, key: p.key, chans: make(map[*V]*parChan, len(p.chans)), wgs: make(map[*V]*parWG, len(p.wgs)),
		owner: make(map[*V]int, len(p.owner)), shadow: make(map[*V][]access, len(p.shadow))}
	for _, t := range p.tasks {
		c := *t
		c.locks = make(map[*V]bool, len(t.locks))
		for k, v := range t.locks {
			c.locks[k] = v
		}
		n.tasks = append(n.tasks, &c)
	}
	for k, v := range p.chans {
		c := *v
		c.q = append([]parMsg(nil), v.q...)
		n.chans[k] = &c
	}
	for k, v := range p.wgs {
		c := *v
		c.adds = append([][2]int(nil), v.adds...)
		n.wgs[k] = &c
	}
	for k, v := range p.owner {
		n.owner[k] = v
	}
	for k, v := range p.shadow {
		n.shadow[k] = v // replaced, never changed
	}
	for _, pt := range p.parked {
		n.parked = append(n.parked, parkedTask{cloneFrames(pt.frames), pt.at, pt.on})
	}
	return n
}

func (p *parState) text() string {
	if p == nil {
		return ""
	}
	var sb strings.Builder
	for _, t := range p.tasks {
		fmt.Fprintf(&sb, "|T%v,%d,%t,%t", t.vc, t.eff, t.ended, t.pending)
		for _, l := range sortedV(t.locks) {
			fmt.Fprintf(&sb, ",%d%t", l.id, t.locks[l])
		}
		if t.wgDone != nil {
			fmt.Fprintf(&sb, ",w%d", t.wgDone.id)
		}
	}
	for _, c := range sortedV(p.chans) {
		x := p.chans[c]
		fmt.Fprintf(&sb, "|C%d:%d,%t,%d,%d,%v,%v,%v,%t%t%d", c.id, x.cap, x.closed, x.sends, x.recvs, x.sendVC, x.recvVC, x.closeVC, x.newest, x.picked, x.drainer)
		for _, m := range x.q {
			fmt.Fprintf(&sb, ";%d.%d.%v", m.v.id, m.task, m.vc)
		}
	}
	for _, w := range sortedV(p.wgs) {
		x := p.wgs[w]
		fmt.Fprintf(&sb, "|W%d:%d,%t,%v,%v", w.id, x.n, x.bad, x.adds, x.done)
	}
	for _, pt := range p.parked {
		fmt.Fprintf(&sb, "|Z%t", p.prog > pt.at)
		frameKey(&sb, pt.frames)
	}
	if p.key == "" && len(p.shadow) > 0 {
		var b strings.Builder
		for _, a := range sortedV(p.shadow) {
			b.WriteString(" " + strconv.Itoa(a.id))
			for _, x := range p.shadow[a] {
				fmt.Fprintf(&b, ",%d.%d.%t.%s", x.task, x.epoch, x.write, x.locks)
			}
		}
		p.key = b.String()
	}
	sb.WriteString("|S")
	sb.WriteString(p.key)
	return sb.String()
}

func sortedV[T any](m map[*V]T) []*V {
	r := make([]*V, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// roots are the values blocked goroutines and queued messages hold.
func (p *parState) roots(add func(*V)) {
	if p == nil {
		return
	}
	for _, pt := range p.parked {
		for _, f := range pt.frames {
			for _, v := range f.env {
				add(v)
			}
			for _, d := range f.defers {
				add(d.fn)
				for _, a := range d.args {
					add(a)
				}
			}
		}
	}
	for _, c := range p.chans {
		for _, m := range c.q {
			add(m.v)
		}
	}
	for _, t := range p.tasks {
		add(t.wgDone)
		for l := range t.locks {
			add(l)
		}
	}
}

// forget drops what is known about an object that is created anew.
func (p *parState) forget(o *V) {
	if p == nil {
		return
	}
	for a := range p.shadow {
		if a.root() == o {
			delete(p.shadow, a)
			p.key = ""
		}
	}
	delete(p.chans, o)
	for w := range p.wgs {
		if w.root() == o {
			delete(p.wgs, w)
		}
	}
}

func (e *Engine) par(s *State) *parState {
	if s.par == nil {
		s.par = &parState{chans: map[*V]*parChan{}, wgs: map[*V]*parWG{}, owner: map[*V]int{}, shadow: map[*V][]access{}}
		s.par.tasks = []*parTask{{vc: []int{1}, locks: map[*V]bool{}, parent: -1}}
	}
	return s.par
}

func (p *parState) task(s *State) (int, *parTask) {
	t := s.top().gid
	return t, p.tasks[t]
}

// spawn registers a goroutine started by the running one; its number is returned.
func (e *Engine) spawn(s *State, pos token.Pos) int {
	p := e.par(s)
	me, t := p.task(s)
	n := len(p.tasks)
	vc := joinVC(t.vc, nil)
	for len(vc) <= n {
		vc = append(vc, 0)
	}
	vc[n] = 1
	p.tasks = append(p.tasks, &parTask{parent: me, site: pos, vc: vc, locks: map[*V]bool{}})
	p.release(me)
	p.prog++
	e.spawned++
	if e.goSites == nil {
		e.goSites = map[string]int{}
	}
	e.goSites[e.pos(pos)]++
	return n
}

// release starts a new epoch of a task, so that what follows is not ordered by what it just published.
func (p *parState) release(t int) {
	vc := joinVC(p.tasks[t].vc, nil)
	vc[t]++
	p.tasks[t].vc = vc
}

func (p *parState) acquire(t int, vc []int) { p.tasks[t].vc = joinVC(p.tasks[t].vc, vc) }

// quiet: the main goroutine is after everything all others did.
func (p *parState) quiet() bool {
	for i, t := range p.tasks {
		if i > 0 && (!t.ended || vcAt(p.tasks[0].vc, i) < t.eff) {
			return false
		}
	}
	return true
}

// settle forgets goroutines that are over and done with.
func (e *Engine) settle(s *State) {
	p := s.par
	if p == nil || len(p.tasks) == 1 || s.top().gid != 0 || len(p.parked) > 0 || !p.quiet() {
		return
	}
	for _, f := range s.frames {
		if f.gid != 0 {
			return
		}
	}
	p.tasks = p.tasks[:1]
	p.tasks[0].vc = []int{1}
	p.tasks[0].eff = 0
	p.shadow, p.key = map[*V][]access{}, ""
	for _, c := range p.chans {
		c.sendVC, c.recvVC, c.closeVC = nil, nil, nil
		for i := range c.q {
			c.q[i].vc, c.q[i].task = nil, 0
		}
	}
	for _, w := range p.wgs {
		w.done, w.adds = nil, nil
	}
	e.joins++
}

// touch records an access and reports a race.
func (e *Engine) touch(s *State, a *V, write bool, pos token.Pos) {
	p := s.par
	if p == nil || len(p.tasks) == 1 || len(s.frames) == 0 || a == nil || a.IsNil() {
		return
	}
	me, t := p.task(s)
	e.accesses++
	if write {
		t.eff = t.vc[me]
	}
	lk := ""
	if len(t.locks) > 0 {
		var b strings.Builder
		for _, l := range sortedV(t.locks) {
			m := "s"
			if t.locks[l] {
				m = "x"
			}
			fmt.Fprintf(&b, "%d%s;", l.id, m)
		}
		lk = b.String()
	}
	check := func(b *V) {
		for _, x := range p.shadow[b] {
			if x.task == me || !write && !x.write || vcAt(t.vc, x.task) >= x.epoch || commonLock(lk, x.locks) {
				continue
			}
			if e.h.OnRace != nil {
				e.h.OnRace(s, b, x, access{me, t.vc[me], write, lk, pos})
			}
		}
	}
	check(a)
	if a.K == KAddr && a.Op == "[]" {
		if a.Args[1] != e.star {
			check(e.ElemAddr(a.Args[0], e.star))
		} else {
			for b := range p.shadow {
				if b != a && b.K == KAddr && b.Op == "[]" && b.Args[0] == a.Args[0] {
					check(b)
				}
			}
		}
	}
	old := p.shadow[a]
	var n []access
	for _, x := range old {
		if x.task == me && x.write == write && x.locks == lk {
			if x.epoch == t.vc[me] {
				return
			}
			continue
		}
		n = append(n, x)
	}
	n = append(n, access{me, t.vc[me], write, lk, pos})
	p.shadow[a] = n
	p.key = ""
}

func commonLock(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	for _, x := range strings.Split(a, ";") {
		if x == "" {
			continue
		}
		for _, y := range strings.Split(b, ";") {
			if y != "" && x[:len(x)-1] == y[:len(y)-1] && (strings.HasSuffix(x, "x") || strings.HasSuffix(y, "x")) {
				return true
			}
		}
	}
	return false
}

// touchT records an access to a value of a type, part by part.
func (e *Engine) touchT(s *State, a *V, t types.Type, write bool, pos token.Pos) {
	if s.par == nil || len(s.par.tasks) == 1 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if e.atomic(t) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			e.touchT(s, e.FieldAddr(a, u.Field(i).Name()), u.Field(i).Type(), write, pos)
		}
		return
	case *types.Array:
		if u.Len() <= 16 {
			for i := int64(0); i < u.Len(); i++ {
				e.touchT(s, e.ElemAddr(a, e.Int(i)), u.Elem(), write, pos)
			}
			return
		}
	}
	if a.K == KAddr && a.Op == "[]" {
		if _, ok := a.Args[1].intVal(); !ok {
			a = e.ElemAddr(a.Args[0], e.star)
		}
	}
	e.touch(s, a, write, pos)
}

// touchMap records an access to a map.
func (e *Engine) touchMap(s *State, m *V, write bool, pos token.Pos) {
	if s.par == nil || len(s.par.tasks) == 1 || m.IsNil() || m.K == KConst {
		return
	}
	e.touch(s, e.FieldAddr(m, "#map"), write, pos)
}

// touchElems records an access to all elements of a slice.
func (e *Engine) touchElems(s *State, l *V, write bool, pos token.Pos) {
	if s.par == nil || len(s.par.tasks) == 1 || l.K != KSlice {
		return
	}
	o, ok1 := l.Args[1].intVal()
	n, ok2 := l.Args[2].intVal()
	if !ok1 || !ok2 || n > 256 {
		return
	}
	var et types.Type
	if l.Args[0].T != nil {
		switch u := l.Args[0].T.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		}
	}
	for i := int64(0); i < n; i++ {
		a := e.ElemAddr(l.Args[0], e.Int(o+i))
		if et != nil {
			e.touchT(s, a, et, write, pos)
		} else {
			e.touch(s, a, write, pos)
		}
	}
}

// block puts the running goroutine aside, or lets another one run; false: the state is over.
func (e *Engine) block(s *State, what string, pos token.Pos, on *V) bool {
	p := e.par(s)
	if e.resume(s, nil) {
		return true
	}
	e.drained(s)
	// put the running one aside
	at := -1
	for i := len(s.frames) - 1; i > 0; i-- {
		if s.frames[i].isGo {
			at = i
			break
		}
	}
	if at < 0 {
		s.note(pos, "%s: waits forever", what)
		if e.h.OnStuck != nil {
			e.h.OnStuck(s, what, pos)
		}
		return false
	}
	p.parked = append(p.parked, parkedTask{append([]*Frame(nil), s.frames[at:]...), p.prog, on})
	s.frames = append([]*Frame(nil), s.frames[:at]...)
	e.drained(s)
	return true
}

// resume lets a goroutine that was put aside (and waits for messages of the given channel) go on.
func (e *Engine) resume(s *State, on *V) bool {
	p := s.par
	if p == nil {
		return false
	}
	for i, pt := range p.parked {
		if p.prog > pt.at && (on == nil || pt.on == on) {
			p.parked = append(append([]parkedTask(nil), p.parked[:i]...), p.parked[i+1:]...)
			s.frames = append(s.frames, pt.frames...)
			return true
		}
	}
	return false
}

// drained: when no goroutine can go on, who took the last message of a channel is after all its senders.
func (e *Engine) drained(s *State) {
	p := s.par
	for _, pt := range p.parked {
		if p.prog > pt.at {
			for _, c := range p.chans {
				if c.drainer > 0 && c.recvs == c.sends {
					e.resume(s, nil)
					break
				}
			}
			return
		}
	}
	for i, f := range s.frames {
		if f.isGo && i > 0 {
			return
		}
	}
	for _, c := range p.chans {
		if c.drainer > 0 && c.recvs == c.sends {
			p.acquire(c.drainer-1, c.sendVC)
			c.drainer = 0
		}
	}
	e.settle(s)
}

// wake: goroutines that were put aside may be able to go on.
func (p *parState) wake() { p.prog++ }

func (e *Engine) chanOf(s *State, c *V) *parChan {
	if c.K != KObj || s.par == nil {
		return nil
	}
	return s.par.chans[c]
}

func (e *Engine) makeChan(s *State, o, size *V) {
	p := e.par(s)
	n, ok := size.intVal()
	if !ok {
		n = 1 << 30
	}
	p.chans[o] = &parChan{cap: int(n)}
}

// send executes a send; done: go on with the next instruction; cont: the state goes on.
func (e *Engine) send(s *State, x *ssa.Send) (done, cont bool) {
	cv := e.val(s, x.Chan)
	c := e.chanOf(s, cv)
	if c == nil {
		if cv.IsNil() {
			return false, e.block(s, "send to a nil channel", x.Pos(), nil)
		}
		return true, true
	}
	p := s.par
	me, t := p.task(s)
	if !t.pending {
		if c.closed {
			s.note(x.Pos(), "send on closed channel: crash")
			return false, e.doPanic(s, e.Str("send on closed channel"))
		}
		c.q = append(c.q, parMsg{e.val(s, x.X), me, t.vc})
		c.sends++
		c.sendVC = joinVC(c.sendVC, t.vc)
		p.release(me)
		p.wake()
		t.pending = true
	}
	if len(c.q) > c.cap {
		return false, e.block(s, "send to a full channel", x.Pos(), nil)
	}
	t.pending = false
	if c.sends-c.cap >= c.recvs && c.recvs > 0 {
		p.acquire(me, c.recvVC) // it took the last free place: all receives are over
	}
	return true, true
}

// recv executes a receive; false: the state is over.
func (e *Engine) recv(s *State, x *ssa.UnOp, c *parChan) bool {
	p := s.par
	me, _ := p.task(s)
	cv := e.val(s, x.X)
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	set := func(s *State, v *V, ok bool) {
		if x.CommaOk {
			v = e.Tuple(v, e.Bool(ok))
		}
		s.top().set(x, v)
		s.top().pc++
	}
	if len(c.q) == 0 {
		if !c.closed {
			return e.block(s, "receive from a channel nobody sends to any more", x.Pos(), cv)
		}
		p.acquire(me, c.closeVC)
		set(s, e.Zero(et), false)
		return true
	}
	token := false // messages do not tell their sender
	switch u := et.Underlying().(type) {
	case *types.Struct:
		token = u.NumFields() == 0
	case *types.Basic:
		token = u.Info()&types.IsBoolean != 0
	}
	take := func(s *State) {
		p := s.par
		c := p.chans[cv]
		i := 0
		if c.newest && len(c.q) <= c.cap {
			// the first message of the latest sender
			last := c.q[len(c.q)-1].task
			for c.q[i].task != last {
				i++
			}
		}
		m := c.q[i]
		c.q = append(append([]parMsg(nil), c.q[:i]...), c.q[i+1:]...)
		c.recvs++
		p.wake()
		if !token && !m.v.IsNil() {
			p.acquire(me, m.vc)
		}
		c.recvVC = joinVC(c.recvVC, p.tasks[me].vc)
		p.release(me)
		set(s, m.v, true)
		c.drainer = 0
		if c.recvs == c.sends {
			c.drainer = me + 1
			if me == 0 && !e.resume(s, nil) {
				e.drained(s)
			}
		}
	}
	senders := map[int]bool{}
	for _, m := range c.q {
		senders[m.task] = true
	}
	if !token && len(senders) > 1 && !c.picked && c.cap > 0 {
		c.picked = true
		n := s.clone()
		n.par.chans[cv].newest = true
		take(n)
		e.work = append(e.work, n)
	}
	take(s)
	return true
}

func (e *Engine) closeChan(s *State, cv *V, pos token.Pos) bool {
	c := e.chanOf(s, cv)
	if c == nil {
		return true
	}
	if c.closed {
		s.note(pos, "close of a closed channel: crash")
		return e.doPanic(s, e.Str("close of closed channel"))
	}
	me, t := s.par.task(s)
	c.closed, c.closeVC = true, t.vc
	s.par.release(me)
	s.par.wake()
	return true
}

// syncCall models sync; done=false with cont: the goroutine was put aside and retries.
func (e *Engine) syncCall(s *State, name string, args []*V, ins ssa.Instruction) (handled, done, cont bool) {
	if !strings.HasPrefix(name, "(*sync.") && !strings.HasPrefix(name, "sync/atomic.") && !strings.HasPrefix(name, "(*sync/atomic.") || len(args) == 0 {
		return false, false, false
	}
	a := args[0]
	p := e.par(s)
	me, t := p.task(s)
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		if o, held := p.owner[a]; held {
			if o == me {
				s.note(ins.Pos(), "locks a lock it holds")
			}
			return true, false, e.block(s, "lock", ins.Pos(), nil)
		}
		for i, o := range p.tasks {
			if _, ok := o.locks[a]; ok && !o.ended && i != me {
				return true, false, e.block(s, "lock", ins.Pos(), nil)
			}
		}
		p.owner[a] = me
		t.locks[a] = true
		return true, true, true
	case "(*sync.RWMutex).RLock":
		if _, held := p.owner[a]; held {
			return true, false, e.block(s, "lock", ins.Pos(), nil)
		}
		t.locks[a] = false
		return true, true, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		delete(p.owner, a)
		delete(t.locks, a)
		p.wake()
		return true, true, true
	case "(*sync.WaitGroup).Add":
		w := p.wg(a)
		n, ok := args[1].intVal()
		if !ok {
			w.bad = true
		}
		w.n += int(n)
		if n > 0 {
			w.adds = append(w.adds, [2]int{me, t.vc[me]})
		}
		if n < 0 {
			p.wgDone(w, me)
		}
		return true, true, true
	case "(*sync.WaitGroup).Go":
		f := args[1]
		if f.K != KFunc || len(f.Fn.Blocks) == 0 {
			return false, false, false
		}
		w := p.wg(a)
		w.n++
		w.adds = append(w.adds, [2]int{me, t.vc[me]})
		fr := s.top()
		fr.pc++
		nf := e.pushFrame(s, f.Fn, nil, f.Args, ins, fr.ctx)
		nf.isGo = true
		nf.gid = len(p.tasks)
		s.frames = s.frames[:len(s.frames)-1]
		e.spawn(s, ins.Pos())
		s.frames = append(s.frames, nf)
		p.tasks[nf.gid].wgDone = a
		return true, false, true
	case "(*sync.WaitGroup).Done":
		w := p.wg(a)
		w.n--
		p.wgDone(w, me)
		if w.n < 0 {
			s.note(ins.Pos(), "negative WaitGroup counter: crash")
			return true, false, e.doPanic(s, e.Str("negative WaitGroup counter"))
		}
		return true, true, true
	case "(*sync.WaitGroup).Wait":
		w := p.wg(a)
		if w.n > 0 && !w.bad {
			return true, false, e.block(s, "wait for a group that nobody completes", ins.Pos(), nil)
		}
		ordered := !w.bad
		for _, x := range w.adds {
			if x[0] != me && vcAt(t.vc, x[0]) < x[1] {
				ordered = false // the wait may come before this one was added
			}
		}
		if ordered {
			p.acquire(me, w.done)
		}
		e.settle(s)
		return true, true, true
	}
	return e.atomicCall(s, name, args, ins)
}

// atomicCall models the operations of sync/atomic on whole numbers, flags and pointers.
func (e *Engine) atomicCall(s *State, name string, args []*V, ins ssa.Instruction) (handled, done, cont bool) {
	call, ok := ins.(*ssa.Call)
	if !ok || !strings.Contains(name, "sync/atomic") {
		return false, false, false
	}
	fn := call.Call.StaticCallee()
	if fn == nil {
		return false, false, false
	}
	a, rest := args[0], args[1:]
	op := fn.Name()
	var t types.Type
	if recv := fn.Signature.Recv(); recv != nil {
		a = e.FieldAddr(a, "v")
		switch {
		case op == "CompareAndSwap" || op == "Store" || op == "Swap" || op == "Add":
			t = fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type()
		case op == "Load":
			t = fn.Signature.Results().At(0).Type()
		}
	} else {
		t = fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		for _, k := range []string{"CompareAndSwap", "Add", "Load", "Store", "Swap"} {
			if strings.HasPrefix(op, k) {
				op = k
				break
			}
		}
	}
	if t == nil {
		return false, false, false
	}
	if s.par != nil {
		_, tk := s.par.task(s)
		l := e.TokT("atomic", nil)
		tk.locks[l] = true
		e.touch(s, a, op != "Load", ins.Pos())
		delete(tk.locks, l)
	}
	s.top().pc++
	set := func(s *State, v *V) { s.frames[len(s.frames)-1].set(call, v) }
	old := e.load(s, a, t)
	switch op {
	case "Load":
		set(s, old)
	case "Store":
		e.store(s, a, rest[0], t)
	case "Swap":
		e.store(s, a, rest[0], t)
		set(s, old)
	case "Add":
		v := e.arith(token.ADD, old, rest[0], t)
		e.store(s, a, v, t)
		set(s, v)
	case "CompareAndSwap":
		c := e.eq(old, rest[0])
		if !c.isBool() {
			n := s.clone()
			set(n, e.Bool(false))
			e.work = append(e.work, n)
			c = e.Bool(true)
		}
		if c.boolVal() {
			e.store(s, a, rest[1], t)
		}
		set(s, c)
	}
	return true, false, true
}

func (p *parState) wg(a *V) *parWG {
	w := p.wgs[a]
	if w == nil {
		w = &parWG{}
		p.wgs[a] = w
	}
	return w
}

func (p *parState) wgDone(w *parWG, t int) {
	w.done = joinVC(w.done, p.tasks[t].vc)
	p.release(t)
	p.wake()
}

// taskEnd is called when the outermost function of a goroutine returns.
func (e *Engine) taskEnd(s *State, gid int) {
	p := s.par
	t := p.tasks[gid]
	t.ended = true
	if t.wgDone != nil {
		w := p.wg(t.wgDone)
		w.n--
		p.wgDone(w, gid)
	}
	p.wake()
}

// unfinished names the goroutines the main one has not waited for.
func (e *Engine) unfinished(s *State) []token.Pos {
	var r []token.Pos
	if s.par == nil {
		return nil
	}
	seen := map[token.Pos]bool{}
	for i, t := range s.par.tasks {
		if i > 0 && (!t.ended || vcAt(s.par.tasks[0].vc, i) < t.eff) && !seen[t.site] {
			seen[t.site] = true
			r = append(r, t.site)
		}
	}
	return r
}
