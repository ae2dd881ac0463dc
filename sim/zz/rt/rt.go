// Package rt is the core of the simulator: tasks, the scheduler, virtual time,
// enumeration orders, happens-before tracking and the event log.
//
// A simulated run (Sim) consists of tasks. Every task is a goroutine, exactly
// one of them runs at any time, the others are parked on a channel. The
// instrumented code calls Y before every statement; that, a lock operation, a
// blocked task and the end of a task are the points, where the simulator
// decides which task continues. Nothing else is concurrent.
package rt

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Sites maps the site numbers of the instrumentation to source positions
var Sites []string

// Reached records the sites, which were executed in this process
var Reached []bool

func reach(site int) {
	if site >= 0 && site < len(Reached) {
		Reached[site] = true
	}
}

func SiteName(site int) string {
	if site >= 0 && site < len(Sites) {
		return Sites[site]
	}
	return "?"
}

// PRNG is a splitmix64 generator
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed} }

func (p *PRNG) U64() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n)
func (p *PRNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.U64() % uint64(n))
}

// P is true with probability num/den
func (p *PRNG) P(num, den int) bool { return p.N(den) < num }

func Mix(vals ...uint64) uint64 {
	p := PRNG{0x1234567}
	for _, v := range vals {
		p.s ^= v
		p.s = p.U64()
	}
	return p.s
}

// Switch is a scheduling decision, which differs from the default:
// when task Task reached its decision point Step, task To continued.
type Switch struct {
	Task int `json:"t"`
	Step int `json:"s"`
	To   int `json:"to"`
}

// Sched selects the schedule of a run
type Sched struct {
	Mode     string   `json:"mode,omitempty"` // "", "replay": only Switches; "rand": switch with probability 1/Den; "pct": priorities
	Seed     uint64   `json:"seed,omitempty"`
	Den      int      `json:"den,omitempty"`
	Horizon  int      `json:"horizon,omitempty"` // pct: change points are placed in [0,Horizon)
	Switches []Switch `json:"switches,omitempty"`
}

type Config struct {
	Order uint64 // seed of enumeration orders, 0: sorted
	Sched Sched
	Limit int // steps, after which a run does not make progress
}

// Violation of a property, found while the run proceeds
type Violation struct {
	Class string
	Msg   string
}

type Result struct {
	Violations []Violation
	Steps      int
	SimTime    time.Duration
	Switches   []Switch // all decisions, which differ from the default
	Decisions  int      // number of points with a choice
	Tasks      int
	Hash       uint64 // of the event log
	OrderPicks int    // enumerations, whose order has been chosen by the simulator
	TraceHash  uint64 // of the sequence of (task, site) at task switches
}

const (
	stRunnable = iota
	stBlocked
	stDone
)

type Task struct {
	ID     int
	Name   string
	Group  int
	wake   chan struct{}
	state  int
	ready  func() bool
	wakeAt time.Duration // < 0: no timer
	why    string
	step   int
	order  uint64
	killed bool
	parent *Task
	prio   int
	vc     []int
	site   int
	panicV interface{}
	stack  string
}

func (t *Task) Panic() (interface{}, string) { return t.panicV, t.stack }
func (t *Task) Done() bool                   { return t.state == stDone }
func (t *Task) Killed() bool                 { return t.killed }

type Sim struct {
	cfg       Config
	tasks     []*Task
	alive     []*Task // tasks which have not ended, by ID
	cur       *Task
	live      int
	steps     int
	clock     time.Duration
	aborted   bool
	res       Result
	replay    map[[2]int]int
	rnd       *PRNG
	countdown int
	change    map[int]bool
	lowPrio   int
	race      bool
	shadow    map[uintptr]*shadow
	chans     map[uintptr]*chanState
	finished  chan struct{}
	hash      uint64
	trace     uint64
	timers    []*Timer
	Group     int // group of newly spawned tasks
	Log       []string
	KeepLog   bool
}

// active is the simulation, which is currently running
var active *Sim

func Active() *Sim { return active }

// Run executes main as the first task of a new simulation
func Run(cfg Config, main func(s *Sim)) *Result {
	s := NewSim(cfg)
	return s.Run(main)
}

func NewSim(cfg Config) *Sim {
	if cfg.Limit == 0 {
		cfg.Limit = 300000
	}
	s := &Sim{cfg: cfg, finished: make(chan struct{})}
	s.rnd = NewPRNG(Mix(cfg.Sched.Seed, 77))
	s.replay = map[[2]int]int{}
	for _, sw := range cfg.Sched.Switches {
		s.replay[[2]int{sw.Task, sw.Step}] = sw.To
	}
	s.hash = 14695981039346656037
	s.trace = 14695981039346656037
	s.drawCountdown()
	if cfg.Sched.Mode == "pct" {
		s.change = map[int]bool{}
		h := cfg.Sched.Horizon
		if h <= 0 {
			h = 1000
		}
		for i := 0; i < cfg.Sched.Den; i++ {
			s.change[s.rnd.N(h)] = true
		}
	}
	return s
}

type reset struct {
	order int
	fn    func()
}

var resets []reset

// OnReset registers the initialisation of a package variable
func OnReset(order int, fn func()) {
	resets = append(resets, reset{order, fn})
	sort.SliceStable(resets, func(i, j int) bool { return resets[i].order < resets[j].order })
}

// Globals are pointers to the package variables of the instrumented packages
var Globals []interface{}

func ZeroOf[T any](p *T) (zero T) { return }

func (s *Sim) Run(main func(s *Sim)) *Result {
	if active != nil {
		panic("nested simulation")
	}
	for _, r := range resets {
		r.fn()
	}
	active = s
	t := s.newTask("main", nil)
	t.Group = -1
	s.cur = t
	s.start(t, func() { main(s) })
	t.wake <- struct{}{}
	<-s.finished
	active = nil
	s.res.Steps = s.steps
	s.res.SimTime = s.clock + time.Duration(s.steps)*time.Microsecond
	s.res.Tasks = len(s.tasks)
	s.res.Hash = s.hash
	s.res.TraceHash = s.trace
	return &s.res
}

func (s *Sim) newTask(name string, parent *Task) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}), wakeAt: -1, parent: parent, Group: s.Group}
	if parent != nil {
		t.vc = append([]int{}, parent.vc...)
		t.Group = parent.Group
		s.tick(parent)
	}
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID] = 1
	if s.cfg.Sched.Mode == "pct" {
		t.prio = s.rnd.N(1000)
	}
	s.tasks = append(s.tasks, t)
	s.alive = append(s.alive, t)
	s.live++
	return t
}

func (s *Sim) start(t *Task, fn func()) {
	go func() {
		<-t.wake
		defer s.end(t)
		defer func() {
			if t.killed || s.aborted {
				_ = recover()
				return
			}
			if r := recover(); r != nil {
				t.panicV = r
				buf := make([]byte, 16384)
				t.stack = string(buf[:runtime.Stack(buf, false)])
			}
		}()
		if t.killed {
			return
		}
		fn()
	}()
}

// Spawn creates a task in group
func (s *Sim) Spawn(name string, group int, fn func()) *Task {
	parent := s.cur
	t := s.newTask(name, parent)
	t.Group = group
	if s.live > 2 {
		s.race = true
	}
	s.start(t, fn)
	return t
}

// Go is the simulated go statement
func Go(fn func()) {
	s := active
	if s == nil {
		go fn()
		return
	}
	if s.cur.killed || s.aborted {
		return
	}
	s.race = true
	t := s.newTask("go", s.cur)
	s.start(t, func() {
		fn()
	})
}

// Join waits until the tasks have ended
func (s *Sim) Join(tasks ...*Task) {
	for _, t := range tasks {
		t := t
		s.Block("join", func() bool { return t.state == stDone })
		s.acquire(s.cur, t.vc)
	}
}

// JoinAll waits until no task of the group is left
func (s *Sim) JoinAll(group int) {
	for i := 0; i < len(s.tasks); i++ {
		if t := s.tasks[i]; t != s.cur && t.Group == group && t.state != stDone {
			s.Join(t)
		}
	}
}

func (s *Sim) Cur() *Task    { return s.cur }
func (s *Sim) Steps() int    { return s.steps }
func (s *Sim) Aborted() bool { return s.aborted }

// SetLimit changes the step limit, relative to the current step
func (s *Sim) SetLimit(n int) { s.cfg.Limit = s.steps + n }

func (s *Sim) Tasks() []*Task { return s.tasks }

// end is called by the goroutine of a task, right before it ends
func (s *Sim) end(t *Task) {
	t.state = stDone
	s.live--
	for i, o := range s.alive {
		if o == t {
			s.alive = append(s.alive[:i:i], s.alive[i+1:]...)
			break
		}
	}
	if s.live == 1 && s.race {
		s.race = false // everything else happened before
		s.shadow = nil
	}
	if t.panicV != nil && t.ID != 0 && t.Name == "go" {
		s.Violate("panic", fmt.Sprintf("panic in a goroutine: %v\n%s", t.panicV, t.stack))
	}
	if t.ID == 0 {
		if t.panicV != nil {
			s.Violate("harness-panic", fmt.Sprintf("%v\n%s", t.panicV, t.stack))
		}
		// the run is over, tasks which are still there are removed
		s.aborted = true
	}
	if s.live == 0 {
		close(s.finished)
		return
	}
	if s.aborted {
		s.resumeAny()
		return
	}
	next := s.pickBlocked(t)
	if next == nil {
		s.deadlock()
		s.resumeAny()
		return
	}
	s.switchTo(t, next)
	next.wake <- struct{}{}
}

// resumeAny lets the remaining tasks end one after another
func (s *Sim) resumeAny() {
	for i := len(s.alive) - 1; i >= 0; i-- {
		if t := s.alive[i]; t.state != stDone {
			s.cur = t
			t.killed = true
			t.wake <- struct{}{}
			return
		}
	}
}

// Violate records a violation and ends the run
func (s *Sim) Violate(class, msg string) {
	if s.aborted {
		return
	}
	s.res.Violations = append(s.res.Violations, Violation{class, msg})
	s.aborted = true
}

// Fail records a violation and ends the current task
func (s *Sim) Fail(class, msg string) {
	s.Violate(class, msg)
	s.cur.killed = true
	runtime.Goexit()
}

func (s *Sim) runnable(t *Task) bool {
	switch t.state {
	case stRunnable:
		return true
	case stBlocked:
		if t.killed {
			return true
		}
		if t.wakeAt >= 0 && t.wakeAt <= s.clock {
			return true
		}
		return t.ready != nil && t.ready()
	}
	return false
}

// decision returns the task, which continues. def is the default.
func (s *Sim) decision(t *Task, def *Task, cands []*Task) *Task {
	key := [2]int{t.ID, t.step}
	t.step++
	s.res.Decisions++
	next := def
	switch s.cfg.Sched.Mode {
	case "rand":
		if def != t {
			next = cands[s.rnd.N(len(cands))]
		} else if s.countdown--; s.countdown <= 0 {
			s.drawCountdown()
			next = cands[s.rnd.N(len(cands))]
		}
	case "pct":
		if s.change[s.res.Decisions] {
			s.lowPrio--
			t.prio = s.lowPrio
		}
		best := cands[0]
		for _, c := range cands[1:] {
			if c.prio > best.prio {
				best = c
			}
		}
		next = best
	default:
		if to, ok := s.replay[key]; ok {
			for _, c := range cands {
				if c.ID == to {
					next = c
				}
			}
		}
	}
	if next != def {
		s.res.Switches = append(s.res.Switches, Switch{key[0], key[1], next.ID})
	}
	return next
}

func (s *Sim) drawCountdown() {
	den := s.cfg.Sched.Den
	if den < 1 {
		den = 1
	}
	s.countdown = 1 + s.rnd.N(2*den-1)
}

// pickBlocked chooses the next task, when t can not continue
func (s *Sim) pickBlocked(t *Task) *Task {
	for {
		cands := []*Task{}
		var def *Task
		n := len(s.alive)
		first := 0 // the first task after t
		for first < n && s.alive[first].ID <= t.ID {
			first++
		}
		for i := 0; i < n; i++ {
			c := s.alive[(first+i)%n]
			if s.runnable(c) {
				if def == nil {
					def = c
				}
				cands = append(cands, c)
			}
		}
		if len(cands) == 0 {
			if s.advance() {
				continue
			}
			return nil
		}
		if len(cands) == 1 {
			return def
		}
		return s.decision(t, def, cands)
	}
}

// advance moves the clock to the next timer
func (s *Sim) advance() bool {
	next := time.Duration(-1)
	for _, t := range s.alive {
		if t.state == stBlocked && t.wakeAt >= 0 && (next < 0 || t.wakeAt < next) {
			next = t.wakeAt
		}
	}
	for _, t := range s.timers {
		if next < 0 || t.at < next {
			next = t.at
		}
	}
	if next < 0 || next < s.clock {
		return false
	}
	s.clock = next
	s.fire()
	return true
}

func (s *Sim) switchTo(from, to *Task) {
	if from != to {
		s.trace = (s.trace ^ uint64(from.ID*64+to.ID)) * 1099511628211
		s.trace = (s.trace ^ uint64(from.site)) * 1099511628211
	}
	s.cur = to
	to.state = stRunnable
	to.ready = nil
	to.wakeAt = -1
}

func (s *Sim) deadlock() {
	var sb strings.Builder
	for _, t := range s.tasks {
		if t.state == stBlocked {
			fmt.Fprintf(&sb, " [%s waits for %s at %s]", t.Name, t.why, SiteName(t.site))
		}
	}
	s.Violate("deadlock", "no task can continue:"+sb.String())
}

// Block suspends the current task until ready reports true
func (s *Sim) Block(why string, ready func() bool) {
	s.block(why, ready, -1)
}

// Sleep suspends the current task for d
func (s *Sim) Sleep(d time.Duration) {
	s.block("timer", nil, s.clock+d)
}

func (s *Sim) block(why string, ready func() bool, wakeAt time.Duration) {
	t := s.cur
	if t.killed || s.aborted {
		return
	}
	if ready != nil && ready() {
		return
	}
	t.state = stBlocked
	t.ready = ready
	t.wakeAt = wakeAt
	t.why = why
	next := s.pickBlocked(t)
	if next == nil {
		s.deadlock()
		t.state = stRunnable
		t.killed = true
		runtime.Goexit()
	}
	s.switchTo(t, next)
	if next != t {
		next.wake <- struct{}{}
		<-t.wake
	}
	s.check(t)
}

// check ends tasks which have been killed
func (s *Sim) check(t *Task) {
	if s.aborted {
		t.killed = true
	}
	if t.killed {
		t.state = stRunnable
		runtime.Goexit()
	}
}

// Y is a scheduling point
func Y(site int) {
	s := active
	if s == nil {
		return
	}
	s.yield(site)
}

func (s *Sim) yield(site int) {
	t := s.cur
	if t.killed {
		return
	}
	if s.aborted {
		s.check(t)
	}
	s.steps++
	if site >= 0 {
		t.site = site
		reach(site)
	}
	if s.steps > s.cfg.Limit {
		s.Fail("no-progress", fmt.Sprintf("the call does not end: %d steps, last at %s", s.steps, SiteName(t.site)))
	}
	if s.live <= 1 {
		return
	}
	s.Reschedule()
}

// Reschedule is a scheduling point
func (s *Sim) Reschedule() {
	t := s.cur
	if t.killed || s.aborted {
		return
	}
	var cbuf [8]*Task
	cands := cbuf[:0]
	for _, c := range s.alive {
		if c == t || s.runnable(c) {
			cands = append(cands, c)
		}
	}
	if len(cands) < 2 {
		return
	}
	next := s.decision(t, t, cands)
	if next == t {
		return
	}
	s.switchTo(t, next)
	next.wake <- struct{}{}
	<-t.wake
	s.check(t)
}

// Kill ends all tasks of a group, as a crash of a process does.
// It does not return, if the current task belongs to the group.
func (s *Sim) Kill(group int) {
	self := false
	for _, t := range s.alive {
		if t.Group == group && t.state != stDone {
			t.killed = true
			if t == s.cur {
				self = true
			}
		}
	}
	if self {
		runtime.Goexit()
	}
}

// Dead reports whether the current task must not have any effect any more
func Dead() bool {
	return active != nil && (active.cur.killed || active.aborted)
}

// ---- event log

// Event appends an entry to the event log of the run
func (s *Sim) Event(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	_, _ = h.Write([]byte(msg))
	s.hash = (s.hash ^ h.Sum64()) * 1099511628211
	if s.KeepLog {
		s.Log = append(s.Log, fmt.Sprintf("%6d t%d %s", s.steps, s.cur.ID, msg))
	}
}

// ---- virtual time

var epoch = time.Date(2022, 11, 5, 12, 0, 0, 0, time.UTC)

func Now() time.Time {
	s := active
	if s == nil {
		return epoch
	}
	return epoch.Add(s.clock + time.Duration(s.steps)*time.Microsecond)
}

// Advance moves the clock
func (s *Sim) Advance(d time.Duration) { s.clock += d; s.fire() }

type Timer struct {
	at time.Duration
	fn func()
}

// AfterFunc calls fn in a task of its own
func AfterFunc(d time.Duration, fn func()) *Timer {
	s := active
	if s == nil {
		return &Timer{}
	}
	t := &Timer{at: s.clock + d, fn: fn}
	s.timers = append(s.timers, t)
	return t
}

func (t *Timer) Stop() bool {
	s := active
	if s == nil {
		return false
	}
	for i, o := range s.timers {
		if o == t {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			return true
		}
	}
	return false
}

func (s *Sim) fire() {
	due := []*Timer{}
	rest := []*Timer{}
	for _, t := range s.timers {
		if t.at <= s.clock {
			due = append(due, t)
		} else {
			rest = append(rest, t)
		}
	}
	s.timers = rest
	sort.SliceStable(due, func(i, j int) bool { return due[i].at < due[j].at })
	for _, t := range due {
		n := s.newTask("go", s.cur)
		s.race = true
		s.start(n, t.fn)
	}
}

// ---- enumeration orders

// Perm returns the order in which n entries are visited
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	s := active
	if s == nil || n < 2 || s.cfg.Order == 0 {
		return p
	}
	t := s.cur
	t.order++
	s.res.OrderPicks++
	r := NewPRNG(Mix(s.cfg.Order, uint64(t.ID), t.order))
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// SetOrder changes the seed of enumeration orders
func (s *Sim) SetOrder(seed uint64) { s.cfg.Order = seed; s.cur.order = 0 }

// Rand returns the generator behind the simulated math/rand
func Rand() *PRNG {
	s := active
	if s == nil {
		return NewPRNG(1)
	}
	t := s.cur
	t.order++
	return NewPRNG(Mix(s.cfg.Order, uint64(t.ID), t.order, 99))
}
