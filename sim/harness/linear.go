package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"zzsim.local/rt"
)

// Worlds "roles-concurrent" (C14) and "cache" (C15): threads use one role
// manager or one cache at the same time. The history of calls and returns has
// to be linearizable with respect to the sequential reference.

func init() {
	worlds["roles-concurrent"] = roleConcWorld{}
	register(&Prop{ID: "C14", World: "roles-concurrent", Quick: 600000, Thorough: 3000000,
		Rule:       "Random initial grants, then 2 to 4 (sometimes up to 8) threads, which grant, revoke, check, list, enumerate (also with callbacks, which use the role manager) and clear, directly or through a role policy, on one role manager or domain manager, under random and priority-based schedules with a scheduling point before every statement; the recorded history, followed by an enumeration and checks, is searched for a linearization.",
		Components: []string{"RoleManager", "DomainManager", "RolePolicy", "Role", "SyncLRUCache", "PathMatcher", "RegexMatcher", "event emitter"},
		Stubs:      []string{"sync, map enumeration order, scheduler"}})
	worlds["cache"] = cacheWorld{}
	register(&Prop{ID: "C15", World: "cache", Quick: 1000000, Thorough: 20000000,
		Rule:       "1 to 4 (sometimes up to 8) threads read and write one synchronised cache with a capacity of 1 to 5 (sometimes 0, or up to 120) under random and priority-based schedules, followed by reads of all keys and further writes; the recorded history is searched for a linearization with respect to a least-recently-used reference.",
		Components: []string{"SyncLRUCache", "LRUCache"},
		Stubs:      []string{"sync, scheduler"}})
}

// event is a call of a recorded history
type event struct {
	inv, ret int // ret 0: the call did not return
	desc     string
	apply    func(state linState) linState // nil, if the answer does not fit
}

type linState interface {
	clone() linState
	id() string
}

// linearizable searches an order of the calls, which is consistent with real time.
// Calls are numbered by their start; the calls before base are done, and done
// has a bit for each of the calls from base.
func linearizable(events []*event, init linState) bool {
	n := len(events)
	sort.SliceStable(events, func(i, j int) bool { return events[i].inv < events[j].inv })
	type memo struct {
		base int
		done uint64
		id   string
	}
	seen := map[memo]bool{}
	var search func(base int, done uint64, s linState) bool
	search = func(base int, done uint64, s linState) bool {
		for done&1 != 0 {
			base, done = base+1, done>>1
		}
		if base == n {
			return true
		}
		k := memo{base, done, s.id()}
		if seen[k] {
			return false
		}
		seen[k] = true
		if n > 60 && len(seen) > 20000 {
			return true // too many orders: no verdict
		}
		first := 1 << 60 // the first return of an open call
		for i, e := range events[base:] {
			if e.inv > first {
				break
			}
			if (i >= 64 || done&(1<<i) == 0) && e.ret < first {
				first = e.ret
			}
		}
		for i, e := range events[base:] {
			if e.inv > first {
				break
			}
			if i >= 64 {
				return true // too many calls during one other call: no verdict
			}
			if done&(1<<i) != 0 {
				continue
			}
			if next := e.apply(s.clone()); next != nil && search(base, done|1<<i, next) {
				return true
			}
		}
		return false
	}
	return search(0, 0, init)
}

func history(events []*event) string {
	lines := []string{}
	for _, e := range events {
		lines = append(lines, fmt.Sprintf("[%d..%d] %s", e.inv, e.ret, e.desc))
	}
	return strings.Join(lines, "; ")
}

// ---- role managers

type roleConcWorld struct{}

type roleState struct{ *roleRef }

func (s roleState) clone() linState { return roleState{s.roleRef.clone()} }
func (s roleState) id() string {
	return strings.Join(s.grants.keys(), " ") + s.m.kind + s.dm.kind + fmt.Sprint(len(s.known))
}

func (roleConcWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	c := &Case{Order: r.U64()}
	g := newRoleGen(r, c)
	if len(g.names) > 5 && r.P(2, 3) {
		g.names = g.names[:5]
	}
	if len(g.domains) > 2 && r.P(2, 3) {
		g.domains = g.domains[:2]
	}
	for i := r.N(6); i > 0; i-- {
		c.Ops = append(c.Ops, Op{K: "add", R: g.link()})
	}
	if r.P(1, 5) {
		c.Ops = append(c.Ops, Op{K: "del", R: g.link()})
	}
	if r.P(1, 100) { // many grants
		dom := g.dom()
		for i := roundSize(r, 130); i > 0; i-- {
			x := []string{fmt.Sprintf("u%d", i), pick(r, g.names)}
			if r.P(1, 3) {
				x = []string{pick(r, g.names), fmt.Sprintf("u%d", i)}
			}
			c.Ops = append(c.Ops, Op{K: "add", R: append(x, dom...)})
			if r.P(1, 20) {
				g.used = append(g.used, c.Ops[len(c.Ops)-1].R)
			}
		}
		g.names = append(g.names, "u1", "u2")
	}
	threads := 2 + r.N(3)
	n := threads + 1 + r.N(9)
	if n > 11 {
		n = 11
	}
	crowd := 0 // threads, which all do something
	if r.P(1, 20) {
		threads = 5 + r.N(4)
		crowd, n = threads, threads+r.N(3)
	}
	reads := r.P(1, 5) // mostly queries
	for i := 0; i < n; i++ {
		op := Op{}
		switch k := r.N(24); {
		case k < 8 && !(reads && r.P(3, 4)):
			op = Op{K: "add", R: g.link()}
		case k < 13 && !(reads && r.P(3, 4)):
			op = Op{K: "del", R: g.link()}
		case k == 13 && r.P(1, 2):
			op = Op{K: "clear"}
		case k == 14 && r.P(1, 4):
			op = Op{K: "setm", S: pick(r, []string{"", c.Text["m"]})}
		case k == 15 && g.depth > 0 && r.P(1, 4):
			op = Op{K: "setdm", S: pick(r, []string{"", c.Text["dm"]})}
		default:
			op = g.query("has", "has", "has", "roles", "users", "range", "domains", "alldomains")
			if op.K == "range" && r.P(1, 2) {
				op.S = pick(r, []string{"has", "del", "add", "range"}) // done by the callback
			}
		}
		op.B = r.P(1, 4)
		op.Th = 1 + r.N(threads)
		if i < crowd {
			op.Th = i + 1
		}
		c.Ops = append(c.Ops, op)
	}
	// a final look at the result
	for i := r.N(5); i > 0; i-- {
		c.Ops = append(c.Ops, g.query("has", "roles", "users"))
	}
	c.Sched = genSched(r, 120)
	return c
}

func (roleConcWorld) Run(e *Env) {
	var rm roleManager
	var pol *rbac.RolePolicy
	e.limit *= 3
	ops := e.C.Ops
	first, last := len(ops), 0
	for i, op := range ops {
		if op.Th > 0 {
			last = i + 1
			if i < first {
				first = i
			}
		}
	}
	if last == 0 {
		first = 0
	}
	start := func() *roleRef {
		var ref *roleRef
		e.Call("start", func() {
			rm, pol, ref = newRoleManager(e)
			for i := range ops[:first] {
				op := ops[i]
				if op.K != "add" && op.K != "del" {
					continue
				}
				a := roleCall(rm, pol, &Op{K: op.K, R: op.R})
				if msg := ref.step(&op, a); msg != "" {
					e.FailFor("-", "start", "%s", msg)
				}
			}
		})
		return ref
	}
	ref := start()

	clock := 0
	tick := func() int { clock++; return clock }
	events := []*event{}
	do := func(op *Op, nested func(*roleAnswer)) {
		ev := &event{inv: tick()}
		events = append(events, ev)
		a := roleCallNested(rm, pol, op, nested)
		ev.ret = tick()
		e.S.Event("return %s %v %d %d", op.K, a.ok, len(a.names), len(a.links))
		ev.desc = fmt.Sprintf("%v -> %v %q %q", op, a.ok, sortedCopy(a.names), a.links)
		if a.err != nil {
			ev.desc += " " + a.err.Error()
		}
		ev.apply = func(s linState) linState {
			if s.(roleState).step(op, a) != "" {
				return nil
			}
			return s
		}
		e.State(append(ref.grants.keys(), ev.desc)...)
	}
	run := func(i int) {
		op := ops[i]
		inner := op.S
		if op.K != "range" || inner == "" {
			do(&op, nil)
			return
		}
		op.S = ""
		do(&op, func(a *roleAnswer) { // the callback of an enumeration
			if len(a.links) > 2 || len(events) > 40 {
				return
			}
			link := a.links[len(a.links)-1]
			if inner == "range" {
				link = nil
			}
			do(&Op{K: inner, R: link}, nil)
		})
	}

	e.S.SetLimit(e.limit)
	e.S.SetOrder(e.C.Order)
	threads := map[int][]int{}
	ids := []int{}
	for i := first; i < last; i++ {
		if threads[ops[i].Th] == nil {
			ids = append(ids, ops[i].Th)
		}
		threads[ops[i].Th] = append(threads[ops[i].Th], i)
	}
	tasks := []*rt.Task{}
	for _, id := range ids {
		list := threads[id]
		tasks = append(tasks, e.S.Spawn(fmt.Sprintf("thread %d", id), 1000+id, func() {
			for _, i := range list {
				run(i)
			}
		}))
	}
	e.S.Join(tasks...)
	for _, t := range tasks {
		if p, stack := t.Panic(); p != nil {
			e.Fail("panic", "a call panics: %v\n%s", p, stack)
		}
	}
	e.Call("final", func() {
		do(&Op{K: "range"}, nil)
		for i := last; i < len(ops); i++ {
			switch ops[i].K {
			case "has", "roles", "users":
				run(i)
			}
		}
	})
	e.Probe(fmt.Sprintf("history-of-%d-threads", len(ids)))
	if overlapping(events) {
		e.Probe("overlapping-calls")
	}

	if linearizable(events, roleState{ref}) {
		return
	}
	text := history(events)
	// are the answers right, if the calls are made one after another?
	order := append([]*event{}, events...)
	sort.SliceStable(order, func(i, j int) bool { return order[i].ret < order[j].ret })
	for variant := 0; variant < 2; variant++ {
		ref = start()
		events = nil
		e.Call("sequential", func() {
			if variant == 0 {
				for i := first; i < last; i++ {
					run(i)
				}
			} else {
				for _, id := range ids {
					for _, i := range threads[id] {
						run(i)
					}
				}
			}
			do(&Op{K: "range"}, nil)
			for i := last; i < len(ops); i++ {
				switch ops[i].K {
				case "has", "roles", "users":
					run(i)
				}
			}
		})
		if !linearizable(events, roleState{ref}) {
			e.FailFor("-", "sequential", "%s", history(events))
		}
	}
	e.Fail("linearizability", "no order of these calls explains the answers: %s", text)
}

func overlapping(events []*event) bool {
	for i, a := range events {
		for _, b := range events[i+1:] {
			if b.inv < a.ret {
				return true
			}
		}
	}
	return false
}

// ---- cache

type cacheWorld struct{}

func (cacheWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	c := &Case{Order: r.U64()}
	capacity := 1 + r.N(3)
	if r.P(1, 10) {
		capacity = 4 + r.N(2)
	}
	if r.P(1, 40) {
		capacity = -r.N(2) // stores nothing
	}
	long := r.P(1, 200)
	if long {
		capacity = 20 + r.N(100)
	}
	c.Cfg = map[string]int{"capacity": capacity}
	keys := capacity + r.N(3)
	if keys < 2 {
		keys = 2
	}
	threads := 1 + r.N(4)
	if long && r.P(1, 2) {
		threads = 1
	}
	crowd := 0
	if !long && threads > 1 && r.P(1, 20) {
		threads = 5 + r.N(4)
		crowd = threads
	}
	c.Cfg["plain"] = 0
	if threads == 1 && r.P(1, 3) {
		c.Cfg["plain"] = 1
	}
	value := 0
	op := func(th int) Op {
		o := Op{K: "get", N: r.N(keys), Th: th}
		if r.P(1, 2) {
			value++
			o.K, o.S = "put", fmt.Sprint(value)
			if r.P(1, 20) {
				o.S = "nil"
			}
		}
		return o
	}
	for i := r.N(keys); i > 0; i-- {
		c.Ops = append(c.Ops, op(0))
	}
	n := threads + r.N(9)
	if threads == 1 {
		n = 4 + r.N(24)
	}
	if long {
		n = 2*capacity + r.N(2*capacity)
	}
	for i := 0; i < n; i++ {
		th := 1 + r.N(threads)
		if i < crowd {
			th = i + 1
		}
		c.Ops = append(c.Ops, op(th))
	}
	for i := r.N(3); i > 0; i-- {
		o := op(0)
		c.Ops = append(c.Ops, o)
	}
	if capacity > 0 && r.P(1, 2) { // ask for the entries in the order they should be evicted
		ref := lruRef{capacity: capacity}
		for i := range c.Ops {
			ref = ref.apply(&c.Ops[i])
		}
		for i := r.N(len(ref.entries) + 1); i > 0; i-- {
			victim := ref.entries[len(ref.entries)-1].k
			value++
			c.Ops = append(c.Ops, Op{K: "put", N: keys, S: fmt.Sprint(value)}, Op{K: "get", N: victim})
			ref = ref.apply(&c.Ops[len(c.Ops)-2])
			keys++
		}
	}
	for _, k := range permute(r, keys) {
		c.Ops = append(c.Ops, Op{K: "get", N: k})
		if r.P(1, 3) {
			c.Ops = append(c.Ops, op(0))
		}
	}
	c.Sched = genSched(r, 40)
	return c
}

type lruRef struct {
	capacity int
	entries  []lruEntry // most recently used first
}

type lruEntry struct {
	k int
	v string
}

func (l lruRef) clone() linState {
	return lruRef{l.capacity, append([]lruEntry{}, l.entries...)}
}
func (l lruRef) id() string { return fmt.Sprint(l.entries) }

func (l lruRef) take(k int) (lruEntry, lruRef, bool) {
	for i, e := range l.entries {
		if e.k == k {
			return e, lruRef{l.capacity, append(append([]lruEntry{}, l.entries[:i]...), l.entries[i+1:]...)}, true
		}
	}
	return lruEntry{}, l, false
}

func (l lruRef) front(e lruEntry) lruRef {
	return lruRef{l.capacity, append([]lruEntry{e}, l.entries...)}
}

// apply is the effect of a read or a write
func (l lruRef) apply(op *Op) lruRef {
	x, rest, has := l.take(op.N)
	switch {
	case op.K == "put" && l.capacity > 0:
		if !has && len(rest.entries) >= l.capacity {
			rest = lruRef{l.capacity, rest.entries[:len(rest.entries)-1]}
		}
		return rest.front(lruEntry{op.N, op.S})
	case op.K == "get" && has:
		return rest.front(x)
	}
	return l
}

type cache interface {
	Get(key interface{}) (interface{}, bool)
	Put(key interface{}, value interface{})
}

func (cacheWorld) Run(e *Env) {
	var c cache
	capacity := e.C.Cfg["capacity"]
	e.Call("start", func() {
		if e.C.Cfg["plain"] == 1 {
			c = util.NewLRUCache(capacity)
		} else {
			c = util.NewSyncLRUCache(capacity)
		}
	})
	// keys of different types are different keys
	keyOf := func(n int) interface{} {
		switch n % 3 {
		case 1:
			return n
		case 2:
			return fmt.Sprint(n - 1)
		}
		return fmt.Sprint("key", n)
	}
	clock := 0
	tick := func() int { clock++; return clock }
	events := []*event{}
	do := func(op Op) {
		ev := &event{inv: tick()}
		events = append(events, ev)
		k := op.N
		if op.K == "put" {
			var v interface{} = op.S
			if op.S == "nil" {
				v = nil
			}
			c.Put(keyOf(k), v)
			ev.ret = tick()
			ev.desc = fmt.Sprintf("Put(%d, %s)", k, op.S)
			ev.apply = func(s linState) linState {
				return s.(lruRef).apply(&op)
			}
			return
		}
		v, ok := c.Get(keyOf(k))
		ev.ret = tick()
		got := "nil"
		if v != nil {
			got = fmt.Sprint(v)
		}
		e.S.Event("get %d %s %v", k, got, ok)
		ev.desc = fmt.Sprintf("Get(%d) = %s, %v", k, got, ok)
		ev.apply = func(s linState) linState {
			x, rest, has := s.(lruRef).take(k)
			if has != ok || !has && v != nil || has && x.v != got {
				return nil
			}
			if !has {
				return rest
			}
			return rest.front(x)
		}
		if ok {
			e.Probe("hit")
		} else {
			e.Probe("miss")
		}
	}
	ops := e.C.Ops
	e.limit = 100000
	for i := 0; i < len(ops); {
		j := i
		if ops[i].Th == 0 {
			for j < len(ops) && ops[j].Th == 0 {
				j++
			}
			list := ops[i:j]
			e.Call("alone", func() {
				for _, op := range list {
					do(op)
				}
			})
			i = j
			continue
		}
		for j < len(ops) && ops[j].Th > 0 {
			j++
		}
		threads := map[int][]Op{}
		ids := []int{}
		for _, op := range ops[i:j] {
			if threads[op.Th] == nil {
				ids = append(ids, op.Th)
			}
			threads[op.Th] = append(threads[op.Th], op)
		}
		e.S.SetLimit(e.limit)
		tasks := []*rt.Task{}
		for _, id := range ids {
			list := threads[id]
			tasks = append(tasks, e.S.Spawn(fmt.Sprintf("thread %d", id), 1000+id, func() {
				for _, op := range list {
					do(op)
				}
			}))
		}
		e.S.Join(tasks...)
		for _, t := range tasks {
			if p, stack := t.Panic(); p != nil {
				e.Fail("panic", "a call panics: %v\n%s", p, stack)
			}
		}
		e.Probe(fmt.Sprintf("history-of-%d-threads", len(ids)))
		i = j
	}
	if overlapping(events) {
		e.Probe("overlapping-calls")
	}
	for i, ev := range events {
		e.State(fmt.Sprint(i, capacity, ev.desc))
	}
	if len(events) > 60 {
		e.Probe("long-history")
	}
	if !linearizable(events, lruRef{capacity: capacity}) {
		e.Fail("linearizability", "capacity %d, no order of these calls explains the answers: %s", capacity, history(events))
	}
}
