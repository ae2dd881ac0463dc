package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/abichinger/fastac"
	"zzsim.local/rt"
)

// World "residue" (C17): queries of any kind are repeated many times, with
// names that differ between the repetitions. Enumerations and listings must be
// the same before and after, and neither the number of objects reachable from
// the enforcer nor the number of simulated steps of a fixed set of probe
// operations may grow with the number of queries. Answers are not judged here.
//
// Caches of bounded size are no residue: what grows at first is watched for
// many more repetitions, and counts only if it keeps growing at that rate.

func init() {
	worlds["residue"] = residueWorld{}
	register(&Prop{ID: "C17", World: "residue", Quick: 12000, Thorough: 250000,
		Rule:       "Random models, rules (in half of the cases with names and domains which are patterns) and 1 to 4 queries of any kind - failing, malformed, with ad-hoc and shared matchers, stopped, with contexts that can not be created, unknown users, roles and domains - which are repeated with varying names; enumerations, role and domain listings, reachable objects and the steps of probe operations are compared after different numbers of repetitions.",
		Components: []string{"Enforcer", "Context", "Model", "Policy", "RoleManager", "DomainManager", "Matcher", "MatcherDef", "Effector", "FunctionMap", "StorageController", "event emitter", "govaluate (not instrumented)"},
		Stubs:      []string{"in-memory storage adapter", "user functions, a role manager and an effector that fail at a chosen call", "sync, time, map enumeration order"}})
}

type residueWorld struct{}

var (
	resNames = []string{"alice", "bob", "admin", "staff", "/u/1", "/u/*", "nobody", "*"}
	resDoms  = []string{"x", "y", "/t/1", "/t/*", "nowhere"}
)

func (residueWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	g := newGen(r, prop, 5)
	c := g.c
	c.Cfg["pat"] = r.N(2)
	c.Cfg["wrap"] = r.N(2)
	c.Order = 0
	c.Sched = rt.Sched{}
	change := func() {
		op := Op{K: pick(r, []string{"add", "add", "add", "remove", "adds"}), R: g.rule()}
		if op.K == "adds" {
			op.R = nil
			for j := r.N(4); j > 0; j-- {
				op.RR = append(op.RR, g.rule())
			}
		}
		c.Ops = append(c.Ops, op)
	}
	for i := r.N(6); i > 0; i-- {
		change()
	}
	_, g2 := c.Text["g2"]
	if c.Cfg["pat"] == 1 {
		for i := 1 + r.N(4); i > 0; i-- {
			rule := []string{"g", pick(r, resNames), pick(r, resNames)}
			if g2 && r.P(1, 2) {
				rule = []string{"g2", pick(r, resNames), pick(r, resNames), pick(r, resDoms[:4])}
			}
			c.Ops = append(c.Ops, Op{K: "add", R: rule})
		}
	}
	for n := 1 + r.N(4); n > 0; n-- {
		op := Op{K: "q", N: r.N(8)}
		switch r.N(11) {
		case 10: // a rule, which is part of the request
			op.N |= 2
			op.Q = &Query{Kind: pick(r, []string{"enforce", "filter"}), M: "=p.sub != 'x' && eval(r.obj)", V: []string{"s:alice", pick(r, []string{"s:r.act != 7", "s:r.act ==", "s:r.nope == 7", "s:1 == 1"}), "s:read"}}
		case 0, 1, 2, 3:
			op.Q = g.query(0)
			if k := op.Q.Kind; r.P(1, 2) && (k == "enforce" || k == "filter" || k == "range") {
				g.breakQuery(op.Q)
			}
		case 4, 5, 6:
			op.Q = &Query{Kind: pick(r, []string{"haslink", "getroles", "getusers", "getdomains", "getalldomains"}), M: "g"}
			if g2 && r.P(2, 3) {
				op.Q.M = "g2"
			}
			op.Q.V = []string{pick(r, resNames)}
			if op.Q.Kind == "haslink" {
				op.Q.V = append(op.Q.V, pick(r, resNames))
			}
			if op.Q.Kind != "getdomains" && op.Q.Kind != "getalldomains" {
				if op.Q.M == "g2" && r.P(5, 6) {
					op.Q.V = append(op.Q.V, pick(r, resDoms))
				}
				if r.P(1, 8) {
					op.Q.V = append(op.Q.V, pick(r, resDoms))
				}
			}
		case 7: // a context, which is created and released
			op.Q = &Query{Kind: pick(r, []string{"context", "twice"}), M: "=" + g.matcher("r"), E: g.effectRef()}
		case 8: // a context, which can not be created
			op.Q = g.query(0)
			switch op.Q.Kind {
			case "enforce", "filter", "range":
				op.Q.M = "=" + g.matcher("r")
			default:
				op.Q = &Query{Kind: "context", M: "=" + g.matcher("r")}
			}
			op.Q.RD = "nope"
		case 9: // a request with too many or too few values, or an unsupported effect
			op.Q = &Query{Kind: pick(r, []string{"enforce", "filter", "range", "context"}), M: pick(r, []string{"", "m3", "d0", "=" + g.matcher("r")}), V: g.request("r")}
			switch r.N(3) {
			case 0:
				op.Q.V = append(op.Q.V, "s:more", "s:more", "s:more")
			case 1:
				op.Q.V = op.Q.V[:r.N(len(op.Q.V)+1)]
			default:
				op.Q.E = pick(r, []string{badEffect, "def:" + badEffect})
			}
		}
		op.Q.Nest, op.Q.At = nil, 0
		c.Ops = append(c.Ops, op)
	}
	return c
}

// vary derives repetition i of a query
func vary(q *Query, mask, i int) *Query {
	n := *q
	n.V = append([]string{}, q.V...)
	for j, v := range n.V {
		if mask>>(uint(j)%3)&1 == 0 {
			continue
		}
		switch q.Kind {
		case "enforce", "filter", "range", "context", "twice":
			if strings.HasPrefix(v, "s:") {
				n.V[j] = fmt.Sprintf("%s%d", v, i)
			}
		default:
			if v != "*" {
				n.V[j] = fmt.Sprintf("%s%d", v, i)
			}
		}
	}
	if mask&1 == 1 && strings.HasPrefix(n.M, "=") {
		n.M = fmt.Sprintf("=(%s) && 'v%d' != 'w'", n.M[1:], i)
	}
	return &n
}

type domainLister interface {
	GetDomains(name string) ([]string, error)
	GetAllDomains() ([]string, error)
}

// askAny issues a query; its answer is ignored
func (d *dworld) askAny(q *Query) (err error) {
	switch q.Kind {
	case "context", "twice":
		opts := []fastac.ContextOption{}
		for _, o := range d.options(q) {
			opts = append(opts, o.(fastac.ContextOption))
		}
		if q.Kind == "twice" { // the last option counts
			opts = append(opts, fastac.SetMatcher(d.e.C.Text["d0"]), fastac.SetMatcher(d.shared["d1"]))
		}
		ctx, err := fastac.NewContext(d.m, opts...)
		if err == nil {
			release(ctx)
		}
		return err
	case "getdomains", "getalldomains":
		rm, _ := d.m.GetRoleManager(q.M)
		l, ok := rm.(domainLister)
		if !ok {
			return nil
		}
		if q.Kind == "getdomains" {
			_, err = l.GetDomains(q.V[0])
		} else {
			_, err = l.GetAllDomains()
		}
		return err
	}
	return d.ask(q).err
}

// repeat issues the queries n times more
func (d *dworld) repeat(ops []Op, from, n int) {
	e := d.e
	var q *Query
	t := e.S.Spawn("queries", 3000, func() {
		for i := from; i < from+n; i++ {
			for _, op := range ops {
				e.S.SetLimit(e.limit)
				q = vary(op.Q, op.N, i)
				if d.askAny(q) != nil {
					e.Probe("query-failed")
				} else {
					e.Probe("query-answered")
				}
			}
		}
	})
	e.S.Join(t)
	if p, stack := t.Panic(); p != nil {
		fresh := newDec(e)
		fresh.anyArity = true
		fresh.prepare()
		t := e.S.Spawn("alone", 3001, func() { _ = fresh.askAny(q) })
		e.S.Join(t)
		if p, _ := t.Panic(); p != nil {
			e.FailFor("-", "panic", "a query panics: %v\n%s", p, stack)
		}
		e.Fail("panic", "%v panics after earlier queries, but not on a new enforcer: %v\n%s", q, p, stack)
	}
}

// listing is what enumerations and role and domain listings show
func (d *dworld) listing() []string {
	res := []string{}
	d.m.RangeRules(func(rule []string) bool {
		res = append(res, fmt.Sprintf("rule %q", rule))
		return true
	})
	for _, k := range []string{"g", "g2"} {
		rm, ok := d.m.GetRoleManager(k)
		if !ok {
			continue
		}
		rm.Range(func(a, b string, dom ...string) bool {
			res = append(res, fmt.Sprintf("%s link %q %q %q", k, a, b, dom))
			return true
		})
		doms := [][]string{nil}
		if k == "g2" {
			doms = append(doms, []string{"x"}, []string{"/t/1"}, []string{"/t/*"})
		}
		for _, n := range resNames {
			for _, dom := range doms {
				l, err := rm.GetRoles(n, dom...)
				res = append(res, fmt.Sprintf("%s roles of %q in %q: %q %s", k, n, dom, sortedCopy(l), failed(err)))
				l, err = rm.GetUsers(n, dom...)
				res = append(res, fmt.Sprintf("%s users of %q in %q: %q %s", k, n, dom, sortedCopy(l), failed(err)))
			}
			if l, ok := rm.(domainLister); ok {
				x, err := l.GetDomains(n)
				res = append(res, fmt.Sprintf("%s domains of %q: %q %s", k, n, sortedCopy(x), failed(err)))
			}
		}
		if l, ok := rm.(domainLister); ok {
			x, err := l.GetAllDomains()
			res = append(res, fmt.Sprintf("%s domains: %q %s", k, sortedCopy(x), failed(err)))
		}
	}
	sort.Strings(res)
	return res
}

type probe struct {
	name string
	fn   func()
}

// probes are the operations whose cost is observed
func (d *dworld) probes() []probe {
	rules := func(k string) []string {
		x := []string{k}
		for i := range d.pdefs[k] {
			x = append(x, fmt.Sprintf("probe%d", i))
		}
		return x
	}
	list := [][]string{rules("p"), rules("p2"), {"g", "prober", "probed"}}
	if _, ok := d.e.C.Text["g2"]; ok {
		list = append(list, []string{"g2", "prober", "probed", "x"})
	}
	res := []probe{}
	for _, x := range list {
		x := x
		res = append(res, probe{"adding and removing " + fmt.Sprintf("%q", x), func() {
			_, _ = d.enf.AddRule(copyRule(x))
			_, _ = d.enf.RemoveRule(copyRule(x))
		}})
	}
	req := []interface{}{}
	for range d.rdefs["r"] {
		req = append(req, "probe")
	}
	res = append(res,
		probe{"a decision", func() { _, _ = d.enf.Enforce(req...) }},
		probe{"a filter", func() { _, _ = d.enf.Filter(append(req[:len(req):len(req)], fastac.SetMatcher("p.sub == 'probe'"))...) }},
		probe{"an enumeration", func() { d.m.RangeRules(func([]string) bool { return true }) }})
	for _, k := range []string{"g", "g2"} {
		rm, ok := d.m.GetRoleManager(k)
		if !ok {
			continue
		}
		var dom []string
		if k == "g2" {
			dom = []string{"x"}
		}
		res = append(res,
			probe{"an enumeration of " + k, func() { rm.Range(func(a, b string, dom ...string) bool { return true }) }},
			probe{"a role check of " + k, func() { _, _ = rm.HasLink("alice", "probed", dom...) }},
			probe{"a role listing of " + k, func() { _, _ = rm.GetRoles("alice", dom...); _, _ = rm.GetUsers("admin", dom...) }})
		if l, ok := rm.(domainLister); ok {
			res = append(res, probe{"a domain listing of " + k, func() { _, _ = l.GetDomains("alice"); _, _ = l.GetAllDomains() }})
		}
	}
	return res
}

// metrics are the cost of the probes in steps, and the size of the state
func (d *dworld) metrics() (names []string, values []int) {
	e := d.e
	e.Call("probes", func() {
		for round := 0; round < 2; round++ { // the first one is not measured
			names, values = nil, nil
			for _, p := range d.probes() {
				e.S.SetOrder(0)
				before := e.S.Steps()
				p.fn()
				names = append(names, "the steps of "+p.name)
				values = append(values, e.S.Steps()-before)
			}
			_ = d.enf.Flush()
		}
	})
	names = append(names, "the number of reachable objects")
	values = append(values, reachable(append([]interface{}{d.enf, d.m}, rt.Globals...)...))
	return
}

// reachable counts the objects which can be reached from the roots. State of the
// harness and of the simulator does not count.
func reachable(roots ...interface{}) int {
	type ref struct {
		p uintptr
		t reflect.Type
	}
	seen := map[ref]bool{}
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			return
		}
		t := v.Type()
		if p := t.PkgPath(); p == "main" || p == "zzsim.local/rt" {
			return
		}
		if t.Kind() == reflect.Ptr {
			if p := t.Elem().PkgPath(); p == "main" || p == "zzsim.local/rt" {
				return
			}
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[ref{v.Pointer(), t}] {
				return
			}
			seen[ref{v.Pointer(), t}] = true
			n++
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			if v.IsNil() || seen[ref{v.Pointer(), t}] {
				return
			}
			seen[ref{v.Pointer(), t}] = true
			for it := v.MapRange(); it.Next(); {
				n++
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.Slice:
			if v.IsNil() || v.Len() > 0 && seen[ref{v.Pointer(), t}] {
				return
			}
			if v.Len() > 0 {
				seen[ref{v.Pointer(), t}] = true
			}
			n += v.Len()
			switch t.Elem().Kind() {
			case reflect.String, reflect.Uint8, reflect.Int:
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	for _, v := range roots {
		walk(reflect.ValueOf(v))
	}
	return n
}

// prepare creates the enforcer, changes the rules and returns the queries
func (d *dworld) prepare() (queries []Op) {
	e := d.e
	var err error
	e.Call("start", func() { err = d.restart() })
	if err != nil {
		e.FailFor("-", "start", "the enforcer can not be created: %v", err)
	}
	for _, op := range e.C.Ops {
		if op.K == "q" {
			queries = append(queries, op)
			continue
		}
		e.Call(op.K, func() {
			switch op.K {
			case "add":
				_, _ = d.enf.AddRule(copyRule(op.R))
			case "remove":
				_, _ = d.enf.RemoveRule(copyRule(op.R))
			case "adds":
				_ = d.enf.AddRules(copyRules(op.RR))
			}
		})
	}
	return queries
}

func (w residueWorld) Run(e *Env) {
	d := newDec(e)
	d.anyArity = true
	e.limit = 5000000
	queries := d.prepare()
	e.Call("flush", func() { _ = d.enf.Flush() })
	e.S.SetOrder(0)
	list := func() (l []string) {
		e.Call("listing", func() { l = d.listing() })
		return
	}
	d.metrics() // the probes themselves must not count
	e.S.SetOrder(0)
	before := list()
	done := 0
	more := func(n int) {
		d.repeat(queries, done, n)
		done += n
	}
	more(3)
	same := func() {
		e.S.SetOrder(0)
		if after := list(); strings.Join(before, "\n") != strings.Join(after, "\n") {
			a, b := setOf(before), setOf(after)
			msg := []string{}
			for _, x := range before {
				if !b[x] {
					msg = append(msg, "- "+x)
				}
			}
			for _, x := range after {
				if !a[x] {
					msg = append(msg, "+ "+x)
				}
			}
			if len(msg) > 12 {
				msg = msg[:12]
			}
			e.Fail("listing", "after %d repetitions of the queries, the listings differ:\n%s", done, strings.Join(msg, "\n"))
		}
	}
	same()
	// suspicious: both stages of n repetitions add at least n/den
	grows := func(a, b, c []int, n int) []int {
		res := []int{}
		for i := range a {
			den := 4
			if i == len(a)-1 {
				den = 2
			}
			if b[i]-a[i] >= n/den && c[i]-b[i] >= n/den {
				res = append(res, i)
			}
		}
		return res
	}
	const n1, n2, n3 = 12, 900, 300
	more(2)
	names, a := d.metrics()
	more(n1)
	_, b := d.metrics()
	more(n1)
	_, c := d.metrics()
	e.State("a", fmt.Sprint(a))
	e.State("c", fmt.Sprint(c), fmt.Sprint(done))
	e.S.Event("reachable %d %d %d", a[len(a)-1], b[len(b)-1], c[len(c)-1])
	if len(grows(a, b, c, n1)) > 0 {
		e.Probe("growth-watched-for-many-repetitions")
		more(n2)
		_, a = d.metrics()
		more(n3)
		_, b = d.metrics()
		more(n3)
		_, c = d.metrics()
		for _, i := range grows(a, b, c, n3) {
			class := "cost"
			if i == len(a)-1 {
				class = "state"
			}
			e.Fail(class, "%s grow with the number of queries: %d after %d repetitions, %d after %d, %d after %d", names[i], a[i], done-2*n3, b[i], done-n3, c[i], done)
		}
	}
	same()
}
