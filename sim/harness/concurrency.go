package main

import (
	"fmt"
	"strings"

	"zzsim.local/rt"
)

// World "concurrency" (C11): several threads query one enforcer at the same
// time, while nobody changes it. Every answer is judged by the reference of
// the world "decision"; a wrong answer counts, if the same query is answered
// correctly, when it is asked alone.

func init() {
	worlds["concurrency"] = concWorld{}
	register(&Prop{ID: "C11", World: "concurrency", Quick: 150000, Thorough: 1500000,
		Rule:       "Random models and rules; batches of 2 to 4 (sometimes 5 to 10) threads, which issue decisions, filters, enumerations and role checks with named, ad-hoc and shared matchers and shared contexts, under random and priority-based schedules with a scheduling point before every statement; rule changes only between the batches.",
		Components: []string{"Enforcer", "Context", "Model", "Policy", "RoleManager", "DomainManager", "Matcher", "MatcherDef", "Effector", "FunctionMap", "logger", "event emitter", "govaluate (not instrumented)"},
		Stubs:      []string{"in-memory storage adapter", "sync, time, map enumeration order, scheduler"}})
}

type concWorld struct{}

func (concWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	g := newGen(r, prop, 2)
	c := g.c
	change := func() {
		op := Op{K: pick(r, []string{"add", "add", "adds", "remove", "padd"})}
		switch op.K {
		case "adds":
			for j := r.N(4); j > 0; j-- {
				op.RR = append(op.RR, g.rule())
			}
		default:
			op.R = g.rule()
		}
		c.Ops = append(c.Ops, op)
	}
	for i := r.N(4); i > 0; i-- {
		change()
	}
	dense := false
	for b := 1 + r.N(2); b > 0; b-- {
		for i := r.N(3); i > 0; i-- {
			if g.ctxs < 3 {
				g.ctxs++
			}
			q := &Query{}
			switch r.N(4) {
			case 0:
				q.M = "=" + g.matcher("r")
			case 1:
				q.M = pick(r, []string{"d0", "d1"})
			case 2:
				q.M, q.RD = "m2", "r2"
			}
			q.E = g.effectRef()
			g.ctxRD[g.ctxs] = q.RD
			c.Ops = append(c.Ops, Op{K: "ctx", N: g.ctxs, Q: q})
		}
		threads := 2 + r.N(3)
		same := r.P(1, 3) // all threads ask similar queries
		theme := ""       // all threads use one matching function
		if r.P(1, 8) {
			theme = pick(r, []string{"regexMatch", "ipMatch", "globMatch", "pathMatch2"})
			same = false
			threads = 2 + r.N(2)
			dense = true
		}
		crowd := 0 // threads, which all ask something
		if theme == "" && r.P(1, 15) {
			threads = 5 + r.N(6)
			crowd = threads
		}
		var first *Query
		for n := threads + r.N(4); n > 0; n-- {
			q := g.query(0)
			if same {
				if first == nil {
					first = q
				} else if q.Kind == first.Kind || r.P(1, 2) {
					n := *first
					if r.P(1, 2) && n.Ctx == 0 && len(n.V) > 0 && (n.Kind == "enforce" || n.Kind == "filter") {
						rk := "r"
						if n.RD != "" {
							rk = n.RD
						}
						n.V = g.request(rk)
					}
					q = &n
				}
			}
			if theme != "" && (q.Kind == "enforce" || q.Kind == "filter" || q.Kind == "range") && q.Ctx == 0 {
				rk := "r"
				if q.RD != "" {
					rk = q.RD
				}
				for m := ""; !strings.HasPrefix(m, theme); {
					m = g.builtin("p", rk)
					q.M = "=" + m
				}
			}
			th := 1 + r.N(threads)
			if crowd > 0 {
				th, crowd = crowd, crowd-1
			}
			c.Ops = append(c.Ops, Op{K: "q", Th: th, Q: q})
		}
		if r.P(1, 2) {
			change()
		}
	}
	c.Sched = genSched(r, 600)
	if dense && r.P(1, 2) {
		c.Sched = rt.Sched{Mode: "rand", Seed: r.U64(), Den: 2 + r.N(6)}
	}
	return c
}

// genSched chooses a schedule; size is the expected number of decision points
func genSched(r *rt.PRNG, size int) rt.Sched {
	s := rt.Sched{Mode: "rand", Seed: r.U64()}
	switch r.N(6) {
	case 0:
		s.Den = 2
	case 1:
		s.Den = 5 + r.N(10)
	case 2:
		s.Den = 20 + r.N(60)
	case 3:
		s.Den = size/4 + r.N(size/2)
	default:
		s.Mode = "pct"
		s.Den = 1 + r.N(6)
		s.Horizon = size / 2 << r.N(4)
	}
	return s
}

func (concWorld) Run(e *Env) {
	d := newDec(e)
	e.limit *= 3
	var err error
	e.Call("start", func() { err = d.restart() })
	if err != nil {
		e.FailFor("-", "start", "the enforcer can not be created: %v", err)
	}
	ops := e.C.Ops
	for i := 0; i < len(ops); {
		if ops[i].Th == 0 {
			d.step(i, ops[i])
			i++
			continue
		}
		j := i
		for j < len(ops) && ops[j].Th > 0 {
			j++
		}
		d.batch(ops[i:j])
		i = j
	}
	d.step(len(ops), Op{K: "q", Q: &Query{Kind: "rules"}})
}

// answer of a query, issued by a thread
type answer struct {
	q    *Query
	r    *qres
	task *rt.Task
}

func (d *dworld) batch(ops []Op) {
	e := d.e
	e.S.SetLimit(e.limit)
	e.S.SetOrder(e.C.Order)
	threads := map[int][]*answer{}
	ids := []int{}
	for _, op := range ops {
		if threads[op.Th] == nil {
			ids = append(ids, op.Th)
		}
		threads[op.Th] = append(threads[op.Th], &answer{q: op.Q})
	}
	tasks := []*rt.Task{}
	for _, id := range ids {
		list := threads[id]
		tasks = append(tasks, e.S.Spawn(fmt.Sprintf("thread %d", id), 1000+id, func() {
			for _, a := range list {
				a.task = e.S.Cur()
				a.r = d.ask(a.q)
			}
		}))
	}
	e.S.Join(tasks...)
	e.Probe(fmt.Sprintf("batch-of-%d-threads", len(ids)))
	for _, id := range ids {
		for _, a := range threads[id] {
			if a.r == nil { // the thread has panicked
				p, stack := a.task.Panic()
				if d.panicsAlone(a.q) {
					e.FailFor("-", "panic", "%v panics: %v", a.q, p)
				}
				e.Fail("panic", "%v panics, when other queries are made at the same time: %v\n%s", a.q, p, stack)
			}
			e.S.Event("answer %v %v %s %d", a.q.Kind, a.r.ok, failed(a.r.err), len(a.r.rules))
			if a.r.err != nil {
				e.Probe("query-failed")
			}
			msg := d.judge(a.q, a.r)
			if msg == "" {
				continue
			}
			alone := false
			e.Call("alone", func() {
				alone = d.rightAlone(a.q, a.q.Kind == "enforce" || a.q.Kind == "filter" || a.q.Kind == "range")
			})
			if !alone {
				e.FailFor("-", "decision", "%s", msg)
			}
			e.Fail("interference", "with other queries at the same time, but not alone: %s", msg)
		}
	}
}

// panicsAlone asks the query alone, on a fresh enforcer
func (d *dworld) panicsAlone(q *Query) bool {
	t := d.e.S.Spawn("alone", 2000, func() { d.rightAlone(q, true) })
	d.e.S.Join(t)
	p, _ := t.Panic()
	return p != nil
}
