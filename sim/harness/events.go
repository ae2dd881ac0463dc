package main

import (
	"fmt"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage"
	em "github.com/vansante/go-event-emitter"
	"zzsim.local/rt"
	"zzsim.local/sos"
)

// World "events" (C16): histories of rule changes with arbitrary values, also
// malformed ones, on every level of the library; what they report, what
// enumerations list, and what listeners are told.

func init() {
	worlds["events"] = eventWorld{}
	register(&Prop{ID: "C16", World: "events", Quick: 400000, Thorough: 4000000,
		Rule:       "Random histories of additions, removals, bulk changes, duplicates, malformed rules, clears, loads and listener registrations through the enforcer, the model and the policies, over values which are easily mixed up (separators, prefixes, case, white space, long values), with a storage that rejects changes or fails while loading, and random enumeration orders.",
		Components: []string{"Enforcer", "Model", "Policy", "RolePolicy", "RoleManager", "DomainManager", "Matcher", "StorageController", "event emitter"},
		Stubs:      []string{"in-memory storage adapters with injected failures", "sync, map enumeration order"}})
}

type eventWorld struct{}

const eventModel = `
[request_definition]
r = sub, obj, act
[policy_definition]
p = sub, obj, act
p2 = sub, act
[role_definition]
g = _, _
g2 = _, _, _
[policy_effect]
e = some(where (p.eft == allow))
`

const eventMatcher = `
[matchers]
m = g(r.sub, p.sub) && r.obj == p.obj
m2 = r.sub == p2.sub || r.act == "x"
`

var evSeps = []string{",", ", ", ":", "::", "", " ", "|", "$$", "\x00", "/", "-", "_", ";", "\n", "\t", "=", "&", "+", "#", ".", "\"", "'", "\\", "\",\"", "\" \"", "][", "\x1f", "\r\n", ";;", "@"}

// evPairs have the same text in encodings, which are not unique
var evPairs = [][2][]string{
	{{"2", "aaaaaaaaaa1z"}, {"12aaaaaaaaaa", "z"}}, // length and value
	{{"a", "aaaaaaaa2:zz"}, {"a2:aaaaaaaa", "zz"}}, // last digit of the length, colon, value
	{{"a\\", "b,c"}, {"a,b\\", "c"}},               // escaped separators
	{{"a\\", "b:c"}, {"a:b\\", "c"}},
	{{"a\"", "b"}, {"a", "\"b"}},
	{{"a,", "b"}, {"a", ",b"}},
	{{"", "a"}, {"a", ""}},
	{{"%2C", "a"}, {",", "a"}},
	{{"a", "a"}, {"a", "a "}},
}

// evPool returns values, which are easily mixed up
func evPool(r *rt.PRNG) []string {
	base := []string{pick(r, []string{"a", "alice", "1", "x y"}), pick(r, []string{"b", "bob", "2", ""}), "c"}
	pool := append([]string{}, base...)
	for i := 1 + r.N(3); i > 0; i-- {
		sep := pick(r, evSeps)
		pool = append(pool, base[0]+sep+base[1], base[1]+sep+base[2])
		if r.P(1, 2) {
			pool = append(pool, sep)
		}
	}
	v := base[0]
	pool = append(pool, pick(r, []string{"A", v + " ", " " + v, "", "\u00e9", "e\u0301", "01", "1.0", "1:" + v, "1:a1:b", strings.ToUpper(v), v + "\x00", "*", "p", "g", "0", "nil", "%s", "\xff", "\xfe"}))
	if r.P(1, 8) {
		long := strings.Repeat("x", 200+r.N(200))
		pool = append(pool, long+"1", long+"2")
	}
	return pool
}

func (eventWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	c := &Case{Order: r.U64(), Cfg: map[string]int{}}
	c.Cfg["store"] = r.N(4) // 3: none
	c.Cfg["autosave"] = r.N(2)
	c.Cfg["matcher"] = r.N(2)
	c.Cfg["pattern"] = 0
	if r.P(1, 6) {
		c.Cfg["pattern"] = 1
	}
	c.Cfg["failrm"] = 0
	if r.P(1, 5) {
		c.Cfg["failrm"] = 1
	}
	pool := evPool(r)
	if c.Cfg["pattern"] == 1 {
		pool = append(pool, "/d/1", "/d/*", "/d/:id", "*")
	}
	recent := [][]string{}
	reserved := ""
	if r.P(1, 40) { // names, which have a meaning inside of the domain manager
		reserved = pick(r, []string{"RoleManager", "redundant_role"})
		c.Text = map[string]string{"reserved": reserved}
	}
	fresh := func() []string {
		k := pick(r, []string{"p", "p", "p", "p2", "g", "g", "g2", "g2"})
		n := 2
		switch k {
		case "p":
			n = 3
		case "g2":
			n = 3
		}
		if r.P(1, 8) && k != "g" { // another number of values
			n = 1 + r.N(4)
			if k == "g2" {
				n = 2 + r.N(3)
			} else if r.P(1, 8) {
				n = 0
			}
		}
		x := []string{k}
		for i := 0; i < n; i++ {
			x = append(x, pick(r, pool))
		}
		if reserved != "" && k == "g2" && n > 2 && r.P(1, 2) {
			x[3+r.N(n-2)] = reserved
		}
		return x
	}
	rule := func() []string {
		var x []string
		switch k := r.N(10); {
		case k < 4 && len(recent) > 0:
			x = copyRule(pick(r, recent))
		case k < 7 && len(recent) > 0: // similar to another rule
			x = similar(r, pick(r, recent))
		default:
			x = fresh()
		}
		recent = append(recent, x)
		return x
	}
	malformed := func() []string {
		return copyRule(pick(r, [][]string{{}, {""}, {"g", "a"}, {"g"}, {"g2", "a"}, {"x", "a", "b"}, {"p9", "a", "b", "c"}, {"g9", "a", "b"}, {"r", "a", "b", "c"}, {"m", "a"}, {"", "a", "b"}}))
	}
	if r.P(1, 5) {
		pair := pick(r, evPairs)
		k := pick(r, []string{"p", "p", "g", "g2"})
		for i := 0; i < 2; i++ {
			x := append([]string{k}, pair[i]...)
			switch k {
			case "p":
				if c.Cfg["autosave"] == 1 {
					x = append([]string{k, "q"}, pair[i]...)
				} else {
					x = append(x, "q")
				}
			case "g2":
				x = append([]string{k, "q"}, pair[i]...)
			}
			recent = append(recent, x)
		}
	}
	for i := r.N(4); i > 0; i-- {
		c.Rules = append(c.Rules, rule())
	}
	if r.P(1, 80) { // large policies
		k := pick(r, []string{"p", "p", "p2", "g", "g2"})
		i := 20 + r.N(120)
		if r.P(1, 8) {
			i = roundSize(r, 1030)
		}
		for ; i > 0; i-- {
			x := fresh()
			if r.P(4, 5) {
				x[0] = k
				for len(x) < 4 {
					x = append(x, fmt.Sprintf("v%d", r.N(80)))
				}
				if k == "g" {
					x = x[:3]
				}
			}
			if x[0][0] == 'p' && len(x) > 1 {
				x[1] = fmt.Sprintf("v%d", r.N(50))
			}
			if r.P(1, 8) {
				recent = append(recent, x)
			}
			c.Rules = append(c.Rules, copyRule(x))
		}
	}
	n := 4 + r.N(26)
	nl := 0
	for i := 0; i < n; i++ {
		op := Op{}
		switch k := r.N(32); {
		case k < 10:
			op = Op{K: "add", R: rule()}
		case k < 16:
			op = Op{K: "remove", R: rule()}
		case k < 18:
			op = Op{K: pick(r, []string{"adds", "removes"})}
			for j := r.N(5); j > 0; j-- {
				op.RR = append(op.RR, rule())
			}
			if r.P(1, 4) {
				op.RR = append(op.RR, malformed(), rule())
			}
		case k < 19:
			op = Op{K: "clear", S: pick(r, []string{"p", "p2", "g", "g2"})}
			if r.P(1, 6) {
				op.S = pick(r, []string{"p9", "g9", "r", ""})
			}
		case k < 20:
			op = Op{K: "load"}
		case k < 24:
			op = Op{K: "listen", S: pick(r, []string{"m", "m", "p", "p2", "g", "g2"}), S2: pick(r, []string{"added", "removed", "cleared"}), N: nl, B: r.P(1, 3)}
			nl++
		case k < 26 && nl > 0:
			op = Op{K: "unlisten", N: r.N(nl)}
		case k < 28:
			op = Op{K: pick(r, []string{"add", "remove"}), R: malformed()}
		case k < 29:
			op = Op{K: pick(r, []string{"autosave", "flush", "storage"}), B: r.P(2, 3)}
		case k < 31:
			op = Op{K: "range", S: pick(r, []string{"m", "p", "p2", "g", "g2"}), N: r.N(4)}
		default:
			op = Op{K: "distinct", S: pick(r, []string{"p", "p2", "g", "g2"}), N: 1 + r.N(7), B: r.P(1, 2)}
		}
		switch op.K {
		case "add", "remove":
			op.N = r.N(3) // enforcer, model, policy
		case "clear":
			op.B = r.P(1, 2)
		}
		switch op.K {
		case "add", "remove", "adds", "removes", "flush", "load":
			if r.P(1, 5) {
				kind := "reject"
				if op.K == "load" {
					kind = "load-fail"
				}
				op.F = append(op.F, sos.Fault{N: r.N(3), Kind: kind})
			}
		}
		switch op.K {
		case "add", "remove", "adds", "removes", "clear":
			if c.Cfg["failrm"] == 1 && r.P(1, 4) {
				op.F = append(op.F, sos.Fault{N: r.N(4), Kind: "rm-fail"})
			}
		}
		if r.P(1, 2) {
			op.O = 1 + r.U64()%1000000
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// similar changes a rule, so that it is easily mixed up with the original
func similar(r *rt.PRNG, rule []string) []string {
	x := copyRule(rule)
	if len(x) < 3 {
		return x
	}
	i := 1 + r.N(len(x)-2)
	switch r.N(5) {
	case 0: // move the border of two values
		s := x[i] + x[i+1]
		if s != "" {
			k := r.N(len(s) + 1)
			x[i], x[i+1] = s[:k], s[k:]
		}
	case 1: // move a part with a separator
		sep := pick(r, evSeps)
		s := x[i] + sep + x[i+1]
		if k := strings.LastIndex(s, sep); k >= 0 && sep != "" {
			x[i], x[i+1] = s[:k], s[k+len(sep):]
			if r.P(1, 2) && i+2 < len(x) {
				x[i] = x[i] + sep + x[i+1]
				y := strings.SplitN(x[i+2], sep, 2)
				x[i+1], x[i+2] = y[0], strings.Join(y[1:], sep)
			}
		}
	case 2: // the other order
		x[i], x[i+1] = x[i+1], x[i]
	case 3: // one value changes slightly
		switch r.N(4) {
		case 0:
			x[i] = strings.ToUpper(x[i])
		case 1:
			x[i] = strings.TrimSpace(x[i])
		case 2:
			x[i] += pick(r, evSeps)
		case 3:
			x[i] = pick(r, evSeps) + x[i]
		}
	case 4: // another section
		switch x[0] {
		case "p":
			x[0] = "p2"
		case "p2":
			x[0] = "p"
		case "g2":
			if len(x) == 4 && r.P(1, 2) {
				x = x[:3]
			} else {
				x = x[:3]
				x[0] = "g"
			}
		case "g":
			x[0] = "g2"
		}
	}
	return x
}

type evListener struct {
	target, event string
	l             *em.Listener
	active        bool
	args          [][]interface{} // as they have been announced
	want          []string
}

// got is what the listener has been told. It keeps the rules, nobody may change them.
func (l *evListener) got() []string {
	res := []string{}
	for _, args := range l.args {
		text := l.event
		if len(args) > 0 {
			if rule, ok := args[0].([]string); ok {
				text = fmt.Sprintf("%q", rule)
			}
		}
		res = append(res, text)
	}
	return res
}

// failRM is a role manager which fails when it is told to
type failRM struct {
	rbac.IRoleManager
	w *evRun
	k string
}

func (f *failRM) hit(a, b string, domain []string) bool {
	if x := append([]string{f.k, a, b}, domain...); f.w.failing == nil || key(x) != *f.w.failing {
		return false
	}
	f.w.rmFired = true
	f.w.e.Fault("role-manager-fails")
	return true
}

func (f *failRM) AddLink(a, b string, domain ...string) (bool, error) {
	if f.hit(a, b, domain) {
		return false, errInjected
	}
	return f.IRoleManager.AddLink(a, b, domain...)
}

func (f *failRM) DeleteLink(a, b string, domain ...string) (bool, error) {
	if f.hit(a, b, domain) {
		return false, errInjected
	}
	return f.IRoleManager.DeleteLink(a, b, domain...)
}

func (f *failRM) Clear() error {
	if f.hit("", "", nil) {
		return errInjected
	}
	return f.IRoleManager.Clear()
}

type evRun struct {
	failing *string // the link, at which the role manager fails
	rmFired bool

	e         *Env
	enf       *fastac.Enforcer
	m         *model.Model
	store     *memStore
	mem       RuleSet
	listeners map[int]*evListener
}

func (eventWorld) Run(e *Env) {
	w := &evRun{e: e, mem: RuleSet{}, listeners: map[int]*evListener{}}
	var err error
	e.Call("start", func() {
		text := eventModel
		if e.C.Cfg["matcher"] == 1 {
			text += eventMatcher
		}
		w.m = newModel(text)
		if e.C.Cfg["pattern"] == 1 {
			for _, k := range []string{"g", "g2"} {
				rm, _ := w.m.GetRoleManager(k)
				rm.(rbac.IDefaultRoleManager).SetMatcher(refMatcher{"path"}.lib())
				rm.(rbac.IDefaultRoleManager).SetDomainMatcher(refMatcher{"path"}.lib())
			}
		}
		if e.C.Cfg["failrm"] == 1 {
			for _, k := range []string{"g", "g2"} {
				rm, _ := w.m.GetRoleManager(k)
				w.m.SetRoleManager(k, &failRM{rm, w, k})
			}
		}
		if kind := e.C.Cfg["store"]; kind < 3 {
			w.store = &memStore{e: e, rules: newSet(e.C.Rules).list()}
			w.enf, err = fastac.NewEnforcer(w.m, w.store.adapter(kind).(storage.Adapter), fastac.OptionAutosave(e.C.Cfg["autosave"] == 1))
		} else {
			w.enf, err = fastac.NewEnforcer(w.m, nil)
		}
	})
	if err != nil {
		e.FailFor("-", "start", "the enforcer can not be created: %v", err)
	}
	for i, op := range e.C.Ops {
		w.step(i, op)
	}
	w.step(len(e.C.Ops), Op{K: "range", S: "m"})
}

// fail reports a violation. Runs with a reserved domain name are marked.
func (w *evRun) fail(class, format string, args ...interface{}) {
	if name := w.e.C.Text["reserved"]; name != "" {
		format = "[grouping rules use the domain name " + name + "] " + format
	}
	w.e.Fail(class, format, args...)
}

// inForce: a listener, which looks at the rules, finds the change it has been told
func (w *evRun) inForce(what string, l *evListener, args []interface{}) {
	if w.e.C.Text["reserved"] != "" {
		return
	}
	pkey := l.target
	var rule []string
	if len(args) > 0 {
		rule, _ = args[0].([]string)
	}
	if pkey == "m" {
		if len(rule) == 0 {
			return
		}
		pkey, rule = rule[0], rule[1:]
	}
	p, ok := w.m.GetPolicy(pkey)
	if !ok {
		return
	}
	w.e.Probe("listener-looks")
	found, n := false, 0
	p.Range(func(x []string) bool {
		n++
		found = found || key(x) == key(rule)
		return true
	})
	switch {
	case l.event == "cleared" && n > 0:
		w.fail("announced-early", "%s: when the clearing of %q is announced, it has %d rules", what, pkey, n)
	case l.event == "added" && !found:
		w.fail("announced-early", "%s: when the addition of %q is announced, it is not in force", what, rule)
	case l.event == "removed" && found:
		w.fail("announced-early", "%s: when the removal of %q is announced, it is still in force", what, rule)
	}
}

func (w *evRun) announce(target, ev, text string) {
	for _, l := range w.listeners {
		if l.active && l.target == target && l.event == ev {
			l.want = append(l.want, text)
		}
	}
}

// change applies a change to the reference
func (w *evRun) change(add bool, rule []string, direct bool) bool {
	ev := "added"
	changed := false
	if add {
		changed = w.mem.add(copyRule(rule))
	} else {
		ev = "removed"
		changed = w.mem.remove(rule)
	}
	if changed {
		w.announce(rule[0], ev, fmt.Sprintf("%q", rule[1:]))
		if !direct {
			w.announce("m", ev, fmt.Sprintf("%q", rule))
		}
	}
	return changed
}

func wellFormed(rule []string) bool {
	if len(rule) == 0 {
		return false
	}
	switch rule[0] {
	case "p", "p2":
		return true
	case "g", "g2":
		return len(rule) >= 3
	}
	return false
}

func (w *evRun) step(i int, op Op) {
	e := w.e
	e.S.SetOrder(op.O)
	call := func(fn func()) {
		e.Call(op.K, func() {
			e.S.SetOrder(op.O)
			fn()
		})
	}
	if w.store != nil {
		w.store.begin(op.F)
	}
	what := fmt.Sprintf("operation %d: %v", i, op)
	var ok bool
	var err error
	w.failing, w.rmFired = nil, false
	for _, f := range op.F {
		if f.Kind != "rm-fail" {
			continue
		}
		var x []string
		switch {
		case op.K == "clear":
			x = []string{op.S, "", ""}
		case len(op.RR) > 0:
			x = op.RR[f.N%len(op.RR)]
		default:
			x = op.R
		}
		if wellFormed(x) {
			k := key(x)
			w.failing = &k
		}
	}
	defer func() { w.failing = nil }()
	switch op.K {
	case "add", "remove":
		rule := copyRule(op.R)
		direct := op.N == 2 && wellFormed(rule)
		call(func() {
			var obj interface {
				AddRule([]string) (bool, error)
				RemoveRule([]string) (bool, error)
			} = w.enf
			if op.N == 1 {
				obj = w.m
			}
			arg := rule
			if direct {
				p, _ := w.m.GetPolicy(rule[0])
				obj, arg = p, rule[1:]
			}
			if op.K == "add" {
				ok, err = obj.AddRule(arg)
			} else {
				ok, err = obj.RemoveRule(arg)
			}
			if !direct { // the slice belongs to the caller
				scribble(rule)
			}
		})
		if !wellFormed(op.R) {
			e.Probe("malformed-rule")
			if err == nil || ok {
				w.fail("malformed", "%s: a malformed rule is accepted (%v, %v)", what, ok, err)
			}
			break
		}
		if w.rmFired {
			if ok || err == nil {
				w.fail("error", "%s: the role manager fails, but the change reports %v, %v", what, ok, err)
			}
			break
		}
		want := w.change(op.K == "add", op.R, direct)
		e.Probe(fmt.Sprintf("%s-%v", op.K, want))
		if w.store != nil && w.store.fired {
			e.Probe("change-with-storage-failure")
		} else if err != nil {
			w.fail("error", "%s fails: %v", what, err)
		}
		if ok != want {
			w.fail("report", "%s reports %v instead of %v", what, ok, want)
		}
	case "adds", "removes":
		rules := copyRules(op.RR)
		call(func() {
			if op.K == "adds" {
				err = w.enf.AddRules(rules)
			} else {
				err = w.enf.RemoveRules(rules)
			}
			for _, r := range rules {
				scribble(r)
			}
		})
		bad := false
		for _, r := range op.RR {
			if !wellFormed(r) || w.rmFired && key(r) == *w.failing {
				bad = true
				break
			}
			w.change(op.K == "adds", r, false)
		}
		if bad != (err != nil) && !(w.store != nil && w.store.fired) {
			w.fail("error", "%s: malformed rule %v, error %v", what, bad, err)
		}
	case "clear":
		call(func() {
			if p, ok := w.m.GetPolicy(op.S); ok && op.B {
				err = p.Clear()
			} else {
				err = w.m.ClearPolicy(op.S)
			}
		})
		known := strings.Contains("p p2 g g2", op.S) && op.S != ""
		if w.rmFired {
			known = false
		}
		if known != (err == nil) {
			w.fail("error", "%s: error %v", what, err)
		}
		if known {
			n := 0
			for k, r := range w.mem {
				if r[0] == op.S {
					delete(w.mem, k)
					n++
				}
			}
			if n > 0 {
				w.announce(op.S, "cleared", "cleared")
				break
			}
			for _, l := range w.listeners { // nothing has changed, an announcement is possible
				if l.active && l.target == op.S && l.event == "cleared" && len(l.args) > len(l.want) {
					l.want = append(l.want, "cleared")
				}
			}
		}
	case "load":
		stored := [][]string{}
		if w.store != nil {
			stored = copyRules(w.store.rules)
			for _, f := range op.F {
				if f.Kind == "load-fail" && f.N < len(stored) {
					stored = stored[:f.N]
				}
			}
		}
		call(func() { err = w.enf.LoadPolicy() })
		for _, r := range stored {
			w.change(true, r, false)
		}
		if fired := w.store != nil && w.store.fired; fired != (err != nil) {
			w.fail("error", "%s: storage failed %v, error %v", what, fired, err)
		}
	case "autosave":
		call(func() { err = w.enf.SetOption(fastac.OptionAutosave(op.B)) })
	case "storage":
		if w.store != nil {
			call(func() { err = w.enf.SetOption(fastac.OptionStorage(op.B)) })
		}
	case "flush":
		call(func() { err = w.enf.Flush() })
	case "listen":
		l := &evListener{target: op.S, event: op.S2, active: true}
		w.listeners[op.N] = l
		handler := func(args ...interface{}) {
			l.args = append(l.args, args)
			e.S.Event("announced to %d: %s", op.N, l.got()[len(l.args)-1])
			if op.B {
				w.inForce(what, l, args)
			}
		}
		call(func() {
			if op.S == "m" {
				l.l = w.m.AddListener(em.EventType(map[string]string{"added": model.RULE_ADDED, "removed": model.RULE_REMOVED, "cleared": "cleared"}[op.S2]), handler)
				return
			}
			p, _ := w.m.GetPolicy(op.S)
			l.l = p.AddListener(policyEvent(op.S2), handler)
		})
	case "unlisten":
		l := w.listeners[op.N]
		if l == nil || !l.active {
			break
		}
		l.active = false
		call(func() {
			if op := l.target; op == "m" {
				w.m.RemoveListener(em.EventType(map[string]string{"added": model.RULE_ADDED, "removed": model.RULE_REMOVED, "cleared": "cleared"}[l.event]), l.l)
				return
			}
			p, _ := w.m.GetPolicy(l.target)
			p.RemoveListener(policyEvent(l.event), l.l)
		})
	case "range":
		w.enumerate(what, op)
	case "distinct":
		w.distinct(what, op)
	}
	for id := range w.listenersInOrder() {
		l := w.listeners[id]
		if l == nil {
			continue
		}
		if got := l.got(); strings.Join(got, " ") != strings.Join(l.want, " ") {
			w.fail("announcement", "%s: the listener for %q of %q has been told %v instead of %v", what, l.event, l.target, got, l.want)
		}
	}
	e.State(append(w.mem.keys(), fmt.Sprint(len(w.listeners)))...)
	switch op.K {
	case "add", "remove", "adds", "removes", "clear", "load":
		w.enumerate(what, Op{K: "range", S: "m", O: op.O})
	}
}

func (w *evRun) listenersInOrder() []struct{} {
	max := 0
	for id := range w.listeners {
		if id >= max {
			max = id + 1
		}
	}
	return make([]struct{}, max)
}

func policyEvent(name string) em.EventType {
	switch name {
	case "added":
		return policy.EVT_RULE_ADDED
	case "removed":
		return policy.EVT_RULE_REMOVED
	}
	return policy.EVT_CLEARED
}

// of returns the rules of a policy
func (w *evRun) of(k string) RuleSet {
	res := RuleSet{}
	for _, r := range w.mem {
		if k == "m" {
			res.add(r)
		} else if r[0] == k {
			res.add(r[1:])
		}
	}
	return res
}

func (w *evRun) enumerate(what string, op Op) {
	e := w.e
	list := [][]string{}
	after := 0
	e.Call("range", func() {
		e.S.SetOrder(op.O)
		fn := func(rule []string) bool {
			if op.N > 0 && len(list) == op.N {
				after++
				return false
			}
			list = append(list, copyRule(rule))
			return op.N == 0 || len(list) < op.N
		}
		if op.S == "m" {
			w.m.RangeRules(fn)
			return
		}
		p, _ := w.m.GetPolicy(op.S)
		p.Range(fn)
	})
	if after > 0 {
		w.fail("enumeration", "%s: the callback is called after it asked to stop", what)
	}
	want := w.of(op.S)
	got := newSet(list)
	if len(got) != len(list) {
		w.fail("enumeration", "%s: a rule is listed twice: %q", what, list)
	}
	if op.N > 0 {
		for _, r := range got {
			if !want.has(r) {
				w.fail("enumeration", "%s lists %q, which is not in force", what, r)
			}
		}
		if len(got) != op.N && len(got) != len(want) {
			w.fail("enumeration", "%s stops after %d rules", what, len(got))
		}
		return
	}
	if !got.equal(want) {
		w.fail("enumeration", "%s: the enumeration is wrong: %s", what, diff(want, got))
	}
}

// distinct reads the distinct values of some columns
func (w *evRun) distinct(what string, op Op) {
	e := w.e
	rules := w.of(op.S)
	columns := []int{}
	for i := 0; i < 3; i++ {
		if op.N&(1<<i) != 0 {
			columns = append(columns, i)
		}
	}
	want := RuleSet{}
	for _, r := range rules {
		x := []string{}
		for _, c := range columns {
			if c >= len(r) {
				return
			}
			x = append(x, r[c])
		}
		want.add(x)
	}
	var list [][]string
	var err error
	e.Call("distinct", func() {
		e.S.SetOrder(op.O)
		p, _ := w.m.GetPolicy(op.S)
		if d, ok := p.(interface {
			GetDistinct([]int) ([][]string, error)
		}); ok && op.B {
			list, err = d.GetDistinct(columns)
			return
		}
		list, err = policy.GetDistinct(p, columns)
	})
	got := newSet(list)
	if err != nil || len(got) != len(list) || !got.equal(want) {
		w.fail("enumeration", "%s: distinct values %q of columns %v: %s (%v)", what, list, columns, diff(want, got), err)
	}
}
