package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/effector"
	"github.com/abichinger/fastac/model/eft"
	"github.com/abichinger/fastac/model/types"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/util"
	"zzsim.local/rt"
)

// World "decision" (C08, C09, C10, C12): one enforcer, generated matchers,
// histories of rule changes and definitions, queries of every kind. Queries
// are judged by a reference, which evaluates the matcher rule by rule.

func init() {
	worlds["decision"] = decisionWorld{}
	comps := []string{"Enforcer", "Context", "Model", "Policy", "RolePolicy", "RoleManager", "DomainManager", "Matcher", "MatcherDef", "Effector", "FunctionMap", "StorageController", "event emitter", "govaluate (not instrumented)"}
	stubs := []string{"in-memory storage adapter with injected failures", "user functions, a role manager and an effector that fail at a chosen call", "sync, os, time, map enumeration order"}
	reg := func(id, rule string, quick, thorough int) {
		register(&Prop{ID: id, World: "decision", Quick: quick, Thorough: thorough, Rule: rule, Components: comps, Stubs: stubs})
	}
	reg("C08", "Random models (matchers from a grammar, policies, effects) and histories of rule changes at the enforcer, model and policy level, clears, loads, storage failures, restarts, redefined matchers and long-lived contexts; every query is compared with a rule by rule evaluation.", 200000, 4000000)
	reg("C09", "As C08 with short histories; every query is repeated under several enumeration orders of all maps.", 100000, 2000000)
	reg("C10", "As C08; queries during which a user function, a role manager, an effector or a rule expression fails at a chosen call, missing and mistyped values, unsupported effects and malformed matchers, each followed by further queries.", 200000, 4000000)
	reg("C12", "As C08; enumerations which are stopped at a chosen call, and queries issued from callbacks and matcher functions.", 200000, 4000000)
}

// Query is a request to the enforcer
type Query struct {
	Kind string   `json:"kind"` // enforce filter range rules prange rmrange haslink getroles getusers
	M    string   `json:"m,omitempty"`
	RD   string   `json:"rd,omitempty"`
	E    string   `json:"e,omitempty"`
	V    []string `json:"v,omitempty"`
	Ctx  int      `json:"ctx,omitempty"`
	Stop int      `json:"stop,omitempty"`
	At   int      `json:"at,omitempty"` // callback, which issues the nested query; 0: function nest
	Nest *Query   `json:"nest,omitempty"`
	Obj  int      `json:"obj,omitempty"`  // options which are passed as an object (or, without a name, as an empty string): 1 matcher, 2 request definition, 4 effector
	Fail string   `json:"fail,omitempty"` // chk rm eff
	N    int      `json:"n,omitempty"`    // call which fails
}

func (q *Query) String() string { return fmt.Sprintf("%+v", *q) }

func encode(v interface{}) string {
	switch x := v.(type) {
	case string:
		return "s:" + x
	case float64:
		return "n:" + strconv.FormatFloat(x, 'f', -1, 64)
	case bool:
		return "b:" + strconv.FormatBool(x)
	case subject:
		return "u:" + x.Name + "/" + strconv.FormatFloat(x.Age, 'f', -1, 64)
	case *subject: // a pointer, nil included
		if x == nil {
			return "p:"
		}
		return "p:" + x.Name + "/" + strconv.FormatFloat(x.Age, 'f', -1, 64)
	case map[string]interface{}:
		return fmt.Sprintf("m:%s/%d", x["Name"], x["Age"])
	case int:
		return fmt.Sprintf("i:%d", x)
	case nil:
		return "0:"
	}
	panic("encode")
}

func decode(s string) interface{} {
	v := s[2:]
	switch s[0] {
	case 'n':
		n, _ := strconv.ParseFloat(v, 64)
		return n
	case 'b':
		return v == "true"
	case 'i':
		n, _ := strconv.Atoi(v)
		return n
	case '0':
		return nil
	case 'u', 'p', 'm':
		i := strings.LastIndex(v, "/")
		if i < 0 {
			return (*subject)(nil)
		}
		n, _ := strconv.ParseFloat(v[i+1:], 64)
		switch x := (subject{v[:i], n}); s[0] {
		case 'p':
			return &x
		case 'm':
			return map[string]interface{}{"Name": x.Name, "Age": int(n)}
		default:
			return x
		}
	}
	return v
}

func decodeAll(list []string) []interface{} {
	res := []interface{}{}
	for _, s := range list {
		res = append(res, decode(s))
	}
	return res
}

func splitArgs(s string) []string {
	return strings.Split(strings.ReplaceAll(s, " ", ""), ",")
}

// dctx is a long-lived query context and what it referred to, when it was created
type dctx struct {
	ctx    *fastac.Context
	m, rd  string // matcher text, name of the request definition
	effect string
	failer bool
}

type frame struct {
	fail  string
	n     int
	calls int
	fired bool
	nest  *Query
}

type dworld struct {
	e         *Env
	enf       *fastac.Enforcer
	m         *model.Model
	store     *memStore
	kind      int
	mem       RuleSet
	pdefs     map[string][]string
	rdefs     map[string][]string
	mdefs     map[string]string // matchers in effect
	effects   map[string]string
	shared    map[string]*defs.MatcherDef
	ctxs      map[int]*dctx
	frames    map[int][]*frame
	chkNeg    bool
	failed    bool // an evaluation failed earlier
	asts      map[string]*xnode
	functions map[string]bool
	nested    int
	anyArity  bool   // requests with too many values are issued, too
	listenQ   *Query // query, which a listener issues when it is told about a change
	late      *Query // query of a listener, which was answered wrongly
	lateMsg   string
	budget    int // nested queries, which the current query may still issue
}

var errInjected = errors.New("injected failure")

func (d *dworld) frame() *frame {
	l := d.frames[d.e.S.Cur().ID]
	if len(l) == 0 {
		return &frame{}
	}
	return l[len(l)-1]
}

func (d *dworld) hit(kind string) bool {
	f := d.frame()
	if f.fail != kind {
		return false
	}
	f.calls++
	if f.calls == f.n {
		f.fired = true
		d.e.Fault("failing-" + kind)
		return true
	}
	return false
}

type matching interface {
	SetMatcher(util.IMatcher)
	SetDomainMatcher(util.IMatcher)
}

type simRM struct {
	rbac.IRoleManager
	d *dworld
}

func (r *simRM) HasLink(a, b string, domain ...string) (bool, error) {
	if r.d.hit("rm") {
		return true, errInjected
	}
	return r.IRoleManager.HasLink(a, b, domain...)
}

type simEff struct {
	effector.IEffector
	d *dworld
}

func (s *simEff) MergeEffects(effects []types.Effect, matches [][]string, complete bool) (types.Effect, []string, error) {
	if s.d.hit("eff") {
		return eft.Allow, nil, errInjected
	}
	// the effector of a user can look at the rules, which have been matched
	if len(effects) != len(matches) {
		return eft.Deny, nil, fmt.Errorf("%d effects of %d rules", len(effects), len(matches))
	}
	for i, rule := range matches {
		want := eft.Allow
		if len(rule) > 0 && rule[0] != "" {
			want = []types.Effect{eft.Deny, eft.Indeterminate, eft.Allow}[1+effectOf(s.d.pdefs[rule[0]], rule)]
		}
		if effects[i] != want {
			return eft.Deny, nil, fmt.Errorf("the effect %d is not the one of the rule %q", effects[i], rule)
		}
	}
	return s.IEffector.MergeEffects(effects, matches, complete)
}

// effectOf is the effect of a rule: 1 allow, -1 deny, 0 something else
func effectOf(pargs, rule []string) int {
	for i, a := range pargs {
		if a == "eft" && i+1 < len(rule) {
			switch rule[i+1] {
			case "", "allow":
			case "deny":
				return -1
			default:
				return 0
			}
		}
	}
	return 1
}

// chk is the meaning of the function chk
func chkRef(args []interface{}, neg bool) (bool, bool) {
	if len(args) != 2 {
		return false, false
	}
	a, ok1 := args[0].(string)
	b, ok2 := args[1].(string)
	if !ok1 || !ok2 {
		return false, false
	}
	return (a == b) != neg, true
}

func (d *dworld) modelText() string {
	t := d.e.C.Text
	var sb strings.Builder
	sec := func(name string, keys ...string) {
		fmt.Fprintf(&sb, "[%s]\n", name)
		for _, k := range keys {
			if v, ok := t[k]; ok {
				fmt.Fprintf(&sb, "%s = %s\n", k, v)
			}
		}
	}
	sec("request_definition", "r", "r2")
	sec("policy_definition", "p", "p2")
	sec("role_definition", "g", "g2")
	sec("policy_effect", "e", "e2")
	return sb.String()
}

func newDec(e *Env) *dworld {
	t := e.C.Text
	d := &dworld{e: e, mem: RuleSet{}, pdefs: map[string][]string{}, rdefs: map[string][]string{}, frames: map[int][]*frame{}, asts: map[string]*xnode{}}
	for _, k := range []string{"p", "p2"} {
		d.pdefs[k] = splitArgs(t[k])
	}
	d.pdefs["g"] = []string{"user", "role", "domain"}
	d.pdefs["g2"] = d.pdefs["g"]
	for _, k := range []string{"r", "r2"} {
		d.rdefs[k] = splitArgs(t[k])
	}
	d.functions = setOf([]string{"eval", "pathMatch", "pathMatch2", "regexMatch", "ipMatch", "globMatch", "g", "chk", "boom", "nest"})
	if _, ok := t["g2"]; ok {
		d.functions["g2"] = true
	}
	d.kind = e.C.Cfg["kind"]
	d.store = &memStore{e: e, rules: newSet(e.C.Rules).list()}
	return d
}

// restart creates the enforcer from storage
func (d *dworld) restart() error {
	t := d.e.C.Text
	d.mdefs, d.effects, d.shared, d.ctxs = map[string]string{}, map[string]string{}, map[string]*defs.MatcherDef{}, map[int]*dctx{}
	m := newModel(d.modelText())
	d.m = m
	if d.e.C.Cfg["pat"] == 1 { // no name is a pattern, so this must not have an influence
		for _, k := range []string{"g", "g2"} {
			x, _ := m.GetRoleManager(k)
			if rm, ok := x.(matching); ok {
				rm.SetMatcher(util.PathMatcher)
				if k == "g2" {
					rm.SetDomainMatcher(util.PathMatcher)
				}
			}
		}
	}
	if d.e.C.Cfg["wrap"] == 1 {
		rm, _ := m.GetRoleManager("g")
		m.SetRoleManager("g", &simRM{rm, d})
	}
	d.chkNeg = false
	d.setFunctions()
	if d.e.C.Cfg["listen"] == 1 {
		d.mem = RuleSet{}
		m.AddListener(model.RULE_ADDED, func(args ...interface{}) { d.told(true, args[0].([]string)) })
		m.AddListener(model.RULE_REMOVED, func(args ...interface{}) { d.told(false, args[0].([]string)) })
	}
	for _, k := range []string{"m", "m2", "m3"} {
		if err := m.SetDef('m', k, t[k]); err != nil {
			return err
		}
		if err := m.BuildMatcher(k); err != nil {
			return fmt.Errorf("matcher %q: %w", t[k], err)
		}
		d.mdefs[k] = t[k]
	}
	for _, k := range []string{"e", "e2"} {
		d.effects[k] = t[k]
	}
	for _, k := range []string{"d0", "d1"} {
		d.shared[k] = defs.NewMatcherDef("", t[k])
	}
	var err error
	d.enf, err = fastac.NewEnforcer(m, d.store.adapter(d.kind).(storage.Adapter), fastac.OptionAutosave(d.e.C.Cfg["autosave"] == 1))
	if err != nil {
		return err
	}
	if err := d.enf.LoadPolicy(); err != nil {
		return err
	}
	d.mem = d.store.set()
	return nil
}

func (d *dworld) setFunctions() {
	neg := d.chkNeg
	d.m.SetFunction("chk", func(args ...interface{}) (interface{}, error) {
		if d.hit("chk") {
			return true, errInjected
		}
		v, ok := chkRef(args, neg)
		if !ok {
			return true, errors.New("chk: bad arguments")
		}
		return v, nil
	})
	d.m.SetFunction("boom", func(args ...interface{}) (interface{}, error) {
		d.e.Probe("boom")
		return true, errInjected
	})
	d.m.SetFunction("nest", func(args ...interface{}) (interface{}, error) {
		f := d.frame()
		if f.nest != nil && d.budget > 0 {
			d.budget--
			d.nestedQuery(f.nest, "a matcher function")
		}
		return true, nil
	})
}

// told is called by the model, when a rule has been added or removed
func (d *dworld) told(added bool, rule []string) {
	if added {
		d.mem.add(copyRule(rule))
	} else {
		d.mem.remove(rule)
	}
	if q := d.listenQ; q != nil {
		d.listenQ = nil
		d.e.Probe("listener-queries")
		r := d.ask(q)
		if msg := d.judge(q, r); msg != "" {
			msg = "a query issued from inside a listener: " + msg
			if d.e.C.Prop == "C12" {
				d.late, d.lateMsg = q, msg
				return
			}
			d.blame("C08 C12", "nested", q, msg)
		}
	}
}

// nestedQuery issues a query from inside another one
func (d *dworld) nestedQuery(q *Query, where string) {
	d.nested++
	d.e.Probe("nested-" + q.Kind)
	r := d.ask(q)
	if msg := d.judge(q, r); msg != "" {
		d.blame("C12", "nested", q, fmt.Sprintf("a query issued from inside %s: %s", where, msg))
	}
}

// effectText resolves the effector of a query
func (d *dworld) effectText(ref string) (text string, failer bool) {
	switch {
	case ref == "":
		return d.effects["e"], false
	case strings.HasPrefix(ref, "obj:"):
		return ref[4:], true
	case strings.HasPrefix(ref, "def:"):
		return ref[4:], false
	}
	if t, ok := d.effects[ref]; ok {
		return t, false
	}
	return ref, false
}

// matcherText resolves the matcher of a query
func (d *dworld) matcherText(ref string) string {
	switch {
	case ref == "":
		return d.mdefs["m"]
	case strings.HasPrefix(ref, "="), strings.HasPrefix(ref, "f"):
		return ref[1:]
	case strings.HasPrefix(ref, "d"):
		return d.e.C.Text[ref]
	}
	return d.mdefs[ref]
}

func (d *dworld) options(q *Query) []interface{} {
	res := []interface{}{}
	switch {
	case q.M == "":
		if q.Obj&1 != 0 {
			res = append(res, fastac.SetMatcher(""))
		}
	case q.M[0] == '=':
		res = append(res, fastac.SetMatcher(q.M[1:]))
	case q.M[0] == 'f': // a matcher of another model, which has another function
		other := newModel(fmt.Sprintf("[request_definition]\nr = %s\n[policy_definition]\np = %s\n", d.e.C.Text["r"], d.e.C.Text["p"]))
		other.SetFunction("onlythere", func(args ...interface{}) (interface{}, error) { return true, nil })
		foreign, err := other.BuildMatcherFromDef(defs.NewMatcherDef("", q.M[1:]))
		if err != nil {
			panic(err)
		}
		d.e.Probe("matcher-of-another-model")
		res = append(res, fastac.SetMatcher(foreign))
	case q.M[0] == 'd':
		res = append(res, fastac.SetMatcher(d.shared[q.M]))
	default:
		if m, ok := d.m.GetMatcher(q.M); ok && q.Obj&1 != 0 {
			d.e.Probe("matcher-object")
			res = append(res, fastac.SetMatcher(m))
			break
		}
		res = append(res, fastac.SetMatcher(q.M))
	}
	switch {
	case q.Obj&2 == 0:
		if q.RD != "" {
			res = append(res, fastac.SetRequestDef(q.RD))
		}
	case q.RD == "":
		res = append(res, fastac.SetRequestDef(""))
	default:
		d.e.Probe("request-definition-object")
		res = append(res, fastac.SetRequestDef(defs.NewRequestDef(q.RD, strings.Join(d.rdefs[q.RD], ", "))))
	}
	switch {
	case q.E == "":
		if q.Obj&4 != 0 {
			res = append(res, fastac.SetEffector(""))
		}
	case strings.HasPrefix(q.E, "obj:"):
		res = append(res, fastac.SetEffector(&simEff{effector.NewEffector(defs.NewEffectDef("", q.E[4:])), d}))
	case strings.HasPrefix(q.E, "def:"):
		res = append(res, fastac.SetEffector(defs.NewEffectDef("", q.E[4:])))
	default:
		if eff, ok := d.m.GetEffector(q.E); ok && q.Obj&4 != 0 {
			d.e.Probe("effector-object")
			res = append(res, fastac.SetEffector(eff))
			break
		}
		res = append(res, fastac.SetEffector(q.E))
	}
	return res
}

type qres struct {
	ok      bool
	err     error
	rules   [][]string
	names   []string
	calls   int // of the callback
	after   int // calls after the stop
	fired   bool
	skipped bool
}

// ask issues a query, in the current task
func (d *dworld) ask(q *Query) *qres {
	id := d.e.S.Cur().ID
	f := &frame{fail: q.Fail, n: q.N}
	if q.At == 0 {
		f.nest = q.Nest
	}
	d.frames[id] = append(d.frames[id], f)
	defer func() { d.frames[id] = d.frames[id][:len(d.frames[id])-1] }()

	r := &qres{}
	stopped := false
	cb := func(rule []string) bool {
		r.calls++
		if stopped {
			r.after++
			return false
		}
		r.rules = append(r.rules, copyRule(rule))
		if q.Nest != nil && q.At == r.calls {
			d.nestedQuery(q.Nest, "a callback")
		}
		if q.Stop > 0 && r.calls >= q.Stop {
			stopped = true
			d.e.Probe("stopped-" + q.Kind)
			return false
		}
		return true
	}
	var vals []interface{}
	switch q.Kind {
	case "enforce", "filter", "range":
		vals = decodeAll(q.V)
		_, rd, _ := d.resolve(q)
		if rd == "" {
			rd = "r"
		}
		if args, ok := d.rdefs[rd]; ok && len(vals) > len(args) && !d.anyArity { // not a request of this definition
			r.skipped = true
			return r
		}
	}
	var dc *dctx
	if q.Ctx > 0 {
		dc = d.ctxs[q.Ctx]
		if dc == nil {
			r.skipped = true
			return r
		}
		d.e.Probe("long-lived-context")
	}
	params := func() []interface{} { return append(append([]interface{}{}, vals...), d.options(q)...) }
	switch q.Kind {
	case "enforce":
		if dc != nil {
			r.ok, r.err = d.enf.EnforceWithContext(dc.ctx, vals...)
		} else {
			r.ok, r.err = d.enf.Enforce(params()...)
		}
	case "filter":
		var rules [][]string
		if dc != nil {
			rules, r.err = d.enf.FilterWithContext(dc.ctx, vals...)
		} else {
			rules, r.err = d.enf.Filter(params()...)
		}
		r.rules = copyRules(rules)
	case "range":
		if dc != nil {
			r.err = d.enf.RangeMatchesWithContext(dc.ctx, vals, cb)
		} else {
			r.err = d.enf.RangeMatches(params(), cb)
		}
	case "rules":
		d.m.RangeRules(cb)
	case "prange":
		p, ok := d.m.GetPolicy(q.M)
		if !ok {
			panic("harness: no policy " + q.M)
		}
		p.Range(func(rule []string) bool { return cb(append([]string{q.M}, rule...)) })
	case "rmrange":
		rm, _ := d.m.GetRoleManager(q.M)
		rm.Range(func(a, b string, domain ...string) bool {
			return cb(append([]string{q.M, a, b}, domain...))
		})
	case "haslink":
		rm, _ := d.m.GetRoleManager(q.M)
		r.ok, r.err = rm.HasLink(q.V[0], q.V[1], q.V[2:]...)
	case "getroles":
		rm, _ := d.m.GetRoleManager(q.M)
		r.names, r.err = rm.GetRoles(q.V[0], q.V[1:]...)
	case "getusers":
		rm, _ := d.m.GetRoleManager(q.M)
		r.names, r.err = rm.GetUsers(q.V[0], q.V[1:]...)
	default:
		panic("harness: query " + q.Kind)
	}
	r.names = append([]string{}, r.names...)
	r.fired = f.fired
	return r
}

// linked is the reference of a role check
func linked(mem RuleSet, key, a, b string, domain []string) bool {
	if a == b {
		return true
	}
	reach := map[string]bool{a: true}
	for changed := true; changed; {
		changed = false
		for _, r := range mem {
			if r[0] == key && reach[r[1]] && !reach[r[2]] && keyOf(r[3:]) == keyOf(domain) {
				reach[r[2]] = true
				changed = true
			}
		}
	}
	return reach[b]
}

func keyOf(l []string) string { return key(l) }

func (d *dworld) call(name string, args []interface{}) (interface{}, bool) {
	strs := []string{}
	allStrings := true
	for _, a := range args {
		s, ok := a.(string)
		allStrings = allStrings && ok
		strs = append(strs, s)
	}
	switch name {
	case "g", "g2":
		if !allStrings || len(args) < 2 {
			return false, false
		}
		domain := strs[2:]
		if name == "g" {
			domain = nil
		}
		return linked(d.mem, name, strs[0], strs[1], domain), true
	case "pathMatch":
		if !allStrings || len(args) != 2 {
			return false, false
		}
		return refPathMatch(strs[0], strs[1]), true
	case "pathMatch2", "regexMatch", "ipMatch", "globMatch":
		if !allStrings || len(args) != 2 {
			return false, false
		}
		return refBuiltin(name, strs[0], strs[1])
	case "chk":
		return chkRef(args, d.chkNeg)
	case "nest":
		return true, true
	}
	return false, false
}

// parse returns nil, if the matcher is malformed
func (d *dworld) parse(text string) *xnode {
	ast, seen := d.asts[text]
	if !seen {
		ast, _ = parseExpr(text)
		if ast != nil {
			ast.walk(func(n *xnode) {
				if n.op == "call" && !d.functions[n.s] && !strings.Contains(n.s, ".") {
					ast = nil
				}
			})
		}
		d.asts[text] = ast
	}
	return ast
}

// ruleOutcome is the outcome of the matcher for one rule
type ruleOutcome struct {
	rule []string // with key
	m    mask
	eff  int // 1 allow, 0 neither, -1 deny
}

// outcomes evaluates the matcher rule by rule. ok is false, if the matcher is malformed.
func (d *dworld) outcomes(text, rd string, vals []interface{}) (res []ruleOutcome, pkey string, ok bool) {
	ast := d.parse(text)
	if ast == nil {
		return nil, "", false
	}
	pkey = ast.policyKey()
	pargs, ok := d.pdefs[pkey]
	if !ok {
		return nil, "", false
	}
	if rd == "" {
		rd = "r"
	}
	rargs, ok := d.rdefs[rd]
	if !ok {
		return nil, "", false
	}
	rules := [][]string{}
	for _, r := range d.mem.list() {
		if r[0] == pkey {
			rules = append(rules, r)
		}
	}
	if len(rules) == 0 {
		rules = append(rules, append([]string{pkey}, make([]string, len(pargs))...))
	}
	for _, r := range rules {
		x := &xenv{pkey: pkey, pargs: pargs, rule: r[1:], rkey: rd, rargs: rargs, rvals: vals, fn: d.call}
		o := ruleOutcome{rule: r, m: x.eval(ast), eff: effectOf(pargs, r)}
		res = append(res, o)
	}
	return res, pkey, true
}

func showOutcomes(os []ruleOutcome) string {
	res := []string{}
	for _, o := range os {
		res = append(res, fmt.Sprintf("%q:%v/%d", o.rule, o.m, o.eff))
	}
	return strings.Join(res, " ")
}

// resolve returns the definitions, which apply to a query
func (d *dworld) resolve(q *Query) (text, rd, effect string) {
	if q.Ctx > 0 {
		if dc := d.ctxs[q.Ctx]; dc != nil {
			return dc.m, dc.rd, dc.effect
		}
	}
	effect, _ = d.effectText(q.E)
	return d.matcherText(q.M), q.RD, effect
}

// possible reports which answers the reference permits
func (d *dworld) possible(q *Query) (allow, deny, fail bool, os []ruleOutcome) {
	text, rd, effect := d.resolve(q)
	os, pkey, ok := d.outcomes(text, rd, decodeAll(q.V))
	if !ok || pkey[0] == 'g' {
		return false, false, true, os
	}
	settled := func(eff int) bool { // no rule fails, and none with effect eff matches
		for _, o := range os {
			if o.m&mF == 0 && (o.m&mT == 0 || o.eff == eff) {
				return false
			}
		}
		return true
	}
	some := func(eff int) bool {
		for _, o := range os {
			if o.m&mT != 0 && o.eff == eff {
				return true
			}
		}
		return false
	}
	for _, o := range os {
		if o.m&mE != 0 {
			fail = true
		}
	}
	switch strings.ReplaceAll(effect, " ", "") {
	case eft.SOME_ALLOW:
		return some(1), settled(1), fail, os
	case eft.NO_DENY:
		return settled(-1), some(-1), fail, os
	case eft.SOME_ALLOW_NO_DENY:
		allow = settled(-1) && some(1)
		deny = some(-1)
		if !deny && settled(1) && settled(-1) {
			deny = !some(1)
		}
		return allow, deny, fail, os
	}
	return false, false, true, os
}

// judge compares the answer with the reference. It returns "" if it is right.
func (d *dworld) judge(q *Query, r *qres) string {
	if r.skipped {
		return ""
	}
	switch q.Kind {
	case "enforce":
		if r.err != nil && r.ok {
			return fmt.Sprintf("%v is allowed together with the error %v", q, r.err)
		}
		if r.fired && r.err == nil {
			return fmt.Sprintf("%v is answered with %v, although its evaluation failed", q, r.ok)
		}
		allow, deny, fail, os := d.possible(q)
		if fail {
			d.e.Probe("evaluation-can-fail")
		}
		if r.err != nil {
			d.failed = true
			if !fail && !r.fired {
				return fmt.Sprintf("%v fails: %v; outcomes of the rules: %s", q, r.err, showOutcomes(os))
			}
			return ""
		}
		if r.ok && !allow || !r.ok && !deny {
			text, _, effect := d.resolve(q)
			return fmt.Sprintf("%v is decided %v (matcher %s, effect %s; allow possible %v, deny possible %v), outcomes of the rules: %s", q, r.ok, text, effect, allow, deny, showOutcomes(os))
		}
	case "filter", "range":
		if r.fired && r.err == nil {
			return fmt.Sprintf("%v returns %v without error, although its evaluation failed", q, r.rules)
		}
		if r.after > 0 {
			return fmt.Sprintf("%v: the callback is called %d times after it asked to stop", q, r.after)
		}
		text, rd, _ := d.resolve(q)
		os, _, ok := d.outcomes(text, rd, decodeAll(q.V))
		if !ok {
			d.failed = true
			if r.err == nil {
				return fmt.Sprintf("%v succeeds with a malformed matcher", q)
			}
			return ""
		}
		fail := false
		want, must := RuleSet{}, RuleSet{}
		for _, o := range os {
			if o.m&mE != 0 {
				fail = true
			}
			if o.m&mT != 0 {
				want.add(o.rule)
			}
			if o.m&(mT|mF) == 0 {
				must.add(o.rule)
			}
		}
		got := newSet(r.rules)
		for _, g := range got {
			if !want.has(g) {
				return fmt.Sprintf("%v (matcher %s) delivers the rule %q, outcomes of the rules: %s", q, text, g, showOutcomes(os))
			}
		}
		if r.err != nil {
			d.failed = true
			if !fail && !r.fired {
				return fmt.Sprintf("%v fails: %v; outcomes of the rules: %s", q, r.err, showOutcomes(os))
			}
			return ""
		}
		if q.Stop > 0 && r.calls >= q.Stop {
			return ""
		}
		if len(must) > 0 {
			return fmt.Sprintf("%v returns without error, but evaluating %v fails", q, must)
		}
		if !got.equal(want) {
			return fmt.Sprintf("%v (matcher %s) returns the wrong rules: %s; outcomes of the rules: %s", q, text, diff(want, got), showOutcomes(os))
		}
	case "rules", "prange", "rmrange":
		if r.after > 0 {
			return fmt.Sprintf("%v: the callback is called %d times after it asked to stop", q, r.after)
		}
		want := RuleSet{}
		for _, x := range d.mem {
			if q.Kind == "rules" || x[0] == q.M {
				want.add(x)
			}
		}
		got := newSet(r.rules)
		if len(got) != len(r.rules) {
			return fmt.Sprintf("%v: a rule is delivered twice: %v", q, r.rules)
		}
		for _, g := range got {
			if !want.has(g) {
				return fmt.Sprintf("%v delivers %q, the rules are %v", q, g, want)
			}
		}
		if q.Stop > 0 && r.calls >= q.Stop {
			return ""
		}
		if !got.equal(want) {
			return fmt.Sprintf("%v: %s", q, diff(want, got))
		}
	case "haslink":
		if r.err != nil {
			if r.fired {
				return ""
			}
			return fmt.Sprintf("%v fails: %v", q, r.err)
		}
		dom := q.V[2:]
		if q.M == "g" {
			dom = nil
		}
		if want := linked(d.mem, q.M, q.V[0], q.V[1], dom); want != r.ok {
			return fmt.Sprintf("%v returns %v, rules %v", q, r.ok, d.mem)
		}
	case "getroles", "getusers":
		if r.err != nil {
			return fmt.Sprintf("%v fails: %v", q, r.err)
		}
		want := []string{}
		dom := q.V[1:]
		if q.M == "g" {
			dom = nil
		}
		for _, x := range d.mem {
			if x[0] != q.M || key(x[3:]) != key(dom) {
				continue
			}
			if q.Kind == "getroles" && x[1] == q.V[0] {
				want = append(want, x[2])
			}
			if q.Kind == "getusers" && x[2] == q.V[0] {
				want = append(want, x[1])
			}
		}
		if fmt.Sprint(uniq(want)) != fmt.Sprint(uniq(r.names)) {
			return fmt.Sprintf("%v returns %q instead of %q", q, uniq(r.names), uniq(want))
		}
	}
	return ""
}

// blame reports a wrong answer as a violation of the property of the case, if
// it is one: C10 and C12 are only broken, if the answer would be right without
// the failure or the nesting.
func (d *dworld) blame(props, class string, q *Query, msg string) {
	e := d.e
	if strings.Contains(msg, "harness") {
		panic(msg)
	}
	switch e.C.Prop {
	case "C08", "C09":
		e.FailFor("C08 C09", class, "%s", msg)
	case "C10":
		if strings.Contains(msg, "evaluation failed") || strings.Contains(msg, "together with the error") || strings.Contains(msg, "malformed matcher") || strings.Contains(msg, "but evaluating") || d.cannotFail(q) {
			e.Fail(class, "%s", msg)
		}
		if d.failed && d.rightAlone(q, true) {
			e.Fail(class+"-after-failure", "after an evaluation failed: %s", msg)
		}
		e.FailFor("-", class, "%s", msg)
	case "C12":
		if strings.Contains(msg, "asked to stop") || strings.Contains(msg, "delivered twice") {
			e.Fail(class, "%s", msg)
		}
		if q.Kind == "rules" || q.Kind == "prange" || q.Kind == "rmrange" || q.Kind == "range" && strings.Contains(msg, "returns the wrong rules: missing") && !strings.Contains(msg, "missing {}") {
			e.Fail(class, "%s", msg)
		}
		if d.nested > 0 && d.rightAlone(q, false) {
			e.Fail(class, "%s", msg)
		}
		e.FailFor("-", class, "%s", msg)
	default:
		e.FailFor(props, class, "%s", msg)
	}
}

// cannotFail: every possible answer of this query is an error
func (d *dworld) cannotFail(q *Query) bool {
	if q.Kind != "enforce" {
		return false
	}
	allow, deny, fail, _ := d.possible(q)
	return fail && !allow && !deny
}

// rightAlone asks the query on its own, on a fresh enforcer with the same
// rules or on the same one
func (d *dworld) rightAlone(q *Query, fresh bool) bool {
	n := *q
	n.Nest, n.At, n.Fail = nil, 0, ""
	t := d
	if fresh {
		if n.Ctx > 0 {
			text, rd, effect := d.resolve(q)
			n.Ctx, n.M, n.RD, n.E = 0, "="+text, rd, "def:"+effect
		}
		c := *d
		t = &c
		t.store = &memStore{e: d.e, rules: d.mem.list()}
		if err := t.restart(); err != nil {
			return false
		}
		t.frames = map[int][]*frame{}
		for k, text := range d.mdefs {
			if t.mdefs[k] != text {
				_ = t.m.SetDef('m', k, text)
				_ = t.m.BuildMatcher(k)
				t.mdefs[k] = text
			}
		}
		for k, text := range d.effects {
			_ = t.m.SetDef('e', k, text)
			t.effects[k] = text
		}
		t.chkNeg = d.chkNeg
		t.setFunctions()
	}
	r := t.ask(&n)
	return t.judge(&n, r) == ""
}

// ---- operations

func (d *dworld) begin(op Op) { d.store.begin(op.F) }

// change applies a rule change to the reference
func (d *dworld) change(add bool, rules [][]string) {
	for _, x := range rules {
		if len(x) == 0 || x[0] == "" || x[0][0] == 'g' && len(x) < 3 || d.pdefs[x[0]] == nil {
			return // rejected, like all rules after it
		}
		if add {
			d.mem.add(x)
		} else {
			d.mem.remove(x)
		}
	}
}

func (d *dworld) step(i int, op Op) {
	e := d.e
	d.begin(op)
	var err error
	what := fmt.Sprintf("operation %d (%s)", i, op.K)
	e.S.SetOrder(op.O)
	crashed := false
	switch op.K {
	case "add", "remove":
		d.listenQ, d.late, d.budget = op.Q, nil, 30
		crashed = e.Call(op.K, func() {
			arg := copyRule(op.R)
			if op.K == "add" {
				_, err = d.enf.AddRule(arg)
			} else {
				_, err = d.enf.RemoveRule(arg)
			}
			scribble(arg)
		})
		d.listenQ = nil
		d.change(op.K == "add", [][]string{op.R})
		if d.late != nil {
			e.Call("judge", func() {
				if d.rightAlone(d.late, false) {
					e.Fail("nested", "%s", d.lateMsg)
				}
			})
			e.FailFor("-", "nested", "%s", d.lateMsg)
		}
	case "adds", "removes":
		crashed = e.Call(op.K, func() {
			args := copyRules(op.RR)
			if op.K == "adds" {
				err = d.enf.AddRules(args)
			} else {
				err = d.enf.RemoveRules(args)
			}
			for _, a := range args {
				scribble(a)
			}
		})
		d.change(op.K == "adds", op.RR)
	case "padd", "premove":
		p, ok := d.m.GetPolicy(op.R[0])
		if !ok {
			return
		}
		e.Probe("policy-level-change")
		e.Call(op.K, func() {
			if op.K == "padd" {
				_, err = p.AddRule(copyRule(op.R[1:]))
			} else {
				_, err = p.RemoveRule(copyRule(op.R[1:]))
			}
		})
		d.change(op.K == "padd", [][]string{op.R})
	case "clear", "pclear":
		e.Probe("cleared")
		e.Call(op.K, func() {
			if op.K == "clear" {
				err = d.m.ClearPolicy(op.S)
			} else {
				p, _ := d.m.GetPolicy(op.S)
				err = p.Clear()
			}
		})
		for k, x := range d.mem {
			if x[0] == op.S {
				delete(d.mem, k)
			}
		}
	case "load":
		e.Call("load", func() { err = d.enf.LoadPolicy() })
		all := d.mem.clone()
		for _, x := range d.store.set() {
			all.add(x)
		}
		got := newSet(rulesOf(d.m))
		if err == nil && !got.equal(all) {
			e.FailFor("C08", "load", "%s: the rules in force are wrong: %s", what, diff(all, got))
		}
		for k, x := range got {
			if _, ok := all[k]; !ok {
				e.FailFor("C08", "load", "%s: there is a new rule %q", what, x)
			}
		}
		for k, x := range d.mem {
			if _, ok := got[k]; !ok {
				e.FailFor("C08", "load", "%s: the rule %q is gone", what, x)
			}
		}
		d.mem = got
	case "flush":
		e.Call("flush", func() { err = d.enf.Flush() })
	case "save":
		e.Call("save", func() { err = d.enf.SavePolicy() })
	case "restart":
		e.Probe("restart")
		e.Call("restart", func() { err = d.restart() })
		if err != nil {
			e.FailFor("C08", "restart", "%s: %v", what, err)
		}
	case "setm":
		e.Probe("matcher-redefined")
		e.Call("setm", func() {
			err = d.m.SetDef('m', op.S, op.S2)
			if err == nil {
				err = d.m.BuildMatcher(op.S)
			}
		})
		if (err != nil) != (d.parse(op.S2) == nil) {
			e.FailFor("C08", "build", "%s: matcher %q: %v", what, op.S2, err)
		}
		if err == nil {
			d.mdefs[op.S] = op.S2
		}
	case "sete":
		e.Call("sete", func() {
			if op.B {
				d.m.SetEffector(op.S, effector.NewEffector(defs.NewEffectDef(op.S, op.S2)))
				return
			}
			err = d.m.SetDef('e', op.S, op.S2)
		})
		d.effects[op.S] = op.S2
	case "setfn":
		d.chkNeg = op.B
		e.Call("setfn", d.setFunctions)
	case "ctx":
		e.Call("ctx", func() {
			opts := []fastac.ContextOption{}
			for _, o := range d.options(op.Q) {
				opts = append(opts, o.(fastac.ContextOption))
			}
			var ctx *fastac.Context
			ctx, err = fastac.NewContext(d.m, opts...)
			if err == nil {
				text, rd, effect := d.resolve(op.Q)
				d.ctxs[op.N] = &dctx{ctx: ctx, m: text, rd: rd, effect: effect}
			} else if d.parse(d.matcherText(op.Q.M)) != nil {
				e.FailFor("C08", "context", "%s: %v: %v", what, op.Q, err)
			}
		})
	case "ctxdel":
		if dc := d.ctxs[op.N]; dc != nil {
			e.Call("ctxdel", func() { release(dc.ctx) })
			delete(d.ctxs, op.N)
		}
	case "q":
		d.query(op)
	}
	if crashed {
		panic("harness: crash")
	}
	e.S.Event("%s %s", op.K, failed(err))
	e.S.SetOrder(op.O)
	if op.K != "q" {
		got := newSet(rulesOf(d.m))
		if !got.equal(d.mem) {
			e.FailFor("C08 C09", "rules", "%s: the rules in force are wrong: %s", what, diff(d.mem, got))
		}
		e.State(d.mem.keys()...)
	}
}

func (d *dworld) query(op Op) {
	e := d.e
	q := op.Q
	reps := 1
	if e.C.Prop == "C09" {
		reps = 5
	}
	for i := 0; i < reps; i++ {
		order := uint64(0)
		if i > 0 || reps == 1 && op.O != 0 {
			order = rt.Mix(op.O, uint64(i))
		}
		var r *qres
		d.budget = 30
		e.Call("query", func() {
			e.S.SetOrder(order)
			r = d.ask(q)
		})
		e.S.SetOrder(order)
		e.S.Event("query %v %v %s %d", q.Kind, r.ok, failed(r.err), len(r.rules))
		if q.Kind == "enforce" && r.err == nil {
			if r.ok {
				e.Probe("allowed")
			} else {
				e.Probe("denied")
			}
		}
		if r.err != nil {
			e.Probe("query-failed")
		}
		if msg := d.judge(q, r); msg != "" {
			var alone func()
			alone = func() { d.blame("C08 C09 C10 C12", "decision", q, msg) }
			e.Call("judge", alone)
		}
	}
}

func (w decisionWorld) Run(e *Env) {
	d := newDec(e)
	var err error
	e.Call("start", func() { err = d.restart() })
	if err != nil {
		e.FailFor("C08", "start", "the enforcer can not be created: %v", err)
	}
	for i, op := range e.C.Ops {
		d.step(i, op)
	}
	// failures have stopped
	d.step(len(e.C.Ops), Op{K: "q", Q: &Query{Kind: "rules"}})
}

type decisionWorld struct{}

func release(ctx *fastac.Context) {
	if r, ok := interface{}(ctx).(interface{ Release() }); ok {
		r.Release()
	}
}
