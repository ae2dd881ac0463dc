package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/model/defs"
	"github.com/abichinger/fastac/model/fm"
	"github.com/abichinger/fastac/model/matcher"
	"github.com/abichinger/fastac/model/policy"
	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/govaluate"
	"zzsim.local/rt"
	"zzsim.local/sos"
)

// World "definitions" (C19, C20): a model whose definitions are added, replaced
// and removed while it is used. A restart prints the model, and a new process
// loads the text. Queries and changes refer to known and unknown definitions.

func init() {
	worlds["definitions"] = defsWorld{}
	comps := []string{"Model", "PolicyDef", "RequestDef", "RoleDef", "EffectDef", "MatcherDef", "Matcher", "Context", "Enforcer", "FunctionMap", "RoleManager", "DomainManager", "go-ini (files on the simulated disk; otherwise not instrumented)", "govaluate (not instrumented)"}
	stubs := []string{"sync, os, time, map enumeration order"}
	register(&Prop{ID: "C19", World: "definitions", Quick: 120000, Thorough: 1500000, Components: comps, Stubs: stubs,
		Rule: "Histories of definitions which are set, replaced, removed and built, with rules and queries; at chosen points the process ends, and a new one is started from the printed text. Its definitions and its decisions are compared with the reference."})
	register(&Prop{ID: "C20", World: "definitions", Quick: 120000, Thorough: 1500000, Components: comps, Stubs: stubs,
		Rule: "As C19; rule changes, look-ups, definitions, builds and queries name unknown sections, keys, policies, functions, request definitions, matchers and effects, also ones which were removed before."})
}

type defsWorld struct{}

// A matcher is a disjunction of conjunctions of atoms. An atom is
//
//	eq r-arg p-arg | ne r-arg p-arg | lit p-arg literal | g name r-arg p-arg | fn name p-arg literal
//
// and is encoded as a list of strings.
type mdef struct {
	P, R string // policy and request key
	Or   [][][]string
	Form int
}

var dwLiterals = []string{"d1", "read", "a#b", "a;b", "a # b", "x ; y", "#", ";", "back`tick", "100%", "%(p)s", "a'b", `a"b`, `a\b`, "ü", "a=b", "[p]", "it's \"x\"", "a  b", "(", "&&", "||", "p.sub", " lead", "trail ", "a\nb", "a`\n b", "'''", `"""`, "", "`"}

// an unescaped quote of either kind ends a text in govaluate
var quoteReplacer = strings.NewReplacer("\\", `\\`, "'", `\'`, `"`, `\"`)

var dwSections = []string{"r", "p", "g", "e", "m"}

func sortedKeys(m map[string]string) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func quoteLit(s string, form int) string {
	if form%2 == 0 {
		return "'" + quoteReplacer.Replace(s) + "'"
	}
	return `"` + quoteReplacer.Replace(s) + `"`
}

func (m mdef) text() string {
	ors := []string{}
	for i, and := range m.Or {
		ands := []string{}
		for j, a := range and {
			f := m.Form + i + j
			switch a[0] {
			case "eq":
				ands = append(ands, fmt.Sprintf("%s.%s == %s.%s", m.R, a[1], m.P, a[2]))
			case "ne":
				ands = append(ands, fmt.Sprintf("%s.%s != %s.%s", m.P, a[2], m.R, a[1]))
			case "lit":
				if f%3 == 0 {
					ands = append(ands, fmt.Sprintf("%s == %s.%s", quoteLit(a[2], f), m.P, a[1]))
				} else {
					ands = append(ands, fmt.Sprintf("%s.%s == %s", m.P, a[1], quoteLit(a[2], f)))
				}
			case "g":
				if len(a) > 4 {
					ands = append(ands, fmt.Sprintf("%s(%s.%s, %s.%s, %s)", a[1], m.R, a[2], m.P, a[3], quoteLit(a[4], f)))
				} else {
					ands = append(ands, fmt.Sprintf("%s(%s.%s, %s.%s)", a[1], m.R, a[2], m.P, a[3]))
				}
			case "fn":
				ands = append(ands, fmt.Sprintf("%s(%s.%s, %s)", a[1], m.P, a[2], quoteLit(a[3], f)))
			}
		}
		t := strings.Join(ands, " && ")
		if len(ands) > 1 && m.Form%4 == 1 {
			t = "(" + t + ")"
		}
		ors = append(ors, t)
	}
	t := strings.Join(ors, " || ")
	switch {
	case m.Form%8 == 7:
		t = strings.Replace(t, " && ", " &&\n  ", 1)
	case m.Form%8 == 6:
		t = strings.ReplaceAll(strings.ReplaceAll(t, " && ", "&&"), " || ", "||")
	}
	return t
}

func (m mdef) encode() []string {
	res := []string{m.P, m.R, strconv.Itoa(m.Form)}
	for _, and := range m.Or {
		for _, a := range and {
			res = append(res, strings.Join(a, "\x00"))
		}
		res = append(res, "|")
	}
	return res
}

func decodeMdef(l []string) mdef {
	m := mdef{P: l[0], R: l[1]}
	m.Form, _ = strconv.Atoi(l[2])
	cur := [][]string{}
	for _, s := range l[3:] {
		if s == "|" {
			m.Or = append(m.Or, cur)
			cur = [][]string{}
		} else {
			a := strings.Split(s, "\x00")
			for i := range a {
				if strings.HasPrefix(a[i], "@") { // a long literal
					a[i] = dec(a[i])
				}
			}
			cur = append(cur, a)
		}
	}
	return m
}

var (
	dwPKeys = []string{"p", "p2", "p10"}
	dwGKeys = []string{"g", "g2"}
	dwRKeys = []string{"r", "r2"}
	dwMKeys = []string{"m", "m2", "m_x"}
	dwEKeys = []string{"e", "e2"}
	dwArgs  = []string{"sub, obj", "obj,sub, act", "sub,obj,act,eft", " sub , eft , obj", "sub, sub_type, obj"}
	dwRArgs = []string{"sub, obj", "obj, sub", "sub,act,obj"}
	dwEffs  = []string{"some(where (p.eft == allow))", "!some(where (p.eft == deny))", "some(where (p.eft == allow)) && !some(where (p.eft == deny))"}
	dwVals  = []string{"alice", "bob", "d1", "read", "a#b", "a;b", "#"}
)

func genMdef(r *rt.PRNG) mdef {
	m := mdef{P: pick(r, []string{"p", "p", "p", "p2", "p10"}), R: pick(r, []string{"r", "r", "r", "r2"}), Form: r.N(64)}
	for i := 1 + r.N(2)*r.N(3); i > 0; i-- {
		and := [][]string{}
		for j := 1 + r.N(3); j > 0; j-- {
			arg := func() string { return pick(r, []string{"sub", "obj"}) }
			switch r.N(8) {
			case 0, 1, 2:
				and = append(and, []string{"eq", arg(), arg()})
			case 3:
				and = append(and, []string{"ne", arg(), arg()})
			case 4, 5:
				and = append(and, []string{"lit", arg(), pick(r, dwLiterals)})
				if r.P(1, 300) {
					and[len(and)-1][2] = fmt.Sprintf("@%d:%s", pick(r, []int{300, 1023, 2000, 4096, 5000, 66000 / (1 + r.N(20))}), enc(pick(r, []string{"x", "a b", "a#b", "ü", ";"})))
				}
			case 6:
				and = append(and, []string{"g", pick(r, []string{"g", "g", "g2"}), arg(), arg()})
				if r.P(1, 3) {
					and[len(and)-1] = append(and[len(and)-1], pick(r, []string{"d1", "a#b", "read"}))
				}
			case 7:
				and = append(and, []string{"fn", pick(r, []string{"same", "same", "everywhere"}), arg(), pick(r, dwLiterals)})
			}
		}
		m.Or = append(m.Or, and)
	}
	return m
}

// broken refers to something, which never exists
func broken(r *rt.PRNG, m mdef) mdef {
	switch r.N(4) {
	case 0:
		m.P = "p9"
	case 1:
		m.Or[0] = append([][]string{{"fn", "unknown", "sub", "x"}}, m.Or[0]...)
	case 2:
		m.Or[0] = append([][]string{{"g", "g9", "sub", "sub"}}, m.Or[0]...)
	case 3:
		m.Or[0] = append([][]string{{"eq", "sub", "nothing"}}, m.Or[0]...)
	}
	return m
}

func (defsWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	c := &Case{Cfg: map[string]int{}, Order: r.U64()}
	setdef := func(sec string) Op {
		op := Op{K: "set", S: sec}
		switch sec {
		case "p":
			op.R = []string{pick(r, dwPKeys), pick(r, dwArgs)}
		case "g":
			op.R = []string{pick(r, dwGKeys), pick(r, []string{"_, _", "_, _", "_,_", "_, _, _", "_,_,_"})}
		case "r":
			op.R = []string{pick(r, dwRKeys), pick(r, dwRArgs)}
		case "e":
			op.R = []string{pick(r, dwEKeys), pick(r, dwEffs)}
		case "m":
			m := genMdef(r)
			if r.P(1, 12) && (prop == "C20" || r.P(1, 4)) {
				m = broken(r, m)
			}
			op.R = append([]string{pick(r, dwMKeys)}, m.encode()...)
			op.B = r.P(3, 4) // build
		}
		return op
	}
	// a complete model to start with
	for _, sec := range []string{"r", "p", "g", "e", "m"} {
		op := setdef(sec)
		op.R[0] = sec
		if sec == "m" {
			op.B = true
		}
		if !r.P(1, 12) {
			c.Ops = append(c.Ops, op)
		}
	}
	if prop == "C19" || r.P(1, 3) {
		for _, x := range [][]string{{"p", "p2"}, {"p", "p10"}, {"g", "g2"}, {"r", "r2"}} {
			if r.P(2, 3) {
				op := setdef(x[0])
				op.R[0] = x[1]
				c.Ops = append(c.Ops, op)
			}
		}
	}
	mkeys, pkeys := dwMKeys, dwPKeys
	if r.P(1, 40) { // many definitions
		mkeys, pkeys = append([]string{}, mkeys...), append([]string{}, pkeys...)
		for i := 2 + r.N(16); i > 0; i-- {
			sec := pick(r, []string{"r", "p", "g", "e", "m", "m", "p"})
			op := setdef(sec)
			op.R[0] = fmt.Sprintf("%s%d", sec, 20+i)
			if sec == "m" {
				mkeys = append(mkeys, op.R[0])
			}
			if sec == "p" {
				pkeys = append(pkeys, op.R[0])
			}
			c.Ops = append(c.Ops, op)
		}
	}
	unknown := 6
	if prop == "C20" {
		unknown = 3
	}
	name := func(list []string) string {
		if r.P(1, unknown) {
			return pick(r, []string{"", "p9", "g9", "r9", "m9", "e9", "x", "P", "p.sub", "p,", "true", "\x00", "ü"})
		}
		return pick(r, list)
	}
	rule := func() []string {
		k := name(append(append([]string{}, pkeys...), "g", "g", "g2"))
		n := 2 + r.N(3)
		if strings.HasPrefix(k, "g") {
			n = 2
		}
		x := []string{k}
		for ; n > 0; n-- {
			x = append(x, pick(r, dwVals))
		}
		if strings.HasPrefix(k, "g") {
			x = append(x, pick(r, []string{"d1", "a#b", "read"}))
		}
		if strings.HasPrefix(k, "p") && r.P(1, 2) {
			x = append(x[:len(x)-1], pick(r, []string{"allow", "deny"}))
		}
		return x
	}
	c.Cfg["short"] = 0
	if r.P(1, 3) {
		c.Cfg["short"] = 1 + r.N(1000)
	}
	// loadFrom lets a model be loaded from a file, which can fail
	loadFrom := func(op *Op) {
		op.S = pick(r, []string{"", "file", "file"})
		if op.K == "restart" {
			op.S = pick(r, []string{"", "", "file", "path"})
			op.B = r.P(1, 4)
		}
		if op.S != "" && r.P(1, 3) {
			op.F = []sos.Fault{{N: r.N(5), Kind: pick(r, []string{"eio", "eio", "emfile", "eacces", "missing"})}}
			if r.P(1, 4) {
				op.F[0].Kind, op.F[0].Arg, op.F[0].N = "eintr-read", r.N(200), r.N(3)
			}
		}
	}
	n := 4 + r.N(26)
	for i := 0; i < n; i++ {
		if prop == "C19" && r.P(1, 2) {
			if op := setdef("m"); op.R[1] != "p9" {
				c.Ops = append(c.Ops, op)
			}
			c.Ops = append(c.Ops, Op{K: "add", R: rule()}, Op{K: "add", R: rule()})
			if r.P(1, 2) {
				op := Op{K: "restart"}
				loadFrom(&op)
				c.Ops = append(c.Ops, op)
			}
			c.Ops = append(c.Ops, Op{K: "query", B: r.P(1, 2), S: "name", S2: pick(r, mkeys), RR: [][]string{{""}, {""}, {pick(r, dwVals), pick(r, dwVals), pick(r, dwVals)}}})
			continue
		}
		op := Op{K: pick(r, []string{"set", "set", "set", "remove", "build", "buildall", "add", "add", "add", "add", "del", "look", "query", "query", "query", "query", "restart", "function", "badset", "badtext", "load", "load", "setrm", "setreq", "setpolicy", "setmatcher", "enforcer"})}
		switch op.K {
		case "enforcer":
			op.N = r.N(6)
			op.B = r.P(1, 2)
		case "set":
			op = setdef(pick(r, []string{"r", "p", "g", "e", "m", "m", "m"}))
		case "remove":
			op.S = pick(r, []string{"r", "p", "g", "e", "m", "x", "P"})
			op.R = []string{name(append(append(append(append(append([]string{}, pkeys...), dwGKeys...), dwRKeys...), mkeys...), dwEKeys...))}
			if !r.P(1, 3) {
				op.R[0] = name(map[string][]string{"r": dwRKeys, "p": pkeys, "g": dwGKeys, "e": dwEKeys, "m": mkeys, "x": mkeys, "P": pkeys}[op.S])
			}
		case "build":
			op.R = []string{name(mkeys)}
		case "add", "del":
			op.R = rule()
		case "look":
			op.S = pick(r, []string{"def", "policy", "rm", "matcher", "request", "effector", "clear"})
			op.S2 = pick(r, []string{"r", "p", "g", "e", "m", "x"})
			op.R = []string{name(append(append(append(append(append([]string{}, pkeys...), dwGKeys...), dwRKeys...), mkeys...), dwEKeys...))}
		case "query":
			op.B = r.P(1, 3) // filter
			op.S = pick(r, []string{"", "", "", "name", "name", "text", "text", "def"})
			if r.P(1, 25) {
				op.S, op.N = "foreign", r.N(6)
			}
			switch op.S {
			case "name":
				op.S2 = name(mkeys)
			case "text", "def":
				m := genMdef(r)
				if r.P(1, unknown) {
					m = broken(r, m)
				}
				op.R = m.encode()
			}
			op.RR = [][]string{{""}, {""}, {pick(r, dwVals), pick(r, dwVals), pick(r, dwVals)}}
			if r.P(1, 3) {
				op.RR[0][0] = name(dwRKeys)
			}
			if r.P(1, 3) {
				op.RR[1][0] = name(dwEKeys)
			}
		case "function":
			op.B = r.P(3, 5)
		case "setrm":
			op.R = []string{pick(r, dwGKeys)}
		case "setpolicy":
			op.R = []string{pick(r, dwPKeys)}
		case "setmatcher":
			op.R = append([]string{pick(r, dwMKeys)}, genMdef(r).encode()...)
		case "setreq":
			op = setdef("r")
			op.K = "setreq"
		case "badtext":
			op.S = pick(r, []string{"[matchers]\nx = r.sub == p.sub\n", "[policy_definition]\nr = sub, obj\n", "[policy_definition]\np = sub, obj\ng = _, _\n", "[role_definition]\nrole = _, _\n", "[request_definition]\nq = sub\n\n[policy_definition]\np = sub\n", "[policy_effect]\np = some(where (p.eft == allow))\n", "[matchers\nm = p.sub == r.sub\n", "[matchers]\nm p.sub\n", "[policy_definition]\np = sub\n\n[matchers]\nm = p.sub == r.sub &&\n", "[policy_definition]\np = sub\n\n[matchers]\nm = p.sub == 'a\n", "[policy_definition]\np = sub\n\n[matchers]\nm = (p.sub == r.sub\n", "[policy_definition]\np = sub\n\n[matchers]\nm = p.sub == r.sub)\n", "[policy_definition]\np = sub\n\n[matchers]\nm =\n"})
		case "load":
			for _, sec := range []string{"r", "p", "g", "e", "m", "m"} {
				if !r.P(1, 3) {
					continue
				}
				d := setdef(sec)
				v := d.R[1]
				if sec == "m" {
					if d.R[1] == "p9" {
						continue
					}
					m := decodeMdef(d.R[1:])
					if t := m.text(); strings.Contains(t, "`") && strings.Contains(t, "\n") {
						continue
					}
				}
				op.RR = append(op.RR, append([]string{sec, d.R[0], v}, d.R[1:]...))
			}
			loadFrom(&op)
		case "restart":
			loadFrom(&op)
		case "badset":
			op.S = pick(r, []string{"p", "r", "g", "m", "e", "x", "P"})
			op.R = []string{pick(r, []string{"", "x", "q", "P", "m", "p", "1", " p"}), "sub, obj"}
			if op.R[0] == op.S {
				op.R[0] = "z"
			}
		}
		c.Ops = append(c.Ops, op)
	}
	if prop == "C19" || r.P(1, 2) {
		c.Ops = append(c.Ops, Op{K: "restart"}, Op{K: "query", RR: [][]string{{""}, {""}, {"alice", "d1", "read"}}})
	}
	return c
}

type builtMatcher struct {
	m    mdef
	pgen int // generation of the policy it belongs to
}

type defsRun struct {
	e     *Env
	m     *model.Model
	enf   *fastac.Enforcer
	defs  map[string]map[string]string // section, key, text
	mdefs map[string]mdef
	built map[string]builtMatcher
	gens  map[string]int
	gen   int
	same  bool // function same is known
	rules RuleSet
	shown string
}

func (r *defsRun) policyGen(key string) int { return r.gens[key] }

func (r *defsRun) has(sec, key string) bool { _, ok := r.defs[sec][key]; return ok }

func sameFn(args ...interface{}) (interface{}, error) {
	if len(args) != 2 {
		return nil, fmt.Errorf("same: two arguments")
	}
	return args[0] == args[1], nil
}

func (r *defsRun) arity(g string) int { return strings.Count(r.defs["g"][g], ",") + 1 }

// fits reports whether every role check has the number of values, which the role definition has
func (r *defsRun) fits(m mdef) bool {
	for _, and := range m.Or {
		for _, a := range and {
			if a[0] == "g" && len(a)-2 != r.arity(a[1]) {
				return false
			}
		}
	}
	return true
}

// known reports whether all the names in a matcher are known
func (r *defsRun) known(m mdef) bool {
	if !r.has("p", m.P) {
		return false
	}
	for _, and := range m.Or {
		for _, a := range and {
			switch a[0] {
			case "g":
				if !r.has("g", a[1]) {
					return false
				}
			case "fn":
				if a[1] != "everywhere" && (a[1] != "same" || !r.same) {
					return false
				}
			}
		}
	}
	return true
}

// evaluable reports whether every argument is known, too
func (r *defsRun) evaluable(m mdef, rd string) bool {
	if !r.known(m) || m.R != rd || !r.has("r", rd) {
		return false
	}
	pa, ra := setOf(splitArgs(r.defs["p"][m.P])), setOf(splitArgs(r.defs["r"][m.R]))
	for _, and := range m.Or {
		for _, a := range and {
			switch a[0] {
			case "eq", "ne":
				if !ra[a[1]] || !pa[a[2]] {
					return false
				}
			case "lit":
				if !pa[a[1]] {
					return false
				}
			case "g":
				if !ra[a[2]] || !pa[a[3]] {
					return false
				}
			case "fn":
				if !pa[a[2]] {
					return false
				}
			}
		}
	}
	return true
}

func index(list []string, s string) int {
	for i, x := range list {
		if x == s {
			return i
		}
	}
	return -1
}

// eval evaluates a matcher for a rule (with key). ok: every value is present
func (r *defsRun) eval(m mdef, rule, vals []string) (res, ok bool) {
	pa, ra := splitArgs(r.defs["p"][m.P]), splitArgs(r.defs["r"][m.R])
	pv := func(a string) (string, bool) {
		i := index(pa, a) + 1
		if i >= len(rule) {
			return "", false
		}
		return rule[i], true
	}
	rv := func(a string) string { return vals[index(ra, a)] }
	ok = true
	get := func(a string) string {
		v, o := pv(a)
		ok = ok && o
		return v
	}
	for _, and := range m.Or {
		all := true
		for _, a := range and {
			v := false
			switch a[0] {
			case "eq":
				v = rv(a[1]) == get(a[2])
			case "ne":
				v = rv(a[1]) != get(a[2])
			case "lit":
				v = get(a[1]) == a[2]
			case "g":
				v = linked(r.rules, a[1], rv(a[2]), get(a[3]), a[4:])
			case "fn":
				v = get(a[2]) == a[3]
			}
			all = all && v
		}
		res = res || all
	}
	return res, ok
}

const modelPath = "/data/model.conf"

// load loads a model text, op.S is "file" to load it from a file. The call is
// repeated without the faults, if one of them was hit.
func (r *defsRun) load(what string, op Op, text string, fn func(path string) error) error {
	e := r.e
	if op.S == "" {
		var err error
		e.Call(op.K, func() { err = fn("") })
		return err
	}
	e.Probe("model-file")
	e.Disk.Put(modelPath, []byte(text))
	e.Disk.ShortReads = e.C.Cfg["short"]
	defer func() { e.Disk.ShortReads = 0 }()
	for i := 0; ; i++ {
		path := modelPath
		e.Disk.Begin(nil)
		missing := false
		if i == 0 {
			if missing = len(op.F) > 0 && op.F[0].Kind == "missing"; missing {
				path += ".missing"
				e.Fault("fs-missing")
			} else {
				e.Disk.Begin(op.F)
			}
		}
		before := r.m.String()
		m := r.m
		calls := len(e.Disk.Trace)
		var err error
		e.Call(op.K, func() { err = fn(path) })
		hit := len(e.Disk.Last) > 0
		e.Disk.Begin(nil)
		if !hit && !missing {
			return err
		}
		e.Probe("model-file-with-fault")
		if err == nil {
			if missing {
				e.FailFor("C20", "no-error", "%s: a file, which does not exist, is loaded without error", what)
			}
			return nil // the fault had no effect, or the model is complete anyway
		}
		closed := false // the fault came too late
		if hit && op.F[0].Kind != "eintr-read" {
			closed = strings.HasPrefix(e.Disk.Trace[calls+op.F[0].N], "close")
		}
		if now := m.String(); now != before && !closed {
			e.FailFor("C20", "changed", "%s: the file can not be read (%v), but the model has been changed to\n%s\n--- from\n%s", what, err, now, before)
		}
	}
}

func (r *defsRun) start(what string, op Op, text string) error {
	uses := false // the function has to be set before the matchers are built
	for _, m := range r.mdefs {
		uses = uses || strings.Contains(m.text(), "same(")
	}
	err := r.load(what, op, text, func(path string) (err error) {
		m := model.NewModel()
		if r.same {
			m.SetFunction("same", sameFn)
		}
		switch {
		case path != "" && op.S == "path" && !uses:
			var enf *fastac.Enforcer
			if enf, err = fastac.NewEnforcer(path, nil); err == nil {
				r.enf, r.m = enf, enf.GetModel().(*model.Model)
				if r.same {
					r.m.SetFunction("same", sameFn)
				}
			}
			return err
		case path != "":
			err = m.LoadModel(path)
		case text != "":
			err = m.LoadModelFromText(text)
		}
		if err == nil {
			var enf *fastac.Enforcer
			if op.B { // the model can be passed by value
				enf, err = fastac.NewEnforcer(*m, nil)
			} else {
				enf, err = fastac.NewEnforcer(m, nil)
			}
			if err == nil {
				r.enf, r.m = enf, enf.GetModel().(*model.Model)
			}
		}
		return err
	})
	return err
}

func (defsWorld) Run(e *Env) {
	r := &defsRun{e: e, defs: map[string]map[string]string{}, mdefs: map[string]mdef{}, built: map[string]builtMatcher{}, gens: map[string]int{}, rules: RuleSet{}, same: true}
	for _, s := range dwSections {
		r.defs[s] = map[string]string{}
	}
	e.Call("global", func() { fm.SetFunction("everywhere", sameFn) }) // known to every model
	if err := r.start("start", Op{K: "start"}, ""); err != nil {
		e.FailFor("C19 C20", "error", "an empty model can not be used: %v", err)
	}
	for i, op := range e.C.Ops {
		e.S.SetOrder(rt.Mix(e.C.Order, uint64(i)))
		r.step(fmt.Sprintf("operation %d (%s)", i, op.K), op)
		if got := newSet(rulesOf(r.m)); !got.equal(r.rules) {
			e.FailFor("C20", "rules", "operation %d (%s): the rules in effect are wrong: %s", i, op.K, diff(r.rules, got))
		}
		e.State(r.summary())
	}
}

func (r *defsRun) summary() string {
	l := []string{}
	for s, d := range r.defs {
		for k, v := range d {
			l = append(l, s+k+"="+v)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (r *defsRun) dropRules(k string) {
	for id, x := range r.rules {
		if x[0] == k {
			delete(r.rules, id)
		}
	}
}

func (r *defsRun) step(what string, op Op) {
	e := r.e
	var err error
	switch op.K {
	case "set":
		k := op.R[0]
		v := ""
		if op.S == "m" {
			m := decodeMdef(op.R[1:])
			r.mdefs[k] = m
			v = m.text()
		} else {
			v = op.R[1]
		}
		e.Call("set", func() { err = r.m.SetDef(op.S[0], k, v) })
		if err != nil {
			e.FailFor("C20", "error", "%s: SetDef(%s, %s, %q): %v", what, op.S, k, v, err)
		}
		r.defs[op.S][k] = v
		if op.S == "p" || op.S == "g" {
			r.dropRules(k)
			r.gen++
			r.gens[k] = r.gen
		}
		if op.S == "m" && op.B {
			r.build(what, k)
		}
	case "setrm":
		k := op.R[0]
		if !r.has("g", k) {
			return
		}
		e.Call(op.K, func() {
			if r.arity(k) == 2 {
				r.m.SetRoleManager(k, rbac.NewRoleManager(10))
			} else {
				r.m.SetRoleManager(k, rbac.NewDomainManager(10))
			}
		})
		r.dropRules(k)
		r.gen++
		r.gens[k] = r.gen
	case "setpolicy":
		k := op.R[0]
		if !r.has("p", k) {
			return
		}
		e.Call(op.K, func() { r.m.SetPolicy(k, policy.NewPolicy(defs.NewPolicyDef(k, r.defs["p"][k]))) })
		r.dropRules(k)
		r.gen++
		r.gens[k] = r.gen
	case "setmatcher":
		k := op.R[0]
		if !r.has("m", k) {
			return
		}
		m := decodeMdef(op.R[1:])
		e.Call(op.K, func() {
			var x matcher.IMatcher
			if x, err = r.m.BuildMatcherFromDef(defs.NewMatcherDef(k, m.text())); err == nil {
				r.m.SetMatcher(k, x)
			}
		})
		if (err == nil) != r.known(m) {
			e.FailFor("C20", "build", "%s: BuildMatcherFromDef(%q): %v: %s", what, m.text(), err, r.summary())
		}
		if err == nil {
			r.built[k] = builtMatcher{m, r.policyGen(m.P)}
		}
	case "setreq":
		e.Call(op.K, func() { r.m.SetRequestDef(op.R[0], defs.NewRequestDef(op.R[0], op.R[1])) })
		r.defs["r"][op.R[0]] = op.R[1]
	case "badtext":
		m := model.NewModel()
		e.Call("badtext", func() { err = m.LoadModelFromText(op.S) })
		if err == nil {
			e.FailFor("C20", "no-error", "%s: the text %q is loaded without an error", what, op.S)
		}
	case "load":
		text := ""
		names := map[string]string{"r": "request_definition", "p": "policy_definition", "g": "role_definition", "e": "policy_effect", "m": "matchers"}
		for _, d := range op.RR {
			v := d[2]
			if d[0] == "m" {
				m := decodeMdef(d[3:])
				v = m.text()
				text += fmt.Sprintf("[%s]\n%s = `%s`\n", names[d[0]], d[1], v)
				r.mdefs[d[1]] = m
			} else {
				text += fmt.Sprintf("[%s]\n%s = %s\n# comment\n\n", names[d[0]], d[1], v)
			}
			if d[0] == "p" || d[0] == "g" {
				r.dropRules(d[1])
				r.gen++
				r.gens[d[1]] = r.gen
			}
			r.defs[d[0]][d[1]] = v
		}
		err = r.load(what, op, text, func(path string) error {
			if path != "" {
				return r.m.LoadModel(path)
			}
			return r.m.LoadModelFromText(text)
		})
		r.builtAll(what+" "+text, err)
	case "enforcer":
		before := r.m.String()
		e.Disk.Begin(nil)
		e.Call("enforcer", func() {
			var opts []fastac.Option
			if op.B {
				opts = append(opts, fastac.OptionAutosave(true))
			}
			var adapter interface{} = "/data/no-such-policy.csv"
			m := interface{}(r.m)
			switch op.N {
			case 0:
				m, adapter = nil, nil
			case 1:
				m, adapter = 42, nil
			case 2:
				m, adapter = "/data/no-such-model.conf", nil
			case 3:
				m, adapter = "", nil
			case 4:
				m = *r.m
			}
			_, err = fastac.NewEnforcer(m, adapter, opts...)
		})
		e.Probe("enforcer-from-nothing")
		if err == nil {
			e.FailFor("C20", "no-error", "%s: an enforcer is created from a model or a policy file, which do not exist (%d)", what, op.N)
		}
		if now := r.m.String(); now != before {
			e.FailFor("C20", "changed", "%s: the model has been changed to\n%s\n--- from\n%s", what, now, before)
		}
	case "badset":
		e.Call("badset", func() { err = r.m.SetDef(op.S[0], op.R[0], op.R[1]) })
		if err == nil {
			e.FailFor("C20", "no-error", "%s: SetDef(%s, %q) returned no error", what, op.S, op.R[0])
		}
	case "remove":
		k := op.R[0]
		e.Call("remove", func() { err = r.m.RemoveDef(op.S[0], k) })
		if _, ok := r.defs[op.S]; !ok {
			if err == nil {
				e.FailFor("C20", "no-error", "%s: RemoveDef(%s) returned no error for an unknown section", what, op.S)
			}
			return
		}
		if !r.has(op.S, k) {
			e.Probe("remove-unknown")
			return // an error or nothing
		}
		if err != nil {
			e.FailFor("C20", "error", "%s: RemoveDef(%s, %s): %v", what, op.S, k, err)
		}
		delete(r.defs[op.S], k)
		switch op.S {
		case "m":
			delete(r.mdefs, k)
			delete(r.built, k)
		case "p", "g":
			r.dropRules(k)
			r.gen++
			r.gens[k] = r.gen
		}
	case "build":
		r.build(what, op.R[0])
	case "buildall":
		e.Call("buildall", func() { err = r.m.BuildMatchers() })
		r.builtAll(what, err)
	case "add", "del":
		var ok bool
		x := op.R
		if r.has("g", x[0]) {
			for len(x)-1 < r.arity(x[0]) {
				x = append(copyRule(x), "d1")
			}
			x = x[:1+r.arity(x[0])]
		}
		e.Call(op.K, func() {
			if op.K == "add" {
				ok, err = r.enf.AddRule(copyRule(x))
			} else {
				ok, err = r.enf.RemoveRule(copyRule(x))
			}
		})
		sec := ""
		if len(x) > 0 && x[0] != "" {
			sec = x[0][:1]
		}
		if (sec != "p" && sec != "g") || !r.has(sec, x[0]) {
			e.Probe("rule-of-unknown-policy")
			if err == nil || ok {
				e.FailFor("C20", "no-error", "%s %q: %v, no error, although there is no such policy", what, x, ok)
			}
			return
		}
		want := false
		if op.K == "add" {
			want = r.rules.add(x)
		} else {
			want = r.rules.remove(x)
		}
		if err != nil || ok != want {
			e.FailFor("C20", "change", "%s %q: %v %v, expected %v", what, x, ok, err, want)
		}
	case "function":
		e.Call("function", func() {
			if op.B {
				r.m.SetFunction("same", sameFn)
			} else if r.m.RemoveFunction("same") != r.same {
				err = fmt.Errorf("wrong answer")
			}
		})
		if err != nil {
			e.FailFor("C20", "function", "%s: RemoveFunction does not report whether the function was known", what)
		}
		r.same = op.B
	case "look":
		r.look(what, op)
	case "query":
		r.query(what, op)
	case "restart":
		r.restart(what, op)
	}
}

func (r *defsRun) builtAll(what string, err error) {
	e := r.e
	bad := false
	for _, m := range r.mdefs {
		bad = bad || !r.known(m)
	}
	if bad {
		e.Probe("build-with-unknown-names")
		if err == nil {
			e.FailFor("C20", "no-error", "%s: BuildMatchers returned no error, although a matcher refers to an unknown definition: %s", what, r.summary())
		}
		// which matchers have been built depends on the enumeration order
		for k := range r.mdefs {
			r.built[k] = builtMatcher{pgen: -1}
		}
		return
	}
	if err != nil {
		e.FailFor("C20 C19", "error", "%s: BuildMatchers: %v: %s", what, err, r.summary())
	}
	for k, m := range r.mdefs {
		r.built[k] = builtMatcher{m, r.policyGen(m.P)}
	}
}

func (r *defsRun) build(what, k string) {
	e := r.e
	var err error
	e.Call("build", func() { err = r.m.BuildMatcher(k) })
	m, ok := r.mdefs[k]
	if !ok || !r.known(m) {
		e.Probe("build-with-unknown-names")
		if err == nil {
			e.FailFor("C20", "no-error", "%s: BuildMatcher(%q) returned no error, although a name is unknown: %s", what, k, r.summary())
		}
		return
	}
	if err != nil {
		e.FailFor("C20 C19", "error", "%s: BuildMatcher(%q): %v: %s", what, k, err, r.summary())
	}
	r.built[k] = builtMatcher{m, r.policyGen(m.P)}
}

func (r *defsRun) look(what string, op Op) {
	e := r.e
	k := op.R[0]
	var got, want bool
	switch op.S {
	case "def":
		e.Call("look", func() {
			var d defs.IDef
			if d, got = r.m.GetDef(op.S2[0], k); got && d.GetKey() != k {
				got = false
			}
		})
		want = r.has(op.S2, k)
	case "policy":
		e.Call("look", func() {
			p, ok := r.m.GetPolicy(k)
			got = ok
			if ok {
				p.Range(func([]string) bool { return true })
			}
		})
		want = r.has("p", k) || r.has("g", k)
	case "rm":
		e.Call("look", func() {
			rm, ok := r.m.GetRoleManager(k)
			got = ok
			if ok {
				_, _ = rm.HasLink("a", "b")
			}
		})
		want = r.has("g", k)
	case "matcher":
		e.Call("look", func() { _, got = r.m.GetMatcher(k) })
		b, ok := r.built[k]
		if ok && b.pgen < 0 {
			return
		}
		want = ok
	case "request":
		e.Call("look", func() { _, got = r.m.GetRequestDef(k) })
		want = r.has("r", k)
	case "effector":
		e.Call("look", func() { _, got = r.m.GetEffector(k) })
		want = r.has("e", k)
	case "clear":
		var err error
		e.Call("look", func() { err = r.m.ClearPolicy(k) })
		got = err == nil
		want = r.has("p", k) || r.has("g", k)
		if want {
			r.dropRules(k)
		}
	}
	if !want {
		e.Probe("look-up-of-unknown")
	}
	if got != want {
		e.FailFor("C20", "look-up", "%s: looking up the %s %s %q: found %v, expected %v", what, op.S, op.S2, k, got, want)
	}
}

func (r *defsRun) query(what string, op Op) {
	e := r.e
	rd, eff, vals := op.RR[0][0], op.RR[1][0], op.RR[2]
	opts := []interface{}{}
	fresh := true // the matcher is in step with the definitions
	unknown := false
	var m mdef
	name := "m"
	switch op.S {
	case "text":
		m = decodeMdef(op.R)
		opts = append(opts, fastac.SetMatcher(m.text()))
		unknown = !r.known(m)
		name = ""
	case "def":
		m = decodeMdef(op.R)
		opts = append(opts, fastac.SetMatcher(defs.NewMatcherDef("adhoc", m.text())))
		unknown = !r.known(m)
		name = ""
	case "foreign": // a matcher of another model, which uses a function only that model has
		unknown = true
		name = ""
		e.Call("foreign", func() {
			other := model.NewModel()
			_ = other.SetDef('r', "r", "sub, obj")
			_ = other.SetDef('p', "p", "sub, obj")
			other.SetFunction("onlythere", func(args ...interface{}) (interface{}, error) { return true, nil })
			text := "onlythere(r.sub, p.sub)"
			switch op.N % 3 {
			case 1:
				text += " && p.obj == p.obj"
			case 2:
				text = "(p.sub == p.sub && " + text + ") || p.obj == 'nobody'"
			}
			foreign, err := other.BuildMatcherFromDef(defs.NewMatcherDef("", text))
			if err != nil {
				e.Fail("foreign", "%s: the matcher %q can not be built: %v", what, text, err)
			}
			opts = append(opts, fastac.SetMatcher(foreign))
		})
	case "name":
		opts = append(opts, fastac.SetMatcher(op.S2))
		if op.S2 != "" {
			name = op.S2
		}
	}
	if name != "" {
		b, ok := r.built[name]
		switch {
		case !ok && (name == "true" || name == "p.sub"):
			fresh = false // this is an expression
		case !ok:
			unknown = true
		default:
			m = b.m
			fresh = b.pgen == r.policyGen(m.P) && r.known(m)
		}
	}
	if rd != "" {
		opts = append(opts, fastac.SetRequestDef(rd))
	} else {
		rd = "r"
	}
	if !r.has("r", rd) {
		unknown = true
	}
	if eff != "" {
		opts = append(opts, fastac.SetEffector(eff))
	} else {
		eff = "e"
	}
	if !op.B && !r.has("e", eff) {
		unknown = true
	}
	ra := splitArgs(r.defs["r"][rd])
	if len(vals) > len(ra) {
		vals = vals[:len(ra)]
	}
	for _, v := range vals {
		opts = append(opts, v)
	}
	var ok bool
	var err error
	var list [][]string
	e.Call("query", func() {
		if op.B {
			list, err = r.enf.Filter(opts...)
		} else {
			ok, err = r.enf.Enforce(opts...)
		}
	})
	if unknown {
		e.Probe("query-with-unknown-names")
		if err == nil || ok {
			e.FailFor("C20", "no-error", "%s: the query %v is answered %v %v, although it refers to an unknown definition: %s", what, op, ok, list, r.summary())
		}
		return
	}
	if !fresh {
		e.Probe("query-of-outdated-matcher")
		if first := m.Or; len(first) > 0 && (err == nil || ok) {
			a := first[0][0]
			if a[0] == "g" && !r.has("g", a[1]) || a[0] == "fn" && a[1] == "same" && !r.same {
				e.FailFor("C20", "no-error", "%s: the query %v is answered %v %v, although its matcher %q needs %s, which has been removed: %s", what, op, ok, list, m.text(), a[1], r.summary())
			}
		}
		return
	}
	if !r.evaluable(m, rd) {
		e.Probe("query-with-unknown-arguments")
		if !r.reaches(m, rd) {
			return
		}
		if err == nil || ok {
			e.FailFor("C20", "no-error", "%s: the query %v is answered %v %v, although it refers to an unknown argument: %s", what, op, ok, list, r.summary())
		}
		return
	}
	if !r.fits(m) {
		return
	}
	matched := RuleSet{}
	allow, deny := false, false
	n := 0
	pa := splitArgs(r.defs["p"][m.P])
	rules := [][]string{}
	for _, x := range r.rules {
		if x[0] == m.P {
			rules = append(rules, x)
		}
	}
	n = len(rules)
	if n == 0 {
		rules = append(rules, append([]string{m.P}, make([]string, len(pa))...))
	}
	for _, x := range rules {
		res, full := r.eval(m, x, vals)
		if !full {
			return // a rule has not enough values
		}
		if !res {
			continue
		}
		matched.add(x)
		switch i := index(pa, "eft") + 1; {
		case i == 0 || i >= len(x) || x[i] == "" || x[i] == "allow":
			allow = true
		case x[i] == "deny":
			deny = true
		}
	}
	if err != nil {
		e.FailFor("C19 C20", "error", "%s: the query %v with the matcher %q fails: %v: %s", what, op, m.text(), err, r.summary())
	}
	e.Probe("decision-compared")
	if op.B {
		if got := newSet(list); !got.equal(matched) {
			e.FailFor("C19 C20", "filter", "%s: the filter %v with the matcher %q is wrong: %s", what, op, m.text(), diff(matched, got))
		}
		return
	}
	want := false
	switch index(dwEffs, r.defs["e"][eff]) {
	case 0:
		want = allow
	case 1:
		want = !deny
	case 2:
		want = allow && !deny
	}
	if ok != want {
		e.FailFor("C19 C20", "decision", "%s: the query %v with the matcher %q is answered %v instead of %v, rules %v: %s", what, op, m.text(), ok, want, r.rules, r.summary())
	}
}

// reaches reports whether evaluating the matcher certainly needs an unknown
// argument: the first atom of the first alternative has one
func (r *defsRun) reaches(m mdef, rd string) bool {
	one := m
	one.Or = [][][]string{{m.Or[0][0]}}
	if m.R != rd && m.Or[0][0][0] != "lit" && m.Or[0][0][0] != "fn" {
		return true
	}
	one.R = rd
	return !r.evaluable(one, rd)
}

func (r *defsRun) restart(what string, op Op) {
	e := r.e
	text := ""
	e.Call("print", func() { text = r.m.String() })
	valid := true
	for _, m := range r.mdefs {
		valid = valid && r.known(m)
	}
	printed := map[string]string{}
	for _, s := range dwSections {
		for _, k := range sortedKeys(r.defs[s]) {
			if x, ok := r.m.GetDef(s[0], k); ok {
				printed[s+" "+k] = x.String()
			}
		}
	}
	old, oldEnf := r.m, r.enf
	err := r.start(what, op, text)
	if !valid {
		e.Probe("restart-of-invalid-model")
		if err == nil {
			e.FailFor("C20", "no-error", "%s: a model, whose matcher refers to an unknown definition, is loaded without error: %q", what, text)
		}
		r.m, r.enf = old, oldEnf
		return
	}
	e.Probe("restart-from-text")
	if err != nil {
		e.FailFor("C19", "load", "%s: the printed model can not be loaded: %v\n%s", what, err, text)
	}
	again := ""
	e.Call("print", func() { again = r.m.String() })
	if again != text {
		e.FailFor("C19", "text", "%s: the loaded model prints a different text:\n%s\n--- instead of\n%s", what, again, text)
	}
	for _, s := range dwSections {
		for _, k := range sortedKeys(r.defs[s]) {
			v := r.defs[s][k]
			x, ok := r.m.GetDef(s[0], k)
			if !ok {
				e.FailFor("C19", "lost", "%s: the definition %s is not part of the loaded model:\n%s", what, k, text)
			}
			same := true
			switch def := x.(type) {
			case *defs.PolicyDef:
				same = fmt.Sprint(def.GetArgs()) == fmt.Sprint(splitArgs(v))
			case *defs.RequestDef:
				for _, a := range splitArgs(v) {
					same = same && def.Has(k+"_"+a)
				}
			case *defs.RoleDef:
				same = def.NArgs() == strings.Count(v, ",")+1
			case *defs.EffectDef:
				same = def.Expr() == strings.ReplaceAll(v, " ", "")
			}
			if !same || x.GetKey() != k || x.String() != printed[s+" "+k] {
				e.FailFor("C19", "different", "%s: the definition %s is %q in the loaded model, it was %q (%s)", what, k, x.String(), v, printed[s+" "+k])
			}
		}
	}
	for i, keys := range [][]string{dwRKeys, dwPKeys, dwGKeys, dwEKeys, dwMKeys} {
		s := dwSections[i]
		for _, k := range keys {
			if _, ok := r.m.GetDef(s[0], k); ok && !r.has(s, k) {
				e.FailFor("C19", "added", "%s: the loaded model has a definition %s, which did not exist:\n%s", what, k, text)
			}
		}
	}
	r.built = map[string]builtMatcher{}
	for k, m := range r.mdefs {
		r.gen++
		r.built[k] = builtMatcher{m, r.policyGen(m.P)}
	}
	for _, x := range r.rules.list() {
		e.Call("add", func() { _, err = r.m.AddRule(copyRule(x)) })
		if err != nil {
			e.FailFor("C19", "rule", "%s: the loaded model does not accept the rule %q: %v", what, x, err)
		}
	}
}

var _ = govaluate.ExpressionFunction(sameFn)
