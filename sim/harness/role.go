package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
	"zzsim.local/rt"
)

// World "role" (C13): histories of grants, revocations, clears, matching
// functions and queries on the default role managers, compared with a
// reference graph.

func init() {
	worlds["role"] = roleWorld{}
	register(&Prop{ID: "C13", World: "role", Quick: 500000, Thorough: 4000000,
		Rule:       "Random histories of AddLink/DeleteLink (directly and through a role policy), Clear, SetMatcher, SetDomainMatcher and queries on a role manager or a domain manager with one or two domain levels, under random enumeration orders; names and domains with path, prefix and regular expression patterns; chains and cycles of grants.",
		Components: []string{"RoleManager", "DomainManager", "RolePolicy", "Role", "SyncLRUCache", "PathMatcher", "RegexMatcher"},
		Stubs:      []string{"sync.Map, map enumeration order"}})
}

type roleWorld struct{}

// refMatcher is the meaning of a matching function
type refMatcher struct {
	kind string // "" path regex prefix
}

func (m refMatcher) lib() util.IMatcher {
	switch m.kind {
	case "path":
		return util.PathMatcher
	case "regex":
		return util.RegexMatcher
	case "prefix":
		return util.NewMatcher(func(s string) bool { return strings.HasSuffix(s, "~") }, func(s, p string) bool {
			return m.match(s, p)
		})
	}
	return nil
}

func (m refMatcher) isPattern(s string) bool {
	switch m.kind {
	case "path":
		for _, seg := range strings.Split(s, "/") {
			if seg == "*" || strings.HasPrefix(seg, ":") {
				return true
			}
		}
	case "regex":
		return strings.HasPrefix(s, "p'")
	case "prefix":
		return strings.HasSuffix(s, "~")
	}
	return false
}

// match reports whether s is equal to p or covered by the pattern p
func (m refMatcher) match(s, p string) bool {
	if s == p {
		return true
	}
	if !m.isPattern(p) {
		return false
	}
	switch m.kind {
	case "path":
		return refPathMatch(s, p)
	case "regex":
		return regexp.MustCompile(p[2:]).MatchString(s)
	}
	return strings.HasPrefix(s, p[:len(p)-1])
}

// roleRef is the reference: the current grants and nothing else
type roleRef struct {
	grants  RuleSet // name1 name2 domain...
	m, dm   refMatcher
	known   map[string]bool // names, which have been used
	domains bool            // domain manager
}

func newRoleRef(domains bool) *roleRef {
	return &roleRef{grants: RuleSet{}, known: map[string]bool{}, domains: domains}
}

func (r *roleRef) clone() *roleRef {
	c := *r
	c.grants = r.grants.clone()
	c.known = map[string]bool{}
	for k := range r.known {
		c.known[k] = true
	}
	return &c
}

// covers reports whether a grant in domain p applies to domain d. If may is
// set, a domain, which is a pattern itself, counts as a name as well.
func (r *roleRef) covers(d, p []string, may bool) bool {
	if !r.domains {
		return true
	}
	if len(d) != len(p) {
		return false
	}
	for i := range d {
		if d[i] == p[i] {
			continue
		}
		if !may && r.dm.isPattern(d[i]) || !r.dm.match(d[i], p[i]) {
			return false
		}
	}
	return true
}

// graph is the effective role graph of a domain
type graph struct {
	roles map[string][]string
	users map[string][]string
	names []string
	m     refMatcher
	may   bool
}

// graph returns the least (may = false) or the greatest graph
func (r *roleRef) graph(dom []string, may bool, extra ...string) *graph {
	g := &graph{roles: map[string][]string{}, users: map[string][]string{}, m: r.m, may: may}
	names := append([]string{}, extra...)
	for _, x := range r.grants.list() {
		if r.covers(dom, x[2:], may) {
			g.roles[x[0]] = append(g.roles[x[0]], x[1])
			g.users[x[1]] = append(g.users[x[1]], x[0])
			names = append(names, x[0], x[1])
		}
	}
	if may {
		for n := range r.known {
			names = append(names, n)
		}
	}
	g.names = uniq(names)
	return g
}

// matches reports whether the name s is covered by the pattern p
func (g *graph) matches(s, p string) bool {
	return s != p && g.m.isPattern(p) && (g.may || !g.m.isPattern(s)) && g.m.match(s, p)
}

func (g *graph) next(links map[string][]string, x string) map[string]bool {
	res := map[string]bool{}
	for _, y := range links[x] {
		res[y] = true
		for _, m := range g.names {
			if g.matches(m, y) {
				res[m] = true
			}
		}
	}
	for _, p := range g.names {
		if g.matches(x, p) {
			for _, y := range links[p] {
				res[y] = true
			}
		}
	}
	return res
}

// distance is the number of grants between two names, -1 if there is no connection
func (g *graph) distance(a, b string) int {
	found := func(x string) bool { return x == b || g.matches(x, b) }
	if found(a) {
		return 0
	}
	seen := map[string]bool{a: true}
	layer := []string{a}
	for n := 1; len(layer) > 0; n++ {
		nextLayer := []string{}
		for _, x := range layer {
			for y := range g.next(g.roles, x) {
				if found(y) {
					return n
				}
				if !seen[y] {
					seen[y] = true
					nextLayer = append(nextLayer, y)
				}
			}
		}
		layer = nextLayer
	}
	return -1
}

// hasLink returns which answers are possible
func (r *roleRef) hasLink(a, b string, dom []string) (yes, no bool) {
	limit := 7
	if len(dom) > 1 {
		limit = 6
	}
	least := r.graph(dom, false, a, b).distance(a, b)
	if least >= 0 && least <= limit {
		return true, false
	}
	if r.graph(dom, true, a, b).distance(a, b) < 0 {
		return false, true
	}
	return true, true
}

// neighbours returns the least and the greatest result of GetRoles or GetUsers
func (r *roleRef) neighbours(users bool, a string, dom []string) (least, most map[string]bool) {
	for _, may := range []bool{false, true} {
		g := r.graph(dom, may, a)
		links := g.roles
		if users {
			links = g.users
		}
		if !may {
			least = g.next(links, a)
			delete(least, a)
		} else {
			most = g.next(links, a)
			most[a] = true
		}
	}
	return least, most
}

// allDomains returns the domains with a grant by their key
func (r *roleRef) allDomains() map[string][]string {
	res := map[string][]string{}
	for _, x := range r.grants {
		res[key(x[2:])] = x[2:]
	}
	return res
}

func between(least, most map[string]bool, got []string) bool {
	set := setOf(got)
	for x := range least {
		if !set[x] {
			return false
		}
	}
	for x := range set {
		if !most[x] {
			return false
		}
	}
	return true
}

func show(m map[string]bool) string {
	l := []string{}
	for x := range m {
		l = append(l, x)
	}
	return fmt.Sprintf("%q", sortedCopy(l))
}

// change applies a grant or revocation, and returns whether it changes anything
func (r *roleRef) change(add bool, link []string) bool {
	if !r.domains {
		link = link[:2]
	}
	r.known[link[0]] = true
	r.known[link[1]] = true
	if add {
		return r.grants.add(copyRule(link))
	}
	return r.grants.remove(link)
}

// ---- driver

type roleManager interface {
	rbac.IDefaultRoleManager
	GetDomains(name string) ([]string, error)
	GetAllDomains() ([]string, error)
}

// call executes an operation on the role manager and records its answer
type roleAnswer struct {
	ok    bool
	names []string
	links [][]string
	err   error
	after int
}

func roleCall(rm roleManager, pol *rbac.RolePolicy, op *Op) *roleAnswer {
	return roleCallNested(rm, pol, op, nil)
}

// roleCallNested calls nested for every link of an enumeration
func roleCallNested(rm roleManager, pol *rbac.RolePolicy, op *Op, nested func(*roleAnswer)) *roleAnswer {
	a := &roleAnswer{}
	switch op.K {
	case "add":
		link := copyRule(op.R)
		if op.B {
			a.ok, a.err = pol.AddRule(link)
		} else {
			a.ok, a.err = rm.AddLink(link[0], link[1], link[2:]...)
			scribble(link)
		}
	case "del":
		link := copyRule(op.R)
		if op.B {
			a.ok, a.err = pol.RemoveRule(link)
		} else {
			a.ok, a.err = rm.DeleteLink(link[0], link[1], link[2:]...)
			scribble(link)
		}
	case "has":
		a.ok, a.err = rm.HasLink(op.R[0], op.R[1], op.R[2:]...)
	case "roles":
		a.names, a.err = rm.GetRoles(op.R[0], op.R[1:]...)
	case "users":
		a.names, a.err = rm.GetUsers(op.R[0], op.R[1:]...)
	case "domains":
		a.names, a.err = rm.GetDomains(op.R[0])
	case "alldomains":
		a.names, a.err = rm.GetAllDomains()
	case "clear":
		if op.B {
			a.err = pol.Clear()
		} else {
			a.err = rm.Clear()
		}
	case "range":
		n, stopped := 0, false
		cb := func(link []string) bool {
			if stopped {
				a.after++
				return false
			}
			a.links = append(a.links, copyRule(link))
			n++
			if nested != nil {
				nested(a)
			}
			stopped = n == op.N
			return !stopped
		}
		if op.B {
			pol.Range(cb)
		} else {
			rm.Range(func(x, y string, dom ...string) bool { return cb(append([]string{x, y}, dom...)) })
		}
	case "setm":
		rm.SetMatcher(refMatcher{op.S}.lib())
	case "setdm":
		rm.SetDomainMatcher(refMatcher{op.S}.lib())
	default:
		panic("harness: role operation " + op.K)
	}
	a.names = append([]string{}, a.names...)
	return a
}

// roleStep applies an operation to the reference, and reports "" if the answer fits
func (r *roleRef) step(op *Op, a *roleAnswer) string {
	if a.err != nil {
		return fmt.Sprintf("%v fails: %v", op, a.err)
	}
	bad := func(want interface{}, got interface{}) string {
		return fmt.Sprintf("%v returns %v instead of %v; grants %v, matchers %q %q", op, got, want, r.grants, r.m.kind, r.dm.kind)
	}
	switch op.K {
	case "add", "del":
		if want := r.change(op.K == "add", op.R); want != a.ok {
			return bad(want, a.ok)
		}
	case "clear":
		r.grants = RuleSet{}
	case "setm":
		r.m.kind = op.S
	case "setdm":
		r.dm.kind = op.S
	case "has":
		yes, no := r.hasLink(op.R[0], op.R[1], op.R[2:])
		if a.ok && !yes || !a.ok && !no {
			return bad(!a.ok, a.ok)
		}
	case "roles", "users":
		least, most := r.neighbours(op.K == "users", op.R[0], op.R[1:])
		if !between(least, most, a.names) {
			return bad(show(least)+" to "+show(most), fmt.Sprintf("%q", sortedCopy(a.names)))
		}
	case "alldomains":
		// two domains can have the same text, which may be listed once or twice
		want := map[string]int{}
		if r.domains {
			for _, dom := range r.allDomains() {
				want[strings.Join(dom, "/")]++
			}
		}
		got := map[string]int{}
		for _, d := range a.names {
			got[d]++
		}
		wrong := len(want) != len(got)
		for d, n := range got {
			wrong = wrong || n > want[d]
		}
		if wrong {
			return bad(want, a.names)
		}
	case "domains":
		least, most := map[string]bool{}, map[string]bool{}
		if r.domains {
			for _, dom := range r.allDomains() {
				d := strings.Join(dom, "/")
				for _, users := range []bool{false, true} {
					l, m := r.neighbours(users, op.R[0], dom)
					delete(m, op.R[0])
					if len(l) > 0 {
						least[d] = true
					}
					if len(m) > 0 || r.known[op.R[0]] && r.m.kind != "" {
						most[d] = true
					}
				}
				for _, x := range r.grants { // a grant to oneself
					if x[0] == op.R[0] && x[1] == x[0] {
						most[d] = true
					}
				}
			}
		}
		if !between(least, most, a.names) {
			return bad(show(least)+" to "+show(most), fmt.Sprintf("%q", sortedCopy(a.names)))
		}
	case "range":
		if a.after > 0 {
			return fmt.Sprintf("%v: the callback is called after it asked to stop", op)
		}
		got := newSet(a.links)
		if len(got) != len(a.links) {
			return fmt.Sprintf("%v: a grant is listed twice: %q", op, a.links)
		}
		for k, x := range got {
			if _, ok := r.grants[k]; !ok {
				return fmt.Sprintf("%v lists %q, grants %v", op, x, r.grants)
			}
		}
		if op.N == 0 && !got.equal(r.grants) || op.N > 0 && len(got) != op.N && len(got) != len(r.grants) {
			return fmt.Sprintf("%v: %s", op, diff(r.grants, got))
		}
	}
	return ""
}

// ---- generator

type rgen struct {
	r       *rt.PRNG
	names   []string
	domains []string
	depth   int
	used    [][]string
}

var rolePools = map[string][]string{
	"":       {"alice", "bob", "carol", "admin", "staff", "ops", "", "a b"},
	"path":   {"alice", "/d/1", "/d/2", "/e/1", "/d/1/x", "admin", "/d/:id", "/d/*", "/e/:id", "*", "staff", ":any"},
	"regex":  {"alice", "albert", "bob", "admin", "p'^al", "p'^a", "p'b$", "p'ali|bob", "staff"},
	"prefix": {"alice", "albert", "bob", "admin", "al~", "a~", "b~", "staff", "~"},
}

var domPools = map[string][]string{
	"":       {"x", "y", "z", ""},
	"path":   {"x", "/t/1", "/t/2", "/u/1", "/t/:id", "/t/*", "*", "/u/:id"},
	"regex":  {"x", "xy", "y", "p'^x", "p'y$", "p'.*"},
	"prefix": {"x", "xy", "xyz", "y", "x~", "xy~", "~"},
}

func (g *rgen) dom() []string {
	if g.depth == 0 {
		return nil
	}
	res := []string{}
	for i := 0; i < g.depth; i++ {
		res = append(res, pick(g.r, g.domains))
	}
	return res
}

func (g *rgen) link() []string {
	if len(g.used) > 0 && g.r.P(2, 5) {
		return copyRule(pick(g.r, g.used))
	}
	var x []string
	if len(g.used) > 0 && g.r.P(1, 3) {
		y := pick(g.r, g.used)
		switch g.r.N(3) {
		case 0: // extend a chain
			x = append([]string{y[1], pick(g.r, g.names)}, y[2:]...)
		case 1: // another domain
			x = append([]string{y[0], y[1]}, g.dom()...)
		default: // another role
			x = append([]string{y[0], pick(g.r, g.names)}, y[2:]...)
		}
	} else {
		x = append([]string{pick(g.r, g.names), pick(g.r, g.names)}, g.dom()...)
	}
	if x[0] == x[1] && !g.r.P(1, 10) {
		x[1] = pick(g.r, g.names)
	}
	g.used = append(g.used, x)
	return x
}

func (g *rgen) query(kinds ...string) Op {
	r := g.r
	op := Op{K: pick(r, kinds)}
	a, b, dom := pick(r, g.names), pick(r, g.names), g.dom()
	if len(g.used) > 0 && r.P(1, 2) {
		y := pick(r, g.used)
		a = y[0]
		if r.P(1, 2) {
			b = y[1]
			for i := r.N(6); i > 0; i-- { // follow a chain
				for _, j := range permute(r, len(g.used)) {
					if z := g.used[j]; z[0] == b {
						b = z[1]
						break
					}
				}
			}
		}
		if r.P(2, 3) {
			dom = y[2:]
		}
	}
	switch op.K {
	case "has":
		if r.P(1, 20) {
			b = "unknown"
		}
		op.R = append([]string{a, b}, dom...)
	case "roles":
		op.R = append([]string{a}, dom...)
	case "users":
		op.R = append([]string{b}, dom...)
	case "domains":
		op.R = []string{a}
	case "range":
		if r.P(1, 4) {
			op.N = 1 + r.N(3)
		}
	}
	return op
}

// newRoleGen chooses the names, domains and matching functions
func newRoleGen(r *rt.PRNG, c *Case) *rgen {
	g := &rgen{r: r}
	c.Cfg = map[string]int{}
	g.depth = pick(r, []int{0, 0, 1, 1, 2})
	c.Cfg["depth"] = g.depth
	kinds := []string{"", "path", "regex", "prefix"}
	m, dm := pick(r, kinds), pick(r, kinds)
	if r.P(1, 3) {
		dm = ""
	}
	c.Text = map[string]string{"m": m, "dm": dm}
	sample := func(pool []string, n int) []string {
		res := []string{}
		for _, i := range permute(r, len(pool)) {
			if len(res) < n {
				res = append(res, pool[i])
			}
		}
		return res
	}
	g.names = sample(rolePools[m], 3+r.N(6))
	g.domains = sample(domPools[dm], 1+r.N(4))
	if r.P(1, 40) { // long names, which differ only at their end
		l := pick(r, []int{17, 33, 65, 130, 260, 600})
		long := func(names []string, m refMatcher) {
			for i, n := range names {
				if !m.isPattern(n) && (m.kind != "path" || n == "" || n[0] != '/') {
					names[i] = strings.Repeat("n", l) + n
				}
			}
		}
		long(g.names, refMatcher{m})
		if r.P(1, 2) {
			long(g.domains, refMatcher{dm})
		}
	}
	if r.P(1, 10) {
		g.names = confuse(r, g.names, refMatcher{m})
	}
	if g.depth > 0 && r.P(1, 10) {
		g.domains = confuse(r, g.domains, refMatcher{dm})
	}
	return g
}

// confuse adds names, so that different pairs are the same text when they are joined
func confuse(r *rt.PRNG, names []string, m refMatcher) []string {
	sep := pick(r, []string{"$$", "$$", "/", "/", ",", ":", "::", "|", "", ";", "\x00", " ", "-", "_", "#", "."})
	filler := pick(r, []string{"b", "x", "1", "a"})
	var s, p []string
	for _, n := range names {
		if m.isPattern(n) {
			p = append(p, n)
		} else {
			s = append(s, n)
		}
	}
	if len(s) == 0 {
		return names
	}
	if len(p) == 0 {
		p = s
	}
	a, b := pick(r, s), pick(r, p)
	if m.kind == "regex" && m.isPattern(b) {
		filler = "p'" + pick(r, []string{"^x", "b", "l"})
	}
	res := []string{a, b, a + sep + filler, filler + sep + b}
	for _, n := range names {
		if len(res) < 6 {
			res = append(res, n)
		}
	}
	return res
}

func permute(r *rt.PRNG, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (roleWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	c := &Case{Order: r.U64()}
	g := newRoleGen(r, c)
	n := 4 + r.N(26)
	if r.P(1, 40) { // more pairs than the match cache holds
		for i := 0; i < 12; i++ {
			g.names = append(g.names, fmt.Sprintf("/d/%d", i), fmt.Sprintf("al%d", i))
		}
		n = 60
	}
	if r.P(1, 6) { // a chain
		dom := g.dom()
		for i, l := 0, 2+r.N(7); i < l; i++ {
			c.Ops = append(c.Ops, Op{K: "add", R: append([]string{fmt.Sprintf("c%d", i), fmt.Sprintf("c%d", i+1)}, dom...)})
			g.names = append(g.names, fmt.Sprintf("c%d", i))
			g.used = append(g.used, c.Ops[len(c.Ops)-1].R)
		}
		g.names = append(g.names, "c7", "c6")
	}
	if r.P(1, 80) { // many links
		doms := [][]string{g.dom(), g.dom()}
		l, users := 20+r.N(120), 80
		if r.P(1, 8) {
			l, users = roundSize(r, 520), 300
		}
		for i := 0; i < l; i++ {
			x := []string{fmt.Sprintf("u%d", r.N(users)), pick(r, g.names)}
			if r.P(1, 6) {
				x[1] = fmt.Sprintf("u%d", r.N(80))
			}
			c.Ops = append(c.Ops, Op{K: "add", R: append(x, pick(r, doms)...)})
			if r.P(1, 8) {
				g.used = append(g.used, c.Ops[len(c.Ops)-1].R)
			}
		}
		g.names = append(g.names, "u1", "u2", "u3")
	}
	for i := 0; i < n; i++ {
		op := Op{}
		switch k := r.N(30); {
		case k < 10:
			op = Op{K: "add", R: g.link()}
		case k < 15:
			op = Op{K: "del", R: g.link()}
		case k == 15 && r.P(1, 3):
			op = Op{K: "clear"}
		case k == 16 && r.P(1, 2):
			op = Op{K: "setm", S: pick(r, []string{"", c.Text["m"], c.Text["m"], "path"})}
		case k == 17 && g.depth > 0 && r.P(1, 2):
			op = Op{K: "setdm", S: pick(r, []string{"", c.Text["dm"], c.Text["dm"], "path"})}
		default:
			op = g.query("has", "has", "has", "has", "has", "roles", "users", "range", "domains", "alldomains")
		}
		op.B = r.P(1, 4)
		if r.P(1, 2) {
			op.O = 1 + r.U64()%1000000
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// newRoleManager creates the role manager of a case
func newRoleManager(e *Env) (roleManager, *rbac.RolePolicy, *roleRef) {
	var rm roleManager
	if e.C.Cfg["depth"] == 0 {
		rm = rbac.NewRoleManager(10)
	} else {
		rm = rbac.NewDomainManager(10)
	}
	ref := newRoleRef(e.C.Cfg["depth"] > 0)
	ref.m.kind, ref.dm.kind = e.C.Text["m"], e.C.Text["dm"]
	if ref.m.kind != "" {
		rm.SetMatcher(ref.m.lib())
	}
	if ref.dm.kind != "" {
		rm.SetDomainMatcher(ref.dm.lib())
	}
	return rm, rbac.NewRolePolicy(rm), ref
}

func (roleWorld) Run(e *Env) {
	var rm roleManager
	var pol *rbac.RolePolicy
	var ref *roleRef
	e.Call("start", func() { rm, pol, ref = newRoleManager(e) })
	step := func(i int, op Op) {
		var a *roleAnswer
		e.S.SetOrder(op.O)
		e.Call(op.K, func() {
			e.S.SetOrder(op.O)
			a = roleCall(rm, pol, &op)
		})
		e.S.Event("%s %v %d %d %s", op.K, a.ok, len(a.names), len(a.links), failed(a.err))
		if msg := ref.step(&op, a); msg != "" {
			e.Fail("role", "operation %d: %s", i, msg)
		}
		switch op.K {
		case "add", "del", "clear", "setm", "setdm":
			e.State(append(ref.grants.keys(), ref.m.kind, ref.dm.kind)...)
		case "has":
			if a.ok {
				e.Probe("linked")
				if ref.graph(op.R[2:], false).distance(op.R[0], op.R[1]) > 1 {
					e.Probe("linked-transitively")
				}
			} else {
				e.Probe("not-linked")
			}
		}
	}
	for i, op := range e.C.Ops {
		step(i, op)
		switch op.K {
		case "has", "roles", "users", "domains", "alldomains": // queries change nothing
			if i%3 == 0 {
				step(i, Op{K: "range", O: op.O})
			}
		}
	}
	step(len(e.C.Ops), Op{K: "range"})
}
