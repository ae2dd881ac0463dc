package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/abichinger/fastac/model/eft"
	"zzsim.local/rt"
	"zzsim.local/sos"
)

// Generator of the world "decision"

type dgen struct {
	r       *rt.PRNG
	prop    string
	c       *Case
	pargs   map[string][]string
	rargs   map[string][]string
	recent  [][]string
	subdoms bool // g2 has sub-domains
	flat    bool // matchers, whose evaluation can not fail
	ctxs    int
	ctxRD   map[int]string
}

var (
	dSubs  = []string{"alice", "bob", "carol", "r.sub", "a && b"}
	dIPs   = []string{"10.0.0.7", "10.1.2.3", "10.1.0.0/16", "a[", "(b"}
	dRoles = []string{"admin", "staff", "ops", "alice"}
	dObjs  = []string{"d1", "d2", "/d/1", "p.obj", ""}
	dPats  = []string{"/d/:id", "/d/*", "d1", "*"}
	dActs  = []string{"read", "write", "a || b"}
	dDoms  = []string{"x", "y", "x y"}
	dRules = []string{"true", "false", "r.act == 'read'", "r.sub == p.sub", "r.sub != 'alice' && r.obj == p.obj", "g(r.sub, 'admin')", "chk(r.sub, p.sub)", "r.act in ('read', 'write')", "pathMatch(r.obj, '/d/:id')"}
	dBad   = []string{"boom(r.sub)", "r.nope == 'x'", "r.act ==", "", "r.act > 3", "nofn(r.sub)", "p.nope == 'x'"}
	dEfts  = []string{"allow", "allow", "deny", "", "maybe", "Deny"}
	dText  = []string{"==", "", "p.sub ==", "r.sub == p.sub &&", "nofn(r.sub)", "(r.sub == p.sub"} // malformed matchers
	dEffs  = []string{eft.SOME_ALLOW, eft.NO_DENY, eft.SOME_ALLOW_NO_DENY}
)

const badEffect = "some(where(p.eft==deny))"

func (g *dgen) lit(s string) string {
	q := "'"
	if g.r.P(1, 4) {
		q = "\""
	}
	return q + s + q
}

func (g *dgen) spaced(effect string) string {
	switch effect {
	case eft.SOME_ALLOW:
		return "some(where (p.eft == allow))"
	case eft.NO_DENY:
		return "!some(where (p.eft == deny))"
	case eft.SOME_ALLOW_NO_DENY:
		return "some(where (p.eft == allow)) && !some(where (p.eft == deny))"
	}
	return effect
}

func (g *dgen) value(arg string) string {
	r := g.r
	switch arg {
	case "sub":
		if r.P(1, 3) {
			return pick(r, dRoles)
		}
		if !g.flat && r.P(1, 10) {
			return pick(r, dIPs)
		}
		return pick(r, dSubs)
	case "obj":
		if r.P(1, 5) {
			return pick(r, dPats)
		}
		return pick(r, dObjs)
	case "act":
		return pick(r, dActs)
	case "dom":
		return pick(r, dDoms)
	case "eft":
		return pick(r, dEfts)
	case "rule":
		if !g.flat && r.P(1, 5) {
			return pick(r, dBad)
		}
		return pick(r, dRules)
	}
	return pick(r, dSubs)
}

func (g *dgen) rule() []string {
	r := g.r
	if len(g.recent) > 0 && r.P(2, 5) {
		return copyRule(pick(r, g.recent))
	}
	x := g.newRule()
	g.recent = append(g.recent, x)
	return x
}

func (g *dgen) newRule() []string {
	r := g.r
	if len(g.recent) > 0 && r.P(1, 4) { // a similar rule
		x := copyRule(pick(r, g.recent))
		if args := g.pargs[x[0]]; len(x) == len(args)+1 {
			i := r.N(len(args))
			x[i+1] = g.value(args[i])
			return x
		}
	}
	switch r.N(10) {
	case 0, 1:
		return []string{"g", pick(r, append(dSubs[:3:3], dRoles...)), pick(r, dRoles[:3])}
	case 2:
		if _, ok := g.c.Text["g2"]; ok {
			x := []string{"g2", pick(r, append(dSubs[:3:3], dRoles...)), pick(r, dRoles[:3])}
			if r.P(5, 6) {
				x = append(x, pick(r, dDoms))
				if g.subdoms && r.P(3, 4) {
					x = append(x, pick(r, dDoms))
				}
			}
			return x
		}
		fallthrough
	case 3:
		return g.policyRule("p2")
	}
	return g.policyRule("p")
}

func (g *dgen) policyRule(k string) []string {
	x := []string{k}
	for _, a := range g.pargs[k] {
		x = append(x, g.value(a))
	}
	switch {
	case !g.flat && g.r.P(1, 150):
		x = x[:1+g.r.N(len(x))] // several values are missing
	case !g.flat && g.r.P(1, 60), strings.HasSuffix(g.c.Text[k], "eft") && g.r.P(1, 20):
		x = x[:len(x)-1] // a value is missing
	case g.r.P(1, 60):
		x = append(x, g.value("sub")) // a value without name
	}
	return x
}

// path of a name in an expression
func (g *dgen) name(key, arg string) string {
	if g.r.P(1, 12) {
		return key + "_" + arg
	}
	return key + "." + arg
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// builtin calls one of the matching functions of the library
func (g *dgen) builtin(pk, rk string) string {
	r := g.r
	fn := pick(r, []string{"regexMatch", "regexMatch", "ipMatch", "ipMatch", "globMatch", "pathMatch2"})
	arg := g.name(rk, pick(r, g.rargs[rk][:3]))
	pats := map[string][]string{
		"regexMatch": {"^a", "^/d/[0-9]+$", "d[12]", "read|write", "", "b$", "(", "[", "*"},
		"ipMatch":    {"10.0.0.0/8", "10.0.0.7", "::1", "10.1.0.0/16", "10.0.0.300", "x", "10.0.0.0/33"},
		"globMatch":  {"*", "/d/*", "d?", "[a-c]*", "/*/*", "r*d", "[", "a[", "d[1-"},
		"pathMatch2": {"/d/{id}", "/d/*", "*", "/{x}/1", "d1", "{x}", "{", ""},
	}[fn]
	if g.flat && fn != "pathMatch2" {
		pats = pats[:len(pats)-3]
	}
	if fn == "ipMatch" {
		ips := []string{"10.0.0.7", "10.1.2.3", "192.168.0.1", "::1"}
		if g.flat || r.P(1, 2) {
			arg = g.lit(pick(r, ips))
		}
	}
	if !g.flat && fn != "globMatch" && r.P(1, 4) {
		return fmt.Sprintf("%s(%s, %s)", fn, arg, g.name(pk, pick(r, g.pargs[pk])))
	}
	return fmt.Sprintf("%s(%s, %s)", fn, arg, g.lit(pick(r, pats)))
}

// operation uses an operator or a method of a request value
func (g *dgen) operation(pk, rk string) string {
	r := g.r
	pa, ra := g.pargs[pk], g.rargs[rk]
	rv := func() string { return g.name(rk, pick(r, ra[:3])) }
	cmp := func() string { return pick(r, []string{"<", ">", "<=", ">=", "==", "!="}) }
	date := func() string {
		f := pick(r, []string{"1970-01-01T00:00:%02dZ", "1970-01-01 00:00:%02d", "1970-01-01T02:00:%02d+02:00", "1970-01-01 02:00:%02d+02:00", "1970-01-01T00:00:%02d.5Z"})
		return g.lit(fmt.Sprintf(f, 10+r.N(30)))
	}
	n := 14
	if g.flat {
		n = 6
	}
	switch r.N(n) {
	case 0, 1, 2:
		return fmt.Sprintf("%s %s %s", rv(), pick(r, []string{"=~", "=~", "!~"}), g.lit(pick(r, []string{"^a", `^/d/\\d+$`, "d[12]", "read|write", "", `\\w`, `b\"?$`, "1970-01-01x"})))
	case 3:
		return fmt.Sprintf("%s %s %s", rv(), pick(r, []string{"==", "!="}), date())
	case 4:
		return fmt.Sprintf("%s == %s + %s", rv(), g.lit(pick(r, []string{"/d/", "", "d", "a"})), g.lit(pick(r, []string{"1", "read", "lice"})))
	case 5:
		return fmt.Sprintf("%s + %s %s %s", rv(), g.lit(pick(r, []string{"x", "", " && "})), pick(r, []string{"==", "!="}), g.lit(g.value("sub")+"x"))
	case 6:
		return fmt.Sprintf("%s %s %s", rv(), pick(r, []string{"=~", "!~"}), g.name(pk, pick(r, pa)))
	case 7:
		return fmt.Sprintf("%s == %s + %s", rv(), g.lit(pick(r, []string{"/d/", "", "d", "a"})), g.name(pk, pick(r, pa)))
	case 8:
		return fmt.Sprintf("%s.sub.Older(%s)", rk, pick(r, []string{fmt.Sprint(10 + r.N(30)), "10 + 8", "'x'"}))
	case 9:
		return fmt.Sprintf("%s.sub.Is(%s)", rk, g.name(pk, pick(r, pa)))
	case 10:
		return fmt.Sprintf("%s.sub.Check(%s)", rk, g.name(pk, "sub"))
	}
	age := rk + ".sub.Age"
	if has(ra, "age") {
		age = g.name(rk, "age")
	}
	switch r.N(4) {
	case 0:
		return fmt.Sprintf("%s %s %s", age, cmp(), date())
	case 1:
		return fmt.Sprintf("%s %s %d %s %d", age, pick(r, []string{"+", "-", "*"}), 1+r.N(3), cmp(), 10+r.N(30))
	case 2:
		return fmt.Sprintf("-%s %s -%d", age, cmp(), 10+r.N(30))
	default:
		return fmt.Sprintf("%s %s %s.Age", age, cmp(), g.name(rk, "sub"))
	}
}

// atom is a part of a matcher without logical operators
func (g *dgen) atom(pk, rk string) string {
	r := g.r
	pa, ra := g.pargs[pk], g.rargs[rk]
	rv := func() string { return pick(r, ra[:3]) }
	common := []string{}
	for _, a := range ra {
		if has(pa, a) {
			common = append(common, a)
		}
	}
	eq := func() string {
		if len(common) == 0 {
			return g.name(rk, rv()) + " == " + g.lit(pick(r, dActs))
		}
		a := pick(r, common)
		return g.name(rk, a) + " == " + g.name(pk, a)
	}
	n := 22
	if g.flat {
		n = 17
	}
	if r.P(1, 10) {
		return g.builtin(pk, rk)
	}
	if r.P(1, 10) {
		s := g.operation(pk, rk)
		if strings.Contains(s, "1970-01-01") || strings.Contains(s, ".sub.") {
			return "(" + s + ")" // govaluate does not parse "? r.sub.Is('x') : ..."
		}
		return s
	}
	switch r.N(n) {
	case 0, 1, 2, 3:
		return eq()
	case 4, 5:
		return fmt.Sprintf("g(%s, %s)", g.name(rk, "sub"), g.name(pk, "sub"))
	case 6:
		a := pick(r, pa)
		v := g.value(a)
		if strings.ContainsAny(v, "'\"") {
			v = "x"
		}
		return fmt.Sprintf("%s %s %s", g.name(pk, a), pick(r, []string{"==", "!=", "=="}), g.lit(v))
	case 7:
		a := rv()
		return fmt.Sprintf("%s %s %s", g.name(rk, a), pick(r, []string{"==", "!="}), g.lit(g.value(a)))
	case 8:
		if has(pa, "obj") {
			return fmt.Sprintf("pathMatch(%s, %s)", g.name(rk, "obj"), g.name(pk, "obj"))
		}
		return eq()
	case 9:
		a := rv()
		l := []string{g.lit(g.value(a)), g.lit(g.value(a))}
		if r.P(1, 3) && has(pa, a) {
			l = append(l, g.name(pk, a))
		}
		return fmt.Sprintf("%s in (%s)", g.name(rk, a), strings.Join(l, ", "))
	case 10:
		return fmt.Sprintf("g(%s, %s)", g.name(rk, "sub"), g.lit(pick(r, dRoles)))
	case 11:
		if _, ok := g.c.Text["g2"]; ok && has(ra, "dom") {
			d := g.name(rk, "dom")
			if has(pa, "dom") && r.P(1, 3) {
				d = g.name(pk, "dom")
			}
			if g.subdoms && r.P(1, 2) {
				d += ", " + g.lit(pick(r, dDoms))
			}
			return fmt.Sprintf("g2(%s, %s, %s)", g.name(rk, "sub"), g.name(pk, "sub"), d)
		}
		return eq()
	case 12:
		if has(pa, "rule") {
			return fmt.Sprintf("eval(%s)", g.name(pk, "rule"))
		}
		return eq()
	case 13:
		return fmt.Sprintf("%s %s %s", g.name(pk, "sub"), pick(r, []string{"<", ">", "<=", ">="}), g.lit("b"))
	case 14:
		return pick(r, []string{"true", "false"})
	case 15:
		if g.prop == "C12" || r.P(1, 3) {
			return fmt.Sprintf("nest(%s)", g.name(rk, "sub"))
		}
		return fmt.Sprintf("chk(%s, %s)", g.name(rk, "sub"), g.name(pk, "sub"))
	case 16:
		return fmt.Sprintf("chk(%s, %s)", g.name(rk, rv()), g.name(pk, pick(r, pa)))
	case 17:
		if has(ra, "age") {
			return fmt.Sprintf("%s %s %d", g.name(rk, "age"), pick(r, []string{"<", ">", "<=", ">=", "=="}), 10+r.N(30))
		}
		return fmt.Sprintf("%s.Age > %d", g.name(rk, "sub"), 10+r.N(30))
	case 18:
		return fmt.Sprintf("%s.Name == %s", g.name(rk, "sub"), g.name(pk, "sub"))
	case 19:
		if has(ra, "flag") {
			return g.name(rk, "flag")
		}
		return eq()
	case 20:
		if r.P(1, 3) { // the wrong number or type of arguments
			return pick(r, []string{"pathMatch(%[1]s.sub)", "globMatch(%[1]s.sub, %[2]s.sub, 'x')", "globMatch('x', 1)", "regexMatch()", "regexMatch(%[1]s.sub, 'a', 'a')", "pathMatch2(3, '*')", "ipMatch(10, '10.0.0.7')", "g(%[1]s.sub)", "g()", "g(%[1]s.sub, 3)", "g(%[1]s.sub, %[1]s.sub, true)", "eval(%[2]s.sub, 'true')", "eval()", "eval(true)", "eval(3)"})
		}
		return pick(r, []string{"boom(%[1]s.sub)", "%[1]s.nope == 'x'", "boom(%[2]s.sub)", "%[2]s.nope == 'x'", "chk(%[1]s.sub)"})
	default:
		if has(pa, "rule") {
			return fmt.Sprintf("eval(%s)", g.name(pk, "rule"))
		}
		return fmt.Sprintf("chk(%s, %s)", g.name(rk, "sub"), g.name(pk, "sub"))
	}
}

func (g *dgen) expr(pk, rk string, depth int) string {
	r := g.r
	if depth <= 0 || r.P(1, 5) {
		a := g.atom(pk, rk)
		if strings.Contains(a, "%[") {
			a = strings.NewReplacer("%[1]s", rk, "%[2]s", pk).Replace(a)
		}
		if r.P(1, 10) {
			if strings.HasPrefix(a, "g(") || strings.HasPrefix(a, "chk(") {
				return "!" + a
			}
			return "!(" + a + ")"
		}
		if r.P(1, 12) {
			return "(" + a + ")"
		}
		return a
	}
	sub := func(or bool) string { // operand of && (or ||)
		s := g.expr(pk, rk, depth-1)
		if !or && topLevel(s, "||") || topLevel(s, "?") || r.P(1, 8) {
			return "(" + s + ")"
		}
		return s
	}
	switch r.N(12) {
	case 0, 1, 2, 3, 4, 5:
		l := []string{sub(false), sub(false)}
		for r.P(1, 3) && len(l) < 4 {
			l = append(l, sub(false))
		}
		return strings.Join(l, " && ")
	case 6, 7, 8, 9:
		l := []string{sub(true), sub(true)}
		for r.P(1, 4) && len(l) < 4 {
			l = append(l, sub(true))
		}
		return strings.Join(l, " || ")
	case 10:
		return "!(" + g.expr(pk, rk, depth-1) + ")"
	default:
		o := func() string {
			s := g.expr(pk, rk, depth-1)
			if topLevel(s, "?") || r.P(1, 2) && (topLevel(s, "||") || topLevel(s, "&&")) {
				return "(" + s + ")"
			}
			return s
		}
		return fmt.Sprintf("%s ? %s : %s", o(), o(), o())
	}
}

// topLevel reports whether an operator occurs outside of brackets and literals
func topLevel(s, op string) bool {
	depth := 0
	quote := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case quote != 0:
			if c == '\\' {
				i++
			} else if c == quote {
				quote = 0
			}
		case c == '\'' || c == '"':
			quote = c
		case c == '(':
			depth++
		case c == ')':
			depth--
		case depth == 0 && strings.HasPrefix(s[i:], op):
			return true
		}
	}
	return false
}

// matcher returns a matcher, which parses
func (g *dgen) matcher(rk string) string {
	r := g.r
	pk := "p"
	if r.P(1, 6) {
		pk = "p2"
	}
	for {
		t := g.expr(pk, rk, 1+r.N(3))
		if r.P(1, 6) { // the usual form
			t = fmt.Sprintf("g(%s.sub, %s.sub) && %s.act == %s.act && %s", rk, pk, rk, pk, g.expr(pk, rk, 1))
			if topLevel(t, "||") || topLevel(t, "?") {
				continue
			}
		}
		ast, err := parseExpr(t)
		if err != nil {
			panic(fmt.Sprintf("harness: generated matcher %q: %v", t, err))
		}
		if len(t) < 300 && ast.policyKey()[0] == 'p' {
			return t
		}
	}
}

func (g *dgen) request(rk string) []string {
	r := g.r
	args := g.rargs[rk]
	vals := map[string]string{}
	// values of a rule
	if len(g.recent) > 0 && r.P(3, 4) {
		x := pick(r, g.recent)
		for i, a := range g.pargs[x[0]] {
			if i+1 < len(x) {
				vals[a] = x[i+1]
			}
		}
		if v, ok := vals["sub"]; ok && r.P(1, 2) { // a user of that role
			for _, y := range g.recent {
				if y[0][0] == 'g' && y[2] == v {
					vals["sub"] = y[1]
				}
			}
		}
	}
	res := []string{}
	for _, a := range args {
		var v interface{}
		switch a {
		case "age":
			v = float64(10 + r.N(30))
		case "flag":
			v = r.P(1, 2)
		default:
			if s, ok := vals[a]; ok && r.P(5, 6) {
				v = s
			} else {
				v = g.value(a)
			}
		}
		if !g.flat {
			if a == "sub" && r.P(1, 10) {
				s := subject{pick(r, dSubs), float64(10 + r.N(30))}
				v = s
				switch r.N(4) {
				case 0:
					v = &s
				case 1:
					v = map[string]interface{}{"Name": s.Name, "Age": int(s.Age)}
				}
			} else if a == "age" && r.P(1, 3) {
				v = int(v.(float64))
			} else if r.P(1, 30) {
				v = pick(r, []interface{}{1.5, true, "x", subject{"alice", 20}, 3, (*subject)(nil), &subject{"bob", 20}})
				if a != "flag" && r.P(1, 5) {
					v = nil
				}
			}
		}
		res = append(res, encode(v))
	}
	if !g.flat && r.P(1, 20) {
		res = res[:r.N(len(res))]
	}
	return res
}

func (g *dgen) effectRef() string {
	r := g.r
	switch r.N(8) {
	case 0:
		return "e2"
	case 1:
		return pick(r, dEffs)
	case 2:
		return "obj:" + pick(r, dEffs)
	case 3:
		return "def:" + g.spaced(pick(r, dEffs))
	}
	return ""
}

func (g *dgen) query(depth int) *Query {
	r := g.r
	q := &Query{}
	kinds := []string{"enforce", "enforce", "enforce", "enforce", "enforce", "filter", "filter", "range", "rules", "haslink", "getroles", "getusers"}
	switch g.prop {
	case "C10":
		kinds = kinds[:8]
	case "C09":
		kinds = append(kinds[:7:7], "filter", "filter")
	case "C12":
		kinds = append(kinds, "range", "range", "rules", "prange", "rmrange", "rmrange")
	}
	q.Kind = pick(r, kinds)
	gKey := func() string {
		if _, ok := g.c.Text["g2"]; ok && r.P(1, 2) {
			return "g2"
		}
		return "g"
	}
	name := func() string { return pick(r, append(dSubs[:3:3], dRoles...)) }
	switch q.Kind {
	case "haslink", "getroles", "getusers":
		q.M = gKey()
		q.V = []string{name()}
		if q.Kind == "haslink" {
			q.V = append(q.V, name())
		}
		if q.M == "g2" && r.P(5, 6) {
			q.V = append(q.V, pick(r, append(dDoms[:3:3], "unknown")))
			if g.subdoms && r.P(3, 4) {
				q.V = append(q.V, pick(r, dDoms))
			}
		}
		return q
	case "rules", "prange", "rmrange":
		switch q.Kind {
		case "prange":
			q.M = pick(r, []string{"p", "p2", gKey()})
		case "rmrange":
			q.M = gKey()
		}
		if r.P(2, 3) {
			q.Stop = 1 + r.N(4)
		}
		g.nest(q, depth)
		return q
	}
	rk := "r"
	switch r.N(10) {
	case 0, 1, 2, 3:
	case 4:
		q.M = "m2"
		q.RD = "r2"
	case 5:
		if q.Kind == "enforce" {
			q.M = "m2"
			q.RD = "r2"
		} else {
			q.M = "m3"
		}
	case 6, 7:
		if r.P(1, 4) {
			q.RD = "r2"
			rk = "r2"
		}
		q.M = "=" + g.matcher(rk)
		if q.Kind != "enforce" && r.P(1, 3) {
			q.M = "=" + g.gMatcher()
		}
	case 8:
		q.M = pick(r, []string{"d0", "d1"})
	case 9:
		if g.ctxs > 0 {
			q.Ctx = 1 + r.N(g.ctxs)
			if g.ctxRD[q.Ctx] != "" {
				rk = g.ctxRD[q.Ctx]
			}
		}
	}
	if q.RD == "r2" {
		rk = "r2"
	}
	if q.Kind == "enforce" && q.Ctx == 0 {
		q.E = g.effectRef()
	}
	q.V = g.request(rk)
	if r.P(1, 4) {
		q.Obj = r.N(8)
	}
	if q.Kind == "range" && r.P(2, 3) {
		q.Stop = 1 + r.N(4)
	}
	g.nest(q, depth)
	if g.prop == "C10" && r.P(1, 2) {
		g.breakQuery(q)
	}
	return q
}

// gMatcher is a matcher over grouping rules
func (g *dgen) gMatcher() string {
	r := g.r
	k := "g"
	if _, ok := g.c.Text["g2"]; ok && r.P(1, 2) {
		k = "g2"
	}
	a := func() string {
		switch r.N(6) {
		case 0:
			return k + ".user == r.sub"
		case 1:
			return k + ".role == " + g.lit(pick(r, dRoles))
		case 2:
			return k + ".user == " + g.lit(pick(r, dSubs))
		case 3:
			return k + ".role != " + g.lit(pick(r, dRoles))
		case 4:
			if k == "g2" {
				return "g2.domain == " + g.lit(pick(r, dDoms))
			}
			return "g.user != r.sub"
		default:
			return "g(r.sub, " + k + ".role)"
		}
	}
	t := a()
	for r.P(1, 2) && len(t) < 120 {
		t += pick(r, []string{" && ", " || "}) + a()
	}
	return t
}

func (g *dgen) nest(q *Query, depth int) {
	r := g.r
	if g.prop != "C12" || depth <= 0 || r.P(1, 3) {
		return
	}
	q.Nest = g.query(depth - 1)
	switch q.Kind {
	case "enforce", "filter":
		q.At = 0
	case "range":
		q.At = r.N(4)
	default:
		q.At = 1 + r.N(3)
	}
}

// breakQuery lets the evaluation of a query fail
func (g *dgen) breakQuery(q *Query) {
	r := g.r
	switch r.N(10) {
	case 0, 1, 2:
		q.Fail, q.N = "chk", 1+r.N(4)
	case 3, 4, 5:
		q.Fail, q.N = "rm", 1+r.N(4)
	case 6:
		if q.Kind == "enforce" && q.Ctx == 0 {
			q.E = "obj:" + pick(r, dEffs)
			q.Fail, q.N = "eff", 1+r.N(3)
		}
	case 7:
		if q.Kind == "enforce" && q.Ctx == 0 {
			q.E = pick(r, []string{badEffect, "def:" + badEffect, "obj:" + badEffect})
		}
	case 8:
		if q.Ctx == 0 {
			q.M = "=" + pick(r, dText[2:])
			if r.P(1, 3) {
				q.M = "f" + pick(r, []string{"onlythere(r.sub, p.sub)", "onlythere(r.sub) && p.act == p.act", "(onlythere(p.sub) || p.act == 'none') && r.sub == r.sub"})
			}
		}
	case 9:
		if len(q.V) > 0 {
			q.V = q.V[:r.N(len(q.V))]
		}
	}
}

func newGen(r *rt.PRNG, prop string, failing int) *dgen {
	c := &Case{Cfg: map[string]int{}, Text: map[string]string{}}
	g := &dgen{r: r, prop: prop, c: c, pargs: map[string][]string{}, rargs: map[string][]string{}, ctxRD: map[int]string{}}
	g.flat = !r.P(failing, 10)
	c.Order = r.U64()
	t := c.Text
	t["p"] = pick(r, []string{"sub, obj, act", "sub, obj, act, eft", "sub, obj, act, eft", "eft, sub, obj, act", "sub, obj, act, rule", "sub, obj, act, rule, eft", "sub, dom, obj, act", "sub, dom, obj, act, eft"})
	t["p2"] = pick(r, []string{"act, sub", "sub, act, eft", "sub, act"})
	t["r"] = pick(r, []string{"sub, obj, act", "sub, obj, act", "sub, obj, act, dom", "sub, obj, act, dom, age, flag", "sub, obj, act, age"})
	t["r2"] = "act, sub, obj"
	t["g"] = "_, _"
	if r.P(1, 2) {
		t["g2"] = "_, _, _"
		if r.P(1, 4) {
			t["g2"] = "_, _, _, _"
			g.subdoms = true
		}
	}
	for _, k := range []string{"p", "p2"} {
		g.pargs[k] = splitArgs(t[k])
	}
	for _, k := range []string{"r", "r2"} {
		g.rargs[k] = splitArgs(t[k])
	}
	t["e"] = g.spaced(pick(r, dEffs))
	t["e2"] = g.spaced(pick(r, dEffs))
	t["m"] = g.matcher("r")
	t["m2"] = g.matcher("r2")
	t["m3"] = g.gMatcher()
	t["d0"] = g.matcher("r")
	t["d1"] = g.matcher("r")
	c.Cfg["kind"] = r.N(3)
	c.Cfg["autosave"] = r.N(2)
	c.Cfg["wrap"] = 0
	if r.P(1, 4) {
		c.Cfg["zone"] = 4 * (r.N(3) - 1) // two hours: see operation
		if r.P(1, 2) {
			c.Cfg["zone"] = r.N(53) - 24
		}
	}
	if prop == "C11" && r.P(1, 2) || r.P(1, 5) {
		c.Cfg["pat"] = 1
	}
	for i := r.N(10); i > 0; i-- {
		c.Rules = append(c.Rules, g.rule())
	}
	if r.P(1, 80) && prop != "C17" { // a large policy
		max := 120
		if prop == "C12" || prop == "C17" { // queries are nested, or fail at many points
			max = 15
		}
		i := 20 + r.N(max)
		if max > 15 && r.P(1, 8) {
			i = roundSize(r, 520)
		}
		for ; i > 0; i-- {
			x := g.newRule()
			if j := 1 + r.N(len(x)); j < len(x) && x[0][0] == 'p' && len(g.pargs[x[0]]) >= j && g.pargs[x[0]][j-1] == "sub" || x[0][0] == 'g' && j == 1 {
				x[j] = fmt.Sprintf("u%d", r.N(60))
			}
			c.Rules = append(c.Rules, x)
			if r.P(1, 8) {
				g.recent = append(g.recent, x)
			}
		}
	}
	return g
}

func (decisionWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	failing := map[string]int{"C08": 2, "C09": 1, "C10": 8, "C12": 1}[prop]
	g := newGen(r, prop, failing)
	c := g.c
	if prop == "C10" {
		c.Cfg["wrap"] = r.N(2)
	}
	if (prop == "C08" || prop == "C12") && r.P(1, 3) {
		c.Cfg["listen"] = 1
	}
	n := 4 + r.N(14)
	if prop == "C08" && r.P(1, 15) {
		n = 40 + r.N(40)
	}
	qw := map[string]int{"C08": 9, "C09": 9, "C10": 16, "C12": 16}[prop]
	names := []string{}
	for i := 0; i < qw; i++ {
		names = append(names, "q")
	}
	names = append(names, "add", "add", "add", "add", "remove", "remove", "remove", "adds", "removes", "padd", "premove", "ctx")
	if prop == "C08" {
		names = append(names, "clear", "pclear", "load", "load", "flush", "save", "restart", "setm", "sete", "setfn", "ctxdel", "remove", "remove", "add", "ctx")
	} else if r.P(1, 3) {
		names = append(names, "clear", "load", "setm", "sete")
	}
	for i := 0; i < n; i++ {
		op := Op{K: pick(r, names)}
		if r.P(2, 3) {
			op.O = 1 + r.U64()%1000000
		}
		switch op.K {
		case "q":
			op.Q = g.query(2)
		case "add", "remove":
			op.R = g.rule()
			if r.P(1, 40) {
				op.R = pick(r, [][]string{{}, {"x", "y"}, {"g", "a"}, {""}, {"p9", "x"}})
			}
			if c.Cfg["listen"] == 1 && r.P(1, 3) {
				op.Q = g.query(1)
			}
		case "padd", "premove":
			op.R = g.rule()
		case "adds", "removes":
			for j := r.N(5); j > 0; j-- {
				op.RR = append(op.RR, g.rule())
			}
		case "clear", "pclear":
			op.S = pick(r, []string{"p", "p", "p2", "g"})
		case "setm":
			op.S = "m"
			op.S2 = g.matcher("r")
			if r.P(1, 10) {
				op.S2 = pick(r, dText[2:])
			}
			if r.P(1, 5) {
				op.S, op.S2 = "m2", g.matcher("r2")
			}
		case "sete":
			op.S = pick(r, []string{"e", "e2"})
			op.S2 = pick(r, dEffs)
			op.B = r.P(1, 3)
		case "setfn":
			op.B = r.P(1, 2)
		case "ctx":
			if g.ctxs < 3 {
				g.ctxs++
			}
			op.N = g.ctxs
			q := &Query{}
			switch r.N(4) {
			case 0:
				q.M = "=" + g.matcher("r")
			case 1:
				q.M = pick(r, []string{"d0", "d1"})
			case 2:
				q.M, q.RD = "m2", "r2"
			}
			q.E = g.effectRef()
			if r.P(1, 3) {
				q.Obj = r.N(8)
			}
			op.Q = q
			g.ctxRD[op.N] = q.RD
		case "ctxdel":
			op.N = 1 + r.N(3)
		}
		switch op.K {
		case "add", "remove", "adds", "removes", "flush", "save", "load":
			if r.P(1, 6) {
				k := "reject"
				if op.K == "load" {
					k = "load-fail"
				}
				op.F = []sos.Fault{{N: r.N(4), Kind: k}}
			}
		}
		c.Ops = append(c.Ops, op)
	}
	if prop == "C12" && r.P(1, 100) { // enumerations of many rules, which stop late
		g.manyMatches()
	}
	if r.P(1, 25) {
		g.rename()
	}
	return c
}

func (g *dgen) manyMatches() {
	r, c := g.r, g.c
	size := roundSize(r, 520)
	for i := 0; i < size; i++ {
		k := "p"
		if r.P(1, 3) {
			k = pick(r, []string{"p", "p2", "g"})
		}
		x := []string{k, fmt.Sprintf("u%d", i), pick(r, dRoles)}
		if k != "g" {
			x = g.policyRule(k)
			for j, a := range g.pargs[k] {
				if a == "sub" && j+1 < len(x) {
					x[j+1] = fmt.Sprintf("u%d", i)
				}
			}
		}
		c.Rules = append(c.Rules, x)
	}
	c.Ops = nil
	for i := 2 + r.N(5); i > 0; i-- {
		q := &Query{Kind: pick(r, []string{"rules", "prange", "rmrange", "range"})}
		switch q.Kind {
		case "prange":
			q.M = pick(r, []string{"p", "p", "p2", "g"})
		case "rmrange":
			q.M = "g"
		case "range":
			q.M = pick(r, []string{"=p.act == p.act", "=p.sub != 'u1' || p.act == 'read'", "=g.user != g.role"})
			q.V = g.request("r")
		}
		if r.P(3, 4) {
			q.Stop = pick(r, []int{1 + r.N(4), 1 + r.N(size), roundSize(r, 520)})
		}
		if r.P(1, 3) {
			g.nest(q, 1)
			if q.Nest != nil && q.At > 0 && r.P(1, 2) {
				q.At = 1 + r.N(size)
			}
		}
		op := Op{K: "q", Q: q}
		if r.P(2, 3) {
			op.O = 1 + r.U64()%1000000
		}
		c.Ops = append(c.Ops, op)
		if r.P(1, 3) {
			c.Ops = append(c.Ops, Op{K: "removes", RR: [][]string{pick(r, c.Rules), pick(r, c.Rules)}})
		}
	}
}

// rename replaces values everywhere by long ones, which differ only in their last
// characters, or by ones, of which neighbours are the same text when they are joined
func (g *dgen) rename() {
	r := g.r
	m := map[string]string{}
	if r.P(1, 2) {
		l := pick(r, []int{17, 33, 65, 130, 260, 600})
		for i, v := range []string{"alice", "bob", "carol", "admin", "staff", "d1", "d2", "read", "write"} {
			m[v] = strings.Repeat("n", l) + fmt.Sprint(i)
		}
	} else {
		sep := pick(r, []string{" ", " ", ",", ", ", "/", "|", ":", "::", ";", "-", "_", "", "$$", "#", "."})
		m["alice"], m["bob"] = "a", "a"+sep+"b"
		m["admin"], m["staff"] = "b"+sep+"c", "c"
		m["d1"], m["d2"] = "b"+sep+"c", "c"
		m["x"], m["y"] = "c", "c"+sep+"read"
	}
	names := []string{}
	for v := range m {
		names = append(names, v)
	}
	sort.Strings(names)
	pairs := []string{}
	for _, v := range names {
		pairs = append(pairs, "'"+v+"'", "'"+m[v]+"'", "\""+v+"\"", "\""+m[v]+"\"")
	}
	text := strings.NewReplacer(pairs...)
	values := func(x []string, first int, prefix string) {
		for i := first; i < len(x); i++ {
			if v, ok := m[strings.TrimPrefix(x[i], prefix)]; ok && strings.HasPrefix(x[i], prefix) {
				x[i] = prefix + v
			} else {
				x[i] = text.Replace(x[i])
			}
		}
	}
	rule := func(x []string) []string {
		x = copyRule(x)
		values(x, 1, "")
		return x
	}
	var query func(q *Query)
	query = func(q *Query) {
		if q == nil {
			return
		}
		switch q.Kind {
		case "haslink", "getroles", "getusers":
			values(q.V, 0, "")
		default:
			values(q.V, 0, "s:")
		}
		q.M = text.Replace(q.M)
		query(q.Nest)
	}
	c := g.c
	for k, v := range c.Text {
		c.Text[k] = text.Replace(v)
	}
	for i := range c.Rules {
		c.Rules[i] = rule(c.Rules[i])
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		if len(op.R) > 0 {
			op.R = rule(op.R)
		}
		for j := range op.RR {
			op.RR[j] = rule(op.RR[j])
		}
		op.S2 = text.Replace(op.S2)
		query(op.Q)
	}
}
