package main

import (
	"fmt"
	"net/netip"
	"path"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Reference evaluator for matchers: a parser and an interpreter of its own,
// which evaluates a matcher for one rule at a time. It shares nothing with the
// library (no stages, no tree of rules, no govaluate).

// outcome of a matcher for one rule: a set, because whether a failing part is
// evaluated at all may depend on the order of evaluation
type mask int

const (
	mF mask = 1
	mT mask = 2
	mE mask = 4
)

func (m mask) String() string {
	s := ""
	for i, c := range "FTE" {
		if m&(1<<i) != 0 {
			s += string(c)
		}
	}
	return s
}

type xnode struct {
	op  string // and or not ? == != < > <= >= in var str num bool call list
	s   string
	n   float64
	b   bool
	arg []*xnode
}

type xtoken struct {
	kind string // id str num op
	s    string
	n    float64
}

func lexExpr(text string) ([]xtoken, error) {
	res := []xtoken{}
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c == ' ':
			i++
		case c == '\'' || c == '"':
			v := ""
			i++
			for i < len(text) && text[i] != c {
				if text[i] == '\\' && i+1 < len(text) {
					i++
				}
				v += string(text[i])
				i++
			}
			if i >= len(text) {
				return nil, fmt.Errorf("open string")
			}
			i++
			res = append(res, xtoken{"str", v, 0})
		case c >= '0' && c <= '9':
			j := i
			for j < len(text) && (text[j] >= '0' && text[j] <= '9' || text[j] == '.') {
				j++
			}
			n, err := strconv.ParseFloat(text[i:j], 64)
			if err != nil {
				return nil, err
			}
			res = append(res, xtoken{"num", text[i:j], n})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(text) && (text[j] == '_' || text[j] == '.' || text[j] >= '0' && text[j] <= '9' || text[j] >= 'a' && text[j] <= 'z' || text[j] >= 'A' && text[j] <= 'Z') {
				j++
			}
			res = append(res, xtoken{"id", text[i:j], 0})
			i = j
		default:
			if i+1 < len(text) {
				switch two := text[i : i+2]; two {
				case "&&", "||", "==", "!=", "<=", ">=", "=~", "!~":
					res = append(res, xtoken{"op", two, 0})
					i += 2
					continue
				}
			}
			if !strings.ContainsRune("()!<>?:,+-*", rune(c)) {
				return nil, fmt.Errorf("unexpected %q", c)
			}
			res = append(res, xtoken{"op", string(c), 0})
			i++
		}
	}
	return res, nil
}

type xparser struct {
	toks []xtoken
	pos  int
}

func parseExpr(text string) (n *xnode, err error) {
	toks, err := lexExpr(text)
	if err != nil {
		return nil, err
	}
	p := &xparser{toks: toks}
	defer func() {
		if r := recover(); r != nil {
			n, err = nil, fmt.Errorf("%v", r)
		}
	}()
	n = p.ternary()
	if p.pos != len(p.toks) {
		return nil, fmt.Errorf("unexpected token %v", p.toks[p.pos])
	}
	return n, nil
}

func (p *xparser) peek(s string) bool {
	return p.pos < len(p.toks) && p.toks[p.pos].s == s && (p.toks[p.pos].kind == "op" || p.toks[p.pos].kind == "id")
}

func (p *xparser) accept(s string) bool {
	if p.peek(s) {
		p.pos++
		return true
	}
	return false
}

func (p *xparser) expect(s string) {
	if !p.accept(s) {
		panic("expected " + s)
	}
}

func (p *xparser) ternary() *xnode {
	c := p.or()
	if p.accept("?") {
		a := p.or()
		p.expect(":")
		b := p.ternary()
		return &xnode{op: "?", arg: []*xnode{c, a, b}}
	}
	return c
}

func (p *xparser) or() *xnode {
	l := p.and()
	for p.accept("||") {
		l = &xnode{op: "or", arg: []*xnode{l, p.and()}}
	}
	return l
}

func (p *xparser) and() *xnode {
	l := p.cmp()
	for p.accept("&&") {
		l = &xnode{op: "and", arg: []*xnode{l, p.cmp()}}
	}
	return l
}

func (p *xparser) cmp() *xnode {
	l := p.sum()
	for _, op := range []string{"==", "!=", "<=", ">=", "<", ">", "in", "=~", "!~"} {
		if p.accept(op) {
			return &xnode{op: op, arg: []*xnode{l, p.sum()}}
		}
	}
	return l
}

// sum has at most one operator, longer sums are not generated
func (p *xparser) sum() *xnode {
	l := p.prefix()
	for _, op := range []string{"+", "-", "*"} {
		if p.accept(op) {
			return &xnode{op: op, arg: []*xnode{l, p.prefix()}}
		}
	}
	return l
}

func (p *xparser) prefix() *xnode {
	if p.accept("!") {
		return &xnode{op: "not", arg: []*xnode{p.prefix()}}
	}
	if p.accept("-") {
		return &xnode{op: "neg", arg: []*xnode{p.prefix()}}
	}
	return p.primary()
}

func (p *xparser) list() []*xnode {
	args := []*xnode{}
	if p.accept(")") {
		return args
	}
	for {
		args = append(args, p.ternary())
		if p.accept(")") {
			return args
		}
		p.expect(",")
	}
}

func (p *xparser) primary() *xnode {
	if p.pos >= len(p.toks) {
		panic("unexpected end")
	}
	t := p.toks[p.pos]
	p.pos++
	switch t.kind {
	case "str":
		if at, ok := dateLit(t.s); ok {
			return &xnode{op: "num", n: at}
		}
		return &xnode{op: "str", s: t.s}
	case "num":
		return &xnode{op: "num", n: t.n}
	case "id":
		if t.s == "true" || t.s == "false" {
			return &xnode{op: "bool", b: t.s == "true"}
		}
		if p.accept("(") {
			return &xnode{op: "call", s: t.s, arg: p.list()}
		}
		return &xnode{op: "var", s: t.s}
	}
	if t.s == "(" {
		l := p.list()
		if len(l) == 1 {
			return l[0]
		}
		return &xnode{op: "list", arg: l}
	}
	panic("unexpected " + t.s)
}

var dateReg = regexp.MustCompile(`^\d{4}-\d\d-\d\d`)

// dateLit is the value of a literal, which is a point in time: a number of
// seconds. Without a time zone it is local time.
func dateLit(s string) (float64, bool) {
	if !dateReg.MatchString(s) {
		return 0, false
	}
	for _, f := range []string{"2006-01-02", "2006-01-02 15:04:05", "2006-01-02 15:04:05-07:00", time.RFC3339, time.RFC3339Nano} {
		if t, err := time.ParseInLocation(f, s, time.Local); err == nil {
			return float64(t.Unix()), true
		}
	}
	return 0, false
}

var varReg = regexp.MustCompile(`^([prg][0-9]*)[._]([A-Za-z0-9]+)(?:\.([A-Za-z]+))?$`)

// policyKey is the policy a matcher is evaluated for
func (n *xnode) policyKey() string {
	k := ""
	n.walk(func(x *xnode) {
		if x.op == "var" && k == "" {
			if g := varReg.FindStringSubmatch(x.s); g != nil && (g[1][0] == 'p' || g[1][0] == 'g') {
				k = g[1]
			}
		}
	})
	if k == "" {
		return "p"
	}
	return k
}

func (n *xnode) walk(fn func(*xnode)) {
	fn(n)
	for _, a := range n.arg {
		a.walk(fn)
	}
}

func (n *xnode) calls(name string) bool {
	found := false
	n.walk(func(x *xnode) {
		if x.op == "call" && x.s == name {
			found = true
		}
	})
	return found
}

// subject is a request value with fields and methods
type subject struct {
	Name string
	Age  float64
}

func (s subject) Older(age float64) bool { return s.Age > age }
func (s subject) Is(name string) bool    { return s.Name == name }
func (s subject) Check(name string) (bool, error) { // a method, which can fail
	if s.Age > 30 {
		return true, fmt.Errorf("check of %s failed", name)
	}
	return s.Name == name, nil
}

// subjectOf returns the fields of a request value
func subjectOf(v interface{}) (subject, bool) {
	switch s := v.(type) {
	case subject:
		return s, true
	case *subject:
		if s != nil {
			return *s, true
		}
	case map[string]interface{}:
		name, _ := s["Name"].(string)
		age, _ := s["Age"].(int)
		return subject{name, float64(age)}, true
	}
	return subject{}, false
}

// xenv is what a matcher is evaluated against
type xenv struct {
	pkey  string
	pargs []string
	rule  []string
	rkey  string
	rargs []string
	rvals []interface{}
	fn    func(name string, args []interface{}) (interface{}, bool) // value, ok
}

func (x *xenv) value(n *xnode) (interface{}, bool) {
	switch n.op {
	case "str":
		return n.s, true
	case "num":
		return n.n, true
	case "bool":
		return n.b, true
	case "list":
		res := []interface{}{}
		for _, a := range n.arg {
			v, ok := x.value(a)
			if !ok {
				return nil, false
			}
			res = append(res, v)
		}
		return res, true
	case "var":
		g := varReg.FindStringSubmatch(n.s)
		if g == nil {
			return nil, false
		}
		var v interface{}
		found := false
		if g[1] == x.pkey {
			for i, a := range x.pargs {
				if a == g[2] && i < len(x.rule) {
					v, found = x.rule[i], true
				}
			}
		} else if g[1] == x.rkey {
			for i, a := range x.rargs {
				if a == g[2] && i < len(x.rvals) {
					v, found = x.rvals[i], true
				}
			}
		}
		if !found {
			return nil, false
		}
		if g[3] == "" {
			if i, ok := v.(int); ok {
				return float64(i), true
			}
			return v, true
		}
		s, ok := subjectOf(v)
		if !ok {
			return nil, false
		}
		switch g[3] {
		case "Name":
			return s.Name, true
		case "Age":
			return s.Age, true
		}
		return nil, false
	case "neg":
		v, _ := x.value(n.arg[0])
		f, ok := v.(float64)
		return -f, ok
	case "+", "-", "*":
		a, ok1 := x.value(n.arg[0])
		b, ok2 := x.value(n.arg[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		_, s1 := a.(string)
		_, s2 := b.(string)
		if n.op == "+" && (s1 || s2) {
			return fmt.Sprintf("%v%v", a, b), true
		}
		f1, ok1 := a.(float64)
		f2, ok2 := b.(float64)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch n.op {
		case "+":
			return f1 + f2, true
		case "-":
			return f1 - f2, true
		}
		return f1 * f2, true
	}
	panic("not a value: " + n.op)
}

// method calls a method of a request value
func (x *xenv) method(g []string, args []interface{}) mask {
	v, ok := x.value(&xnode{op: "var", s: g[1] + "." + g[2]})
	if !ok || len(args) != 1 {
		return mE
	}
	s, ok := subjectOf(v)
	if _, isMap := v.(map[string]interface{}); !ok || isMap {
		return mE
	}
	name, isStr := args[0].(string)
	age, isNum := args[0].(float64)
	switch {
	case g[3] == "Older" && isNum:
		return tf(s.Older(age))
	case g[3] == "Is" && isStr:
		return tf(s.Is(name))
	case g[3] == "Check" && isStr:
		if b, err := s.Check(name); err == nil {
			return tf(b)
		}
	}
	return mE
}

func tf(b bool) mask {
	if b {
		return mT
	}
	return mF
}

// either combines two outcomes; absorbing is the outcome, which decides alone
func either(a, b, absorbing mask) mask {
	res := mask(0)
	for x := mF; x <= mE; x <<= 1 {
		for y := mF; y <= mE; y <<= 1 {
			if a&x == 0 || b&y == 0 {
				continue
			}
			switch {
			case x == absorbing && y == mE, x == mE && y == absorbing:
				res |= absorbing | mE
			case x == mE || y == mE:
				res |= mE
			case x == absorbing || y == absorbing:
				res |= absorbing
			default:
				res |= x
			}
		}
	}
	return res
}

// emptyEval reports whether n evaluates an empty expression
func (x *xenv) emptyEval(n *xnode) bool {
	if n.op != "call" || n.s != "eval" || len(n.arg) != 1 {
		return false
	}
	v, ok := x.value(n.arg[0])
	return ok && v == ""
}

func (x *xenv) eval(n *xnode) mask {
	switch n.op {
	case "and":
		return either(x.eval(n.arg[0]), x.eval(n.arg[1]), mF)
	case "or":
		return either(x.eval(n.arg[0]), x.eval(n.arg[1]), mT)
	case "not":
		m := x.eval(n.arg[0])
		if a := n.arg[0]; m == mF|mE && (a.op == "var" || x.emptyEval(a)) {
			return mE // there is nothing to negate
		}
		r := m & mE
		if m&mT != 0 {
			r |= mF
		}
		if m&mF != 0 {
			r |= mT
		}
		return r
	case "?":
		c := x.eval(n.arg[0])
		r := c & mE
		if c&mT != 0 {
			r |= x.eval(n.arg[1])
		}
		if c&mF != 0 {
			r |= x.eval(n.arg[2])
		}
		return r
	case "==", "!=", "<", ">", "<=", ">=", "in", "=~", "!~":
		a, ok1 := x.value(n.arg[0])
		b, ok2 := x.value(n.arg[1])
		if !ok1 || !ok2 {
			return mE
		}
		switch n.op {
		case "==":
			return tf(reflect.DeepEqual(a, b))
		case "!=":
			return tf(!reflect.DeepEqual(a, b))
		case "=~", "!~":
			as, ok1 := a.(string)
			bs, ok2 := b.(string)
			if !ok1 || !ok2 {
				return mE
			}
			reg, err := regexp.Compile(bs)
			if err != nil {
				return mE
			}
			return tf(reg.MatchString(as) == (n.op == "=~"))
		case "in":
			l, ok := b.([]interface{})
			if !ok {
				return mE
			}
			for _, v := range l {
				if reflect.DeepEqual(v, a) {
					return mT
				}
			}
			return mF
		}
		c := 0
		switch av := a.(type) {
		case string:
			bv, ok := b.(string)
			if !ok {
				return mE
			}
			c = strings.Compare(av, bv)
		case float64:
			bv, ok := b.(float64)
			if !ok {
				return mE
			}
			if av < bv {
				c = -1
			} else if av > bv {
				c = 1
			}
		default:
			return mE
		}
		switch n.op {
		case "<":
			return tf(c < 0)
		case ">":
			return tf(c > 0)
		case "<=":
			return tf(c <= 0)
		default:
			return tf(c >= 0)
		}
	case "call":
		args := []interface{}{}
		for _, a := range n.arg {
			v, ok := x.value(a)
			if !ok {
				return mE
			}
			args = append(args, v)
		}
		if g := varReg.FindStringSubmatch(n.s); g != nil && g[3] != "" {
			return x.method(g, args)
		}
		if n.s == "eval" {
			if len(args) != 1 {
				return mE
			}
			text, ok := args[0].(string)
			if !ok {
				return mE
			}
			if text == "" {
				return mF | mE
			}
			sub, err := parseExpr(text)
			if err != nil {
				return mE
			}
			return x.eval(sub)
		}
		v, ok := x.fn(n.s, args)
		if !ok {
			return mE
		}
		return tf(v.(bool))
	case "bool", "var":
		v, ok := x.value(n)
		if !ok {
			return mE
		}
		b, ok := v.(bool)
		if !ok { // a condition, which is not boolean, does not match
			return mF | mE
		}
		return tf(b)
	}
	panic("not a boolean: " + n.op)
}

// refPathMatch is the meaning of a path pattern: ':name' stands for one
// segment, '*' for one or more segments
func refPathMatch(str, pattern string) bool {
	return segMatch(strings.Split(str, "/"), strings.Split(pattern, "/"), func(seg string) bool {
		return strings.HasPrefix(seg, ":")
	})
}

// refBuiltin is the meaning of the other matching functions. ok is false, if
// an argument is malformed.
func refBuiltin(name, str, pattern string) (res, ok bool) {
	switch name {
	case "pathMatch2":
		return segMatch(strings.Split(str, "/"), strings.Split(pattern, "/"), func(seg string) bool {
			return strings.HasPrefix(seg, "{") && strings.HasSuffix(seg, "}")
		}), true
	case "regexMatch":
		reg, err := regexp.Compile(pattern)
		if err != nil {
			return false, false
		}
		return reg.MatchString(str), true
	case "globMatch":
		res, err := path.Match(pattern, str)
		return res, err == nil
	case "ipMatch":
		ip, err := netip.ParseAddr(str)
		if err != nil {
			return false, false
		}
		if prefix, err := netip.ParsePrefix(pattern); err == nil {
			return prefix.Contains(ip), true
		}
		other, err := netip.ParseAddr(pattern)
		return err == nil && ip == other, err == nil
	}
	panic("unknown function " + name)
}

func segMatch(s, p []string, any func(seg string) bool) bool {
	if len(p) == 0 || len(s) == 0 {
		return len(p) == 0 && len(s) == 0
	}
	switch {
	case p[0] == "*":
		for i := 1; i <= len(s); i++ {
			if segMatch(s[i:], p[1:], any) {
				return true
			}
		}
		return false
	case p[0] == s[0] || any(p[0]):
		return segMatch(s[1:], p[1:], any)
	}
	return false
}
