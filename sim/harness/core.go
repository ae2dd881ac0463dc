package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"zzsim.local/rt"
	"zzsim.local/sos"
)

// Op is one step of a case. Its meaning depends on the world.
type Op struct {
	K  string      `json:"k"`
	R  []string    `json:"r,omitempty"`
	RR [][]string  `json:"rr,omitempty"`
	S  string      `json:"s,omitempty"`
	S2 string      `json:"s2,omitempty"`
	N  int         `json:"n,omitempty"`
	B  bool        `json:"b,omitempty"`
	Th int         `json:"th,omitempty"` // thread
	F  []sos.Fault `json:"f,omitempty"`  // faults
	O  uint64      `json:"o,omitempty"`  // enumeration order of this step
	Q  *Query      `json:"q,omitempty"`
}

// A text which is not valid UTF-8 would be changed by JSON
const hexMark = "\x01hex:"

func escText(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, hexMark) {
		return s
	}
	return hexMark + hex.EncodeToString([]byte(s))
}

func unescText(s string) string {
	if strings.HasPrefix(s, hexMark) {
		if b, err := hex.DecodeString(s[len(hexMark):]); err == nil {
			return string(b)
		}
	}
	return s
}

func (o Op) mapText(f func(string) string) Op {
	list := func(l []string) []string {
		if l == nil {
			return nil
		}
		n := make([]string, len(l))
		for i, s := range l {
			n[i] = f(s)
		}
		return n
	}
	o.S, o.S2, o.R = f(o.S), f(o.S2), list(o.R)
	if o.RR != nil {
		rr := make([][]string, len(o.RR))
		for i, l := range o.RR {
			rr[i] = list(l)
		}
		o.RR = rr
	}
	return o
}

type plainOp Op

func (o Op) MarshalJSON() ([]byte, error) { return json.Marshal(plainOp(o.mapText(escText))) }

func (o *Op) UnmarshalJSON(b []byte) error {
	var p plainOp
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	*o = Op(p).mapText(unescText)
	return nil
}

func (o Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Case is a complete simulated execution: running it is a function of the case
// and the code under test.
type Case struct {
	Prop  string            `json:"prop"`
	World string            `json:"world"`
	Seed  uint64            `json:"seed"`
	Index int               `json:"index"`
	Cfg   map[string]int    `json:"cfg,omitempty"`
	Text  map[string]string `json:"text,omitempty"`
	Rules [][]string        `json:"rules,omitempty"`
	Ops   []Op              `json:"ops"`
	Order uint64            `json:"order,omitempty"`
	Sched rt.Sched          `json:"sched"`
}

type plainCase Case

func (c Case) MarshalJSON() ([]byte, error) {
	p := plainCase(c)
	p.Rules = Op{RR: c.Rules}.mapText(escText).RR
	return json.Marshal(p)
}

func (c *Case) UnmarshalJSON(b []byte) error {
	var p plainCase
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	p.Rules = Op{RR: p.Rules}.mapText(unescText).RR
	*c = Case(p)
	return nil
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	n := &Case{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

// Env is the environment of a running case
type Env struct {
	C         *Case
	S         *rt.Sim
	Disk      *sos.FS
	Probes    map[string]int
	Faults    map[string]int
	States    map[uint64]bool
	crashed   bool // the current operation was ended by a crash
	crashMode string
	post      []func() (string, string) // checks of the recorded history, after the run
	group     int
	limit     int // steps of one operation
}

// Fail reports a violation of the property and ends the run
func (e *Env) Fail(class, format string, args ...interface{}) {
	e.S.Fail(class, fmt.Sprintf(format, args...))
}

// FailFor reports a violation of the listed properties. If the case belongs to
// a check of another property, the run ends without a violation.
func (e *Env) FailFor(props, class, format string, args ...interface{}) {
	if !strings.Contains(props, e.C.Prop) {
		class = "foreign"
	}
	e.Fail(class, format, args...)
}

// Probe counts a rare condition
func (e *Env) Probe(name string) { e.Probes[name]++ }

// Fault counts a fault, which took effect
func (e *Env) Fault(kind string) {
	e.Faults[kind]++
	e.S.Event("fault %s", kind)
}

// State records a state of the reference model (reach measure)
func (e *Env) State(parts ...string) {
	e.States[hashStrings(parts...)] = true
}

func hashStrings(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 1099511628211
		}
		h = (h ^ 0x1ff) * 1099511628211
	}
	return h
}

// Call runs fn as an operation of the simulated process: a task of its own,
// which a crash can end at any point. A panic is a violation.
func (e *Env) Call(name string, fn func()) (crashed bool) {
	e.crashed = false
	e.group++
	g := e.group
	e.S.Event("call %s", name)
	e.S.SetLimit(e.limit)
	t := e.S.Spawn(name, g, fn)
	e.S.Join(t)
	if p, stack := t.Panic(); p != nil {
		e.Fail("panic", "%s panics: %v\n%s", name, p, stack)
	}
	return e.crashed
}

// crash is called by the disk
func (e *Env) crash(power bool, seed int) {
	e.crashed = true
	if power {
		e.crashMode = "power"
	} else {
		e.crashMode = "process"
	}
	d := e.Disk
	d.Faults = nil
	if power {
		d.PowerLoss(seed)
	} else {
		d.ProcessCrash()
	}
	e.S.Kill(e.S.Cur().Group)
}

// World generates and executes cases
type World interface {
	Gen(r *rt.PRNG, prop string, index int) *Case
	Run(e *Env)
}

var worlds = map[string]World{}

type Prop struct {
	ID         string
	World      string
	Quick      int // runs
	Thorough   int
	Rule       string
	Components []string
	Stubs      []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Outcome of a run
type Outcome struct {
	Class, Msg string
	Res        *rt.Result
	Probes     map[string]int
	Faults     map[string]int
	States     map[uint64]bool
	Log        []string
}

func (o *Outcome) failed() bool { return o.Class != "" }

// stepLimit bounds one operation, queries may be nested three times
func stepLimit(rules int) int {
	return 1000000 + 2000*rules*rules + 500*rules*rules*rules
}

func runCase(c *Case, keepLog bool) *Outcome {
	w := worlds[c.World]
	time.Local = time.FixedZone("here", 1800*c.Cfg["zone"]) // a matcher may have dates without a zone
	e := &Env{C: c, Probes: map[string]int{}, Faults: map[string]int{}, States: map[uint64]bool{}, limit: stepLimit(len(c.Rules))}
	s := rt.NewSim(rt.Config{Order: c.Order, Sched: c.Sched})
	s.KeepLog = keepLog
	e.S = s
	e.Disk = sos.NewFS()
	e.Disk.Crash = e.crash
	sos.Disk = e.Disk
	res := s.Run(func(*rt.Sim) { w.Run(e) })
	sos.Disk = nil
	out := &Outcome{Res: res, Probes: e.Probes, Faults: e.Faults, States: e.States, Log: s.Log}
	for k, n := range e.Disk.Fired {
		e.Faults["fs-"+k] += n
	}
	if len(res.Violations) > 0 {
		if res.Violations[0].Class == "foreign" {
			out.Probes["ended-by-violation-of-another-property"]++
			return out
		}
		out.Class, out.Msg = res.Violations[0].Class, res.Violations[0].Msg
		return out
	}
	for _, p := range e.post {
		if class, msg := p(); class != "" {
			out.Class, out.Msg = class, msg
			return out
		}
	}
	return out
}

func genCase(prop string, seed uint64, index int) *Case {
	p := props[prop]
	r := rt.NewPRNG(rt.Mix(seed, hashStrings(prop), uint64(index)))
	c := worlds[p.World].Gen(r, prop, index)
	c.Prop = prop
	c.World = p.World
	c.Seed = seed
	c.Index = index
	return c
}

// ---- small helpers

func pick[T any](r *rt.PRNG, list []T) T { return list[r.N(len(list))] }

func key(rule []string) string {
	var sb strings.Builder
	for _, v := range rule {
		fmt.Fprintf(&sb, "%d:%s|", len(v), v)
	}
	return sb.String()
}

// RuleSet is a set of rules
type RuleSet map[string][]string

func newSet(rules [][]string) RuleSet {
	s := RuleSet{}
	for _, r := range rules {
		s[key(r)] = r
	}
	return s
}

func (s RuleSet) clone() RuleSet {
	c := RuleSet{}
	for k, r := range s {
		c[k] = r
	}
	return c
}

func (s RuleSet) keys() []string {
	res := make([]string, 0, len(s))
	for k := range s {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func (s RuleSet) list() [][]string {
	res := [][]string{}
	for _, k := range s.keys() {
		res = append(res, s[k])
	}
	return res
}

func (s RuleSet) equal(o RuleSet) bool {
	if len(s) != len(o) {
		return false
	}
	for k := range s {
		if _, ok := o[k]; !ok {
			return false
		}
	}
	return true
}

func (s RuleSet) add(r []string) bool {
	k := key(r)
	if _, ok := s[k]; ok {
		return false
	}
	s[k] = r
	return true
}

func (s RuleSet) has(r []string) bool { _, ok := s[key(r)]; return ok }

func (s RuleSet) remove(r []string) bool {
	k := key(r)
	if _, ok := s[k]; !ok {
		return false
	}
	delete(s, k)
	return true
}

func (s RuleSet) String() string {
	res := []string{}
	for _, r := range s.list() {
		v := fmt.Sprintf("%q", r)
		if len(v) > 200 {
			v = v[:200] + "..."
		}
		res = append(res, v)
		if len(res) > 40 {
			res = append(res, "...")
			break
		}
	}
	return "{" + strings.Join(res, " ") + "}"
}

func diff(want, got RuleSet) string {
	missing, extra := RuleSet{}, RuleSet{}
	for k, r := range want {
		if _, ok := got[k]; !ok {
			missing[k] = r
		}
	}
	for k, r := range got {
		if _, ok := want[k]; !ok {
			extra[k] = r
		}
	}
	return fmt.Sprintf("missing %v, unexpected %v", missing, extra)
}

func setOf(list []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range list {
		m[s] = true
	}
	return m
}

func sortedCopy(list []string) []string {
	l := append([]string{}, list...)
	sort.Strings(l)
	return l
}

func uniq(list []string) []string {
	l := sortedCopy(list)
	res := []string{}
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			res = append(res, s)
		}
	}
	return res
}

func copyRule(r []string) []string { return append([]string{}, r...) }

func copyRules(rr [][]string) [][]string {
	res := make([][]string, len(rr))
	for i, r := range rr {
		res[i] = copyRule(r)
	}
	return res
}
