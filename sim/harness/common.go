package main

import (
	"errors"
	"fmt"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage/adapter"
	"zzsim.local/rt"
	"zzsim.local/sos"
)

const rbacModel = `
[request_definition]
r = sub, obj, act
[policy_definition]
p = sub, obj, act
p2 = sub, act
[role_definition]
g = _, _
[policy_effect]
e = some(where (p.eft == allow))
[matchers]
m = g(r.sub, p.sub) && r.obj == p.obj && r.act == p.act
`

func newModel(text string) *model.Model {
	m := model.NewModel()
	if err := m.LoadModelFromText(text); err != nil {
		panic(fmt.Sprintf("harness: model: %v\n%s", err, text))
	}
	return m
}

// rulesOf enumerates the rules of a model
func rulesOf(m api.IRangeRules) [][]string {
	res := [][]string{}
	m.RangeRules(func(rule []string) bool {
		res = append(res, rule) // the receiver may keep the rules
		return true
	})
	return copyRules(res)
}

// rbacDecide is the reference of rbacModel
func rbacDecide(mem RuleSet, sub, obj, act string) bool {
	reach := map[string]bool{sub: true}
	for changed := true; changed; {
		changed = false
		for _, r := range mem {
			if r[0] == "g" && reach[r[1]] && !reach[r[2]] {
				reach[r[2]] = true
				changed = true
			}
		}
	}
	n := 0
	for _, r := range mem {
		if r[0] != "p" {
			continue
		}
		n++
		if reach[r[1]] && r[2] == obj && r[3] == act {
			return true
		}
	}
	if n == 0 { // evaluated once against a rule of empty values
		return reach[""] && obj == "" && act == ""
	}
	return false
}

// change is a rule change, which has been tracked
type change struct {
	add  bool
	rule []string
}

func (c change) String() string {
	if c.add {
		return fmt.Sprintf("+%q", c.rule)
	}
	return fmt.Sprintf("-%q", c.rule)
}

func (c change) equal(o change) bool { return c.add == o.add && key(c.rule) == key(o.rule) }

func apply(base RuleSet, q []change) RuleSet {
	s := base.clone()
	for _, c := range q {
		if c.add {
			s.add(c.rule)
		} else {
			s.remove(c.rule)
		}
	}
	return s
}

// ---- in-memory storage

var errRejected = errors.New("storage: rejected")

// memStore is a storage back end, whose failures the simulator controls.
// A call it rejects has no effect.
type memStore struct {
	e      *Env
	rules  [][]string
	log    []change // accepted changes, in order
	saves  int
	writes int // write calls of the current operation
	loads  int
	faults []sos.Fault
	fired  bool
	silent bool // has been replaced, must not be used any more
}

func (s *memStore) begin(faults []sos.Fault) {
	s.writes, s.loads, s.faults, s.fired = 0, 0, faults, false
}

func (s *memStore) set() RuleSet { return newSet(s.rules) }

func (s *memStore) fault(kinds string, n int) (sos.Fault, bool) {
	for _, f := range s.faults {
		if f.N == n && (f.Kind == kinds || f.Kind == "crash" && kinds == "reject" || f.Kind == "crash-after" && kinds == "reject") {
			return f, true
		}
	}
	return sos.Fault{}, false
}

// write applies changes as one call
func (s *memStore) write(cs []change) error {
	if rt.Dead() {
		return nil
	}
	rt.Y(-1) // the call takes time
	n := s.writes
	s.writes++
	f, ok := s.fault("reject", n)
	if ok {
		switch f.Kind {
		case "reject":
			s.fired = true
			s.e.Fault("storage-reject")
			return errRejected
		case "crash":
			s.e.Fault("crash-before-storage-write")
			s.e.crash(false, 0)
		}
	}
	for _, c := range cs {
		c.rule = copyRule(c.rule)
		s.log = append(s.log, c)
		s.e.S.Event("storage %v", c)
		s.rules = apply2(s.rules, c)
	}
	if ok && f.Kind == "crash-after" {
		s.e.Fault("crash-after-storage-write")
		s.e.crash(false, 0)
	}
	return nil
}

// apply2 applies a change to a list
func apply2(rules [][]string, c change) [][]string {
	k := key(c.rule)
	res := [][]string{}
	found := false
	for _, r := range rules {
		if key(r) == k {
			found = true
			if !c.add {
				continue
			}
		}
		res = append(res, r)
	}
	if c.add && !found {
		res = append(res, c.rule)
	}
	return res
}

func (s *memStore) load(m api.IAddRuleBool) error {
	rt.Y(-1)
	for i, r := range s.rules {
		if _, ok := s.fault("load-fail", i); ok {
			s.fired = true
			s.e.Fault("storage-load-fails")
			return errRejected
		}
		arg := copyRule(r)
		if _, err := m.AddRule(arg); err != nil {
			return err
		}
		scribble(arg) // the storage may reuse its slice
	}
	if _, ok := s.fault("load-fail", len(s.rules)); ok {
		s.fired = true
		s.e.Fault("storage-load-fails")
		return errRejected
	}
	return nil
}

func (s *memStore) save(m api.IRangeRules) error {
	if rt.Dead() {
		return nil
	}
	rt.Y(-1)
	if f, ok := s.fault("reject", 0); ok {
		switch f.Kind {
		case "reject":
			s.fired = true
			s.e.Fault("storage-save-fails")
			return errRejected
		case "crash":
			s.e.Fault("crash-before-storage-save")
			s.e.crash(false, 0)
		}
	}
	rules := [][]string{}
	m.RangeRules(func(r []string) bool {
		rules = append(rules, copyRule(r))
		return true
	})
	s.rules = rules
	s.saves++
	s.e.S.Event("storage save %d rules", len(rules))
	if f, ok := s.fault("reject", 0); ok && f.Kind == "crash-after" {
		s.e.Fault("crash-after-storage-save")
		s.e.crash(false, 0)
	}
	return nil
}

func changes(add bool, rules [][]string) []change {
	cs := []change{}
	for _, r := range rules {
		cs = append(cs, change{add, r})
	}
	return cs
}

type baseAdapter struct{ *memStore }

func (a baseAdapter) LoadPolicy(m api.IAddRuleBool) error { return a.load(m) }
func (a baseAdapter) SavePolicy(m api.IRangeRules) error  { return a.save(m) }

type simpleAdapter struct{ baseAdapter }

func (a simpleAdapter) AddRule(r []string) error    { return a.write(changes(true, [][]string{r})) }
func (a simpleAdapter) RemoveRule(r []string) error { return a.write(changes(false, [][]string{r})) }

type batchAdapter struct{ baseAdapter }

func (a batchAdapter) AddRules(rr [][]string) error    { return a.write(changes(true, rr)) }
func (a batchAdapter) RemoveRules(rr [][]string) error { return a.write(changes(false, rr)) }

type bothAdapter struct {
	simpleAdapter
	b batchAdapter
}

func (a bothAdapter) AddRules(rr [][]string) error    { return a.b.AddRules(rr) }
func (a bothAdapter) RemoveRules(rr [][]string) error { return a.b.RemoveRules(rr) }

const (
	kindSimple = iota
	kindBatch
	kindBoth
	kindFile
	kindPlain // can only be loaded and saved as a whole
	kindNone  // no storage: the adapter which stands for a missing one
)

type loadSaver interface {
	LoadPolicy(api.IAddRuleBool) error
	SavePolicy(api.IRangeRules) error
}

func (s *memStore) adapter(kind int) loadSaver {
	b := baseAdapter{s}
	switch kind {
	case kindBatch:
		return batchAdapter{b}
	case kindBoth:
		return bothAdapter{simpleAdapter{b}, batchAdapter{b}}
	case kindPlain:
		return b
	case kindNone:
		return &adapter.NoopAdapter{}
	default:
		return simpleAdapter{b}
	}
}

// collector receives the rules of a load
type collector struct{ rules [][]string }

func (c *collector) AddRule(rule []string) (bool, error) {
	c.rules = append(c.rules, copyRule(rule))
	return true, nil
}

func (c *collector) RangeRules(fn func(rule []string) bool) {
	for _, r := range c.rules {
		if !fn(copyRule(r)) {
			return
		}
	}
}

// readFile loads a policy file the way a fresh process does
func readFile(e *Env, path string) (RuleSet, error) {
	c := &collector{}
	var err error
	e.Disk.Begin(nil)
	e.Call("read policy file", func() { err = adapter.NewFileAdapter(path).LoadPolicy(c) })
	return newSet(c.rules), err
}

// fmtErr keeps messages of errors out of the event log, they may differ
// between equivalent versions of the code
func failed(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

var _ fastac.IEnforcer = (*fastac.Enforcer)(nil)
