package main

import (
	"fmt"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
	"zzsim.local/rt"
	"zzsim.local/sos"
)

// World "storage" (C01-C04): one enforcer, a storage back end, rule changes,
// flushes, saves, loads, mode changes, failures, crashes and restarts.

func init() {
	worlds["storage"] = storageWorld{}
	comps := []string{"Enforcer", "StorageController", "Model", "Policy", "RolePolicy", "RoleManager", "Matcher", "FileAdapter", "event emitter"}
	stubs := []string{"in-memory storage adapters (simple, batch, both) with injected failures", "disk (sos) below the FileAdapter", "sync, os, time"}
	rule := "Random histories of rule changes, flushes, saves, loads, mode/adapter/model changes, restarts, crashes and power losses against a reference (rule set, tracked changes, accepted prefix), checked after every operation."
	for _, id := range []string{"C01", "C02", "C03", "C04"} {
		register(&Prop{ID: id, World: "storage", Quick: 150000, Thorough: 2500000, Rule: rule, Components: comps, Stubs: stubs})
	}
}

type storageWorld struct{}

var (
	stSubs    = []string{"alice", "bob", "admin", "staff"}
	stSpecial = []string{"a,b", " lead", "trail ", `q"q`, "#hash", "", "x\ny", "ü"}
	stObjs    = []string{"d1", "d2"}
	stActs    = []string{"read", "write"}
	stUsers   = []string{"alice", "bob", "admin"}
	stRoles   = []string{"admin", "staff", "ops"}
)

func stRule(r *rt.PRNG, special bool) []string {
	switch r.N(8) {
	case 0, 1, 2:
		return []string{"g", pick(r, stUsers), pick(r, stRoles)}
	case 3:
		return []string{"p2", pick(r, stSubs), pick(r, stActs)}
	default:
		sub := pick(r, stSubs)
		if special && r.P(1, 4) {
			sub = pick(r, stSpecial)
		}
		return []string{"p", sub, pick(r, stObjs), pick(r, stActs)}
	}
}

func stRules(r *rt.PRNG, n int, special bool) [][]string {
	res := [][]string{}
	for i := 0; i < n; i++ {
		res = append(res, stRule(r, special))
	}
	return res
}

// roundSize returns a size up to about max, which is close to a number a program could use as a limit
func roundSize(r *rt.PRNG, max int) int {
	sizes := []int{16, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024}
	n := len(sizes)
	for n > 1 && sizes[n-1] > max {
		n--
	}
	return sizes[n-1-r.N(min(n, 4))] - 2 + r.N(9)
}

func stFaults(r *rt.PRNG, kind int, op string) []sos.Fault {
	res := []sos.Fault{}
	if kind == kindFile {
		n := r.N(14)
		if op == "flush" || op == "adds" || op == "removes" {
			n = r.N(40)
		}
		k := pick(r, []string{"eio", "eio", "enospc", "enospc", "emfile", "eacces", "short-write", "eintr-read", "crash", "crash-after", "torn-crash", "power", "power-after", "torn-power"})
		switch k {
		case "short-write", "eintr-read", "torn-crash", "torn-power":
			n = n / 12
		}
		res = append(res, sos.Fault{N: n, Kind: k, Arg: r.N(1000)})
		if r.P(1, 4) {
			res = append(res, sos.Fault{N: n + 1 + r.N(4), Kind: pick(r, []string{"eio", "crash", "power"}), Arg: r.N(1000)})
		}
		return res
	}
	switch op {
	case "load":
		res = append(res, sos.Fault{N: r.N(8), Kind: "load-fail"})
	case "save":
		res = append(res, sos.Fault{N: 0, Kind: pick(r, []string{"reject", "reject", "reject", "crash", "crash-after"})})
	default:
		n := 0
		if r.P(1, 2) {
			n = r.N(5)
		}
		res = append(res, sos.Fault{N: n, Kind: pick(r, []string{"reject", "reject", "reject", "reject", "reject", "crash", "crash-after"})})
	}
	return res
}

func (storageWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	c := &Case{Cfg: map[string]int{}}
	kind := r.N(4)
	if r.P(1, 12) {
		kind = kindPlain + r.N(2)
	}
	c.Cfg["kind"] = kind
	c.Cfg["autosave"] = r.N(2)
	c.Cfg["nostorage"] = 0
	if r.P(1, 10) {
		c.Cfg["nostorage"] = 1
	}
	c.Cfg["string"] = r.N(2)
	c.Order = r.U64()
	special := r.P(1, 2)
	c.Rules = stRules(r, r.N(6), false)

	faultDen := 5
	weights := map[string]int{"add": 10, "remove": 7, "adds": 4, "removes": 3, "flush": 5, "save": 2, "load": 2, "autosave": 2,
		"storage": 1, "wait": 1, "setadapter": 1, "setmodel": 1, "oldmodel": 1, "direct": 2, "clear": 1, "restart": 1, "power": 1}
	switch prop {
	case "C01":
		weights["flush"], weights["save"], weights["restart"], weights["power"] = 7, 3, 3, 2
		faultDen = 8
	case "C02":
		weights["flush"] = 8
		weights["setadapter"], weights["restart"] = 0, 0
		faultDen = 3
	case "C03":
		weights["storage"], weights["load"], weights["save"] = 2, 3, 3
		faultDen = 3
	case "C04":
		weights["autosave"], weights["storage"], weights["wait"] = 4, 3, 3
		weights["setadapter"], weights["setmodel"], weights["oldmodel"], weights["load"] = 2, 2, 2, 3
		faultDen = 8
	}
	names := []string{}
	for _, k := range []string{"add", "remove", "adds", "removes", "flush", "save", "load", "autosave", "storage", "wait",
		"setadapter", "setmodel", "oldmodel", "direct", "clear", "restart", "power"} {
		for i := 0; i < weights[k]; i++ {
			names = append(names, k)
		}
	}
	n := 3 + r.N(30)
	if r.P(1, 20) {
		n = 60 + r.N(60)
	}
	recent := copyRules(c.Rules)
	rule := func() []string {
		if len(recent) > 0 && r.P(1, 2) {
			return copyRule(pick(r, recent))
		}
		x := stRule(r, special && kind == kindFile)
		recent = append(recent, x)
		return x
	}
	from, to := 0, 0
	if r.P(1, 15) {
		from = r.N(n)
		to = from + 3 + r.N(n)
	}
	large := 0
	if r.P(1, 40) {
		large = 20 + r.N(180)
		if kind == kindFile {
			large = 20 + r.N(60)
		}
	} else if r.P(1, 300) && kind != kindFile { // more pending changes than any reasonable limit of a queue or a batch
		large = 300 + r.N(1000)
		n = 3 + r.N(6)
	}
	for i := 0; i < n; i++ {
		op := Op{K: pick(r, names)}
		if large > 0 && r.P(1, 6) {
			op.K = pick(r, []string{"adds", "adds", "removes", "flush"})
		}
		switch op.K {
		case "add", "remove":
			op.R = rule()
		case "direct", "oldmodel":
			op.R = rule()
			op.B = r.P(2, 3)
		case "adds", "removes":
			m := r.N(6)
			if large > 0 && r.P(1, 2) {
				op.N = r.N(large)
				if r.P(1, 2) {
					op.N = roundSize(r, large)
				}
			}
			for j := 0; j < m; j++ {
				op.RR = append(op.RR, rule())
			}
			if r.P(1, 6) {
				bad := pick(r, [][]string{{"x", "y"}, {"g", "alice"}, {}, {"p9", "a"}})
				pos := r.N(m + 1)
				op.RR = append(op.RR[:pos:pos], append([][]string{bad}, op.RR[pos:]...)...)
			}
		case "autosave", "storage":
			op.B = r.P(1, 2)
			if op.K == "storage" {
				op.B = r.P(2, 3)
			}
		case "wait":
			op.N = 1 + r.N(4)
			if r.P(1, 8) {
				op.N = 5 + r.N(20)
			}
		case "setadapter":
			op.N = r.N(4)
			if r.P(1, 10) {
				op.N = kindPlain + r.N(2)
			}
			op.B = r.P(5, 6)
			op.RR = stRules(r, r.N(4), false)
		case "setmodel":
			op.RR = stRules(r, r.N(5), false)
		case "clear":
			op.S = pick(r, []string{"p", "p2", "g"})
		case "restart", "power":
			op.N = r.N(1000)
			op.B = r.P(1, 2)
		}
		switch op.K {
		case "add", "remove", "adds", "removes", "flush", "save", "load", "direct":
			if r.P(1, faultDen) {
				op.F = stFaults(r, kind, op.K)
			}
			if i >= from && i < to { // the storage is not available for some time
				op.F = []sos.Fault{{Kind: "reject"}}
				if kind == kindFile {
					op.F[0].Kind = pick(r, []string{"eio", "eacces", "emfile"})
				}
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type storageRun struct {
	e        *Env
	enf      *fastac.Enforcer
	m        *model.Model
	old      *model.Model
	kind     int
	store    *memStore
	path     string
	adapter  storage.Adapter
	files    int
	retired  []retired
	mem      RuleSet
	queue    []change
	starts   []int // file: possible numbers of delivered changes at the start of the queue
	enabled  bool
	autosave bool
	wait     int
	failures int       // operations hit by a fault
	refused  bool      // the call tried to deliver changes to a storage, which can not take them
	seen     int       // accepted changes which have been checked
	vis      RuleSet   // visible content of the file
	durable  []RuleSet // possible contents of the file after a power loss
}

type retired struct {
	store *memStore
	log   int
	path  string
	data  string
}

func csvRules(rules [][]string) []byte {
	var sb strings.Builder
	for _, r := range rules {
		sb.WriteString(strings.Join(r, ", ") + "\n")
	}
	return []byte(sb.String())
}

func (w storageWorld) Run(e *Env) {
	r := &storageRun{e: e, mem: RuleSet{}, kind: e.C.Cfg["kind"]}
	r.attach(r.kind, e.C.Rules)
	r.restart(e.C.Cfg["autosave"] == 1, e.C.Cfg["string"] == 1, e.C.Cfg["nostorage"] == 1)
	for i, op := range e.C.Ops {
		r.step(i, op)
		if r.fired() {
			r.failures++
		}
		r.check(i, op)
	}
	r.settle()
}

// attach creates a storage of its own with the given rules
func (r *storageRun) attach(kind int, rules [][]string) {
	r.kind = kind
	r.store, r.path = nil, ""
	if kind == kindFile {
		r.files++
		r.path = fmt.Sprintf("/data/policy%d.csv", r.files)
		r.e.Disk.Put(r.path, csvRules(rules))
		r.adapter = adapter.NewFileAdapter(r.path)
		r.vis = newSet(rules)
		r.durable = []RuleSet{r.vis}
		return
	}
	if kind == kindNone {
		r.e.Probe("no-storage")
		rules = nil
	}
	if kind == kindPlain {
		r.e.Probe("whole-storage")
	}
	r.store = &memStore{e: r.e, rules: newSet(rules).list()}
	r.seen = 0
	r.adapter = r.store.adapter(kind).(storage.Adapter)
}

// restart builds an enforcer from storage
func (r *storageRun) restart(autosave, byPath, noStorage bool) {
	e := r.e
	e.Probe("restart")
	r.begin(nil)
	var err error
	e.Call("restart", func() {
		r.m = newModel(rbacModel)
		opts := []fastac.Option{}
		if autosave {
			opts = append(opts, fastac.OptionAutosave(true))
		}
		if noStorage {
			opts = append(opts, fastac.OptionStorage(false))
		}
		if r.kind == kindFile && byPath {
			r.enf, err = fastac.NewEnforcer(r.m, r.path, opts...)
			return
		}
		if r.kind == kindNone && byPath { // tracking is off, unless it is switched on
			r.enf, err = fastac.NewEnforcer(r.m, nil, append(opts, fastac.OptionStorage(!noStorage))...)
		} else {
			r.enf, err = fastac.NewEnforcer(r.m, r.adapter, opts...)
		}
		if err == nil {
			err = r.enf.LoadPolicy()
		}
	})
	if err != nil {
		e.FailFor("C01 C03", "restart", "an enforcer can not be created from storage: %v", err)
	}
	r.old = nil
	r.pending(nil)
	r.wait = 0
	r.autosave = autosave
	r.enabled = !noStorage
	if r.kind == kindFile {
		r.mem = r.vis.clone()
	} else {
		r.mem = r.store.set()
	}
	got := newSet(rulesOf(r.m))
	if !got.equal(r.mem) {
		e.FailFor("C01", "restart-rules", "the restarted enforcer does not have the stored rules: %s", diff(r.mem, got))
	}
	if r.store != nil {
		if len(r.store.log) != r.seen {
			e.FailFor("C04", "sent-during-load", "rules were sent to storage while they were loaded: %v", r.store.log[r.seen:])
		}
	} else {
		r.visible("C04", "sent-during-load", "after a restart")
	}
	r.decisions("C01", 4)
}

func (r *storageRun) begin(faults []sos.Fault) {
	if r.store != nil {
		r.store.begin(faults)
		r.e.Disk.Begin(nil)
	} else {
		r.e.Disk.Begin(faults)
	}
}

// read returns the visible content of the file
func (r *storageRun) read(props string) RuleSet {
	got, err := readFile(r.e, r.path)
	if err != nil {
		r.e.FailFor(props, "unreadable", "the policy file can not be loaded: %v", err)
	}
	return got
}

// visible checks that the file has not changed
func (r *storageRun) visible(props, class, when string) {
	if got := r.read(props); !got.equal(r.vis) {
		r.e.FailFor(props, class, "the policy file changed %s: %s", when, diff(r.vis, got))
	}
}

// fired reports whether a fault took effect in this operation
func (r *storageRun) fired() bool {
	if r.store != nil {
		return r.store.fired
	}
	return len(r.e.Disk.Last) > 0
}

// blame adds C03 to the properties, if storage has failed earlier: changes
// made afterwards have to be recorded
func (r *storageRun) blame(props string) string {
	if r.failures > 0 {
		return props + " C03"
	}
	return props
}

func addUniq(list []RuleSet, s RuleSet) []RuleSet {
	for _, o := range list {
		if o.equal(s) {
			return list
		}
	}
	return append(list, s)
}

// prefixes of the pending changes applied to each of the bases
func prefixes(bases []RuleSet, queue []change) []RuleSet {
	res := []RuleSet{}
	for _, b := range bases {
		cur := b.clone()
		res = addUniq(res, cur.clone())
		for _, c := range queue {
			if c.add {
				cur.add(c.rule)
			} else {
				cur.remove(c.rule)
			}
			res = addUniq(res, cur.clone())
		}
	}
	return res
}

func oneOf(list []RuleSet, s RuleSet) bool {
	for _, o := range list {
		if o.equal(s) {
			return true
		}
	}
	return false
}

// attempt checks an operation, which tried to deliver all pending changes.
// complete: it returned without error.
func (r *storageRun) attempt(what string, complete bool) {
	e := r.e
	if r.kind == kindPlain {
		complete = false // report has checked that the call says so
	}
	if r.kind == kindNone {
		if complete {
			r.pending(nil)
		}
		return
	}
	if r.store != nil {
		n := r.accept(what)
		if complete && n < len(r.queue) {
			e.FailFor(r.blame("C01 C02 C04"), "not-delivered", "%s returned without error, but storage did not receive %v", what, r.queue[n:])
		}
		r.queue = r.queue[n:]
		return
	}
	got := r.read("C01 C02")
	if complete {
		want := apply(r.vis, r.queue)
		ok := got.equal(want)
		for _, n := range r.starts {
			ok = ok || got.equal(apply(r.vis, r.queue[n:]))
		}
		if !ok {
			e.FailFor(r.blame("C01 C02 C04"), "not-delivered", "%s returned without error, but the policy file is wrong: %s", what, diff(want, got))
		}
		if !got.equal(r.vis) { // without a change nothing has to be written
			r.durable = []RuleSet{got}
		}
		r.vis = got
		r.pending(nil)
		return
	}
	starts := []int{}
	for n := 0; n <= len(r.queue); n++ {
		for _, from := range r.possibleStarts() {
			if from <= n && got.equal(apply(r.vis, r.queue[from:n])) {
				starts = append(starts, n)
				break
			}
		}
	}
	if len(starts) == 0 {
		e.FailFor("C02", "partial", "%s failed, and the policy file is not the result of a part of the pending changes: before %v, pending %v, now %v", what, r.vis, r.queue, got)
	}
	r.starts = starts
	r.durable = addUniq(prefixes(r.durable, r.queue), got)
	r.vis = got
}

// pending replaces the tracked changes
func (r *storageRun) pending(queue []change) {
	r.queue = queue
	r.starts = nil
}

func (r *storageRun) possibleStarts() []int {
	if len(r.starts) == 0 {
		return []int{0}
	}
	return r.starts
}

// accept checks the changes storage accepted in this operation: they are the
// oldest pending ones, in order.
func (r *storageRun) accept(what string) int {
	news := r.store.log[r.seen:]
	for i, c := range news {
		if i >= len(r.queue) {
			r.e.FailFor("C02 C04 C01", "sent-twice", "%s: storage received %v, which is not pending", what, c)
		}
		if !c.equal(r.queue[i]) {
			r.e.FailFor("C02 C01", "wrong-order", "%s: storage received %v instead of %v (pending %v)", what, c, r.queue[i], r.queue)
		}
	}
	r.seen = len(r.store.log)
	return len(news)
}

// silent checks that storage did not receive anything
func (r *storageRun) silent(what string) {
	if r.store != nil {
		if news := r.store.log[r.seen:]; len(news) > 0 {
			r.e.FailFor("C04", "unexpected-write", "%s: storage received %v (autosave %v, tracking %v, wait %d)", what, news, r.autosave, r.enabled, r.wait)
		}
		return
	}
	r.visible("C04", "unexpected-write", "during "+what)
}

func valid(rule []string) bool {
	if len(rule) == 0 {
		return false
	}
	switch rule[0] {
	case "p", "p2":
		return true
	case "g":
		return len(rule) >= 3
	}
	return false
}

// effective applies changes to the reference rule set. It returns those which
// had an effect, and whether one of them is malformed.
func (r *storageRun) effective(add bool, rules [][]string) ([]change, bool) {
	res := []change{}
	for _, x := range rules {
		if !valid(x) {
			return res, true
		}
		if add && r.mem.add(x) || !add && r.mem.remove(x) {
			res = append(res, change{add, x})
		}
	}
	return res, false
}

func (r *storageRun) step(i int, op Op) {
	e := r.e
	what := fmt.Sprintf("operation %d (%s)", i, op.K)
	r.begin(op.F)
	var err error
	switch op.K {
	case "add", "remove", "direct":
		add := op.K == "add" || op.K == "direct" && op.B
		crashed := e.Call(op.K, func() {
			arg := copyRule(op.R)
			switch {
			case op.K == "add":
				_, err = r.enf.AddRule(arg)
			case op.K == "remove":
				_, err = r.enf.RemoveRule(arg)
			case add:
				_, err = r.m.AddRule(arg)
			default:
				_, err = r.m.RemoveRule(arg)
			}
			scribble(arg) // the caller may reuse its slice
		})
		cs, _ := r.effective(add, [][]string{op.R})
		e.S.Event("%s %q %s", op.K, op.R, failed(err))
		if r.enabled {
			r.queue = append(r.queue, cs...)
		}
		if crashed {
			r.crashed(what, nil)
			return
		}
		r.refused = r.enabled && r.autosave && len(cs) > 0 && r.wait <= 1
		r.report(what, err)
		if !r.enabled || !r.autosave {
			r.silent(what)
			return
		}
		if len(cs) > 0 {
			r.wait--
			if r.wait > 0 {
				e.Probe("waiting")
				r.silent(what)
				return
			}
			r.wait = 0
		} else if r.wait > 0 {
			r.silent(what)
			return
		}
		if len(cs) == 0 {
			// retrying earlier changes is allowed, not required
			if r.store != nil {
				r.queue = r.queue[r.accept(what):]
			} else {
				r.visible("C04 C02", "unexpected-write", "by a change without effect")
			}
			return
		}
		// a caller of the model does not see the error
		r.attempt(what, err == nil && !(op.K == "direct" && r.fired()))
	case "adds", "removes":
		if r.wait > 0 && r.autosave && r.enabled {
			return // whether a bulk change ends the wait is open
		}
		list := append(copyRules(op.RR), padding(op.N)...)
		if op.N > 0 {
			e.Probe("large-bulk-change")
		}
		crashed := e.Call(op.K, func() {
			args := copyRules(list)
			if op.K == "adds" {
				err = r.enf.AddRules(args)
			} else {
				err = r.enf.RemoveRules(args)
			}
			for _, arg := range args {
				scribble(arg)
			}
		})
		cs, bad := r.effective(op.K == "adds", list)
		e.S.Event("%s %d %s", op.K, len(list), failed(err))
		if r.enabled {
			r.queue = append(r.queue, cs...)
		}
		if crashed {
			r.crashed(what, nil)
			return
		}
		if bad {
			e.Probe("bulk-with-malformed-rule")
			if err == nil {
				e.FailFor("C03", "hidden-error", "%s: a malformed rule was not reported", what)
			}
		} else {
			r.refused = r.enabled && r.autosave && len(cs) > 0
			r.report(what, err)
		}
		if !r.enabled || !r.autosave {
			r.silent(what)
			return
		}
		r.attempt(what, err == nil || bad && !r.fired())
	case "flush":
		if !r.enabled {
			return
		}
		crashed := e.Call("flush", func() { err = r.enf.Flush() })
		e.S.Event("flush %s", failed(err))
		if crashed {
			r.crashed(what, nil)
			return
		}
		r.refused = len(r.queue) > 0
		r.report(what, err)
		r.wait = 0
		if len(r.queue) > 1 {
			e.Probe("flush-of-several")
		}
		r.attempt(what, err == nil)
	case "save":
		if r.wait > 0 && len(r.queue) > 0 {
			return // whether a save ends the wait is open
		}
		crashed := e.Call("save", func() { err = r.enf.SavePolicy() })
		e.S.Event("save %s", failed(err))
		if crashed {
			r.crashed(what, r.mem)
			return
		}
		r.report(what, err)
		if len(r.queue) > 0 {
			e.Probe("save-with-pending")
		}
		if r.store != nil {
			if n := len(r.store.log) - r.seen; n > 0 {
				e.FailFor("C02 C04", "sent-by-save", "%s: storage received single changes %v", what, r.store.log[r.seen:])
			}
			if r.kind == kindNone {
				r.pending(nil)
			} else if err == nil {
				if got := r.store.set(); !got.equal(r.mem) {
					e.FailFor("C01", "save-incomplete", "%s: the saved rules differ from those of the enforcer: %s", what, diff(r.mem, got))
				}
				r.pending(nil)
			}
			return
		}
		got := r.read("C01")
		if err == nil {
			if !got.equal(r.mem) {
				e.FailFor("C01", "save-incomplete", "%s: the saved rules differ from those of the enforcer: %s", what, diff(r.mem, got))
			}
			r.pending(nil)
			r.durable = []RuleSet{got}
		} else {
			if !got.equal(r.vis) && !got.equal(r.mem) {
				e.FailFor("C01 C02", "partial-save", "%s failed, and the policy file has neither the old nor the new rules: old %v, now %v", what, r.vis, got)
			}
			r.durable = addUniq(r.durable, got)
			r.durable = addUniq(r.durable, r.mem.clone())
		}
		r.vis = got
	case "load":
		crashed := e.Call("load", func() { err = r.enf.LoadPolicy() })
		e.S.Event("load %s", failed(err))
		if crashed {
			r.crashed(what, nil)
			return
		}
		r.report(what, err)
		r.silent(what)
		got := newSet(rulesOf(r.m))
		stored := r.vis
		if r.store != nil {
			stored = r.store.set()
		}
		all := r.mem.clone()
		for _, x := range stored {
			all.add(x)
		}
		if err == nil {
			if !got.equal(all) {
				e.FailFor("C01 C03", "load", "%s: the loaded rules are wrong: %s", what, diff(all, got))
			}
		} else {
			for k, x := range r.mem {
				if _, ok := got[k]; !ok {
					e.FailFor("C03", "load-lost", "%s failed, and the rule %q is gone", what, x)
				}
			}
			for k, x := range got {
				if _, ok := all[k]; !ok {
					e.FailFor("C03", "load-foreign", "%s failed, and there is a new rule %q", what, x)
				}
			}
		}
		r.mem = got
	case "autosave":
		e.Call("autosave", func() { err = r.enf.SetOption(fastac.OptionAutosave(op.B)) })
		r.autosave = op.B
		r.noError(what, err)
		if r.enabled && r.autosave && r.wait <= 0 && r.store != nil {
			r.queue = r.queue[r.accept(what):]
		}
		r.silent(what)
	case "storage":
		e.Call("storage", func() { err = r.enf.SetOption(fastac.OptionStorage(op.B)) })
		r.enabled = op.B
		r.noError(what, err)
		r.silent(what)
	case "wait":
		e.Call("wait", func() { r.enf.GetStorageController().AddWait(op.N) })
		r.wait += op.N
		r.silent(what)
	case "setadapter":
		if len(r.queue) > 0 {
			return
		}
		e.Probe("adapter-replaced")
		old := retired{store: r.store, path: r.path}
		if r.store != nil {
			old.log = len(r.store.log)
		} else {
			d, _ := e.Disk.Content(r.path)
			old.data = string(d)
		}
		r.retired = append(r.retired, old)
		r.attach(op.N, op.RR)
		e.Call("setadapter", func() {
			r.enf.SetAdapter(r.adapter)
			err = r.enf.SetOption(fastac.OptionStorage(op.B))
		})
		r.noError(what, err)
		r.enabled = op.B
		r.wait = 0
		r.silent(what)
	case "setmodel":
		e.Probe("model-replaced")
		e.Call("setmodel", func() {
			r.old = r.m
			r.m = newModel(rbacModel)
			for _, x := range op.RR {
				if _, err := r.m.AddRule(copyRule(x)); err != nil {
					panic(err)
				}
			}
			r.enf.SetModel(r.m)
		})
		r.mem = newSet(op.RR)
		r.silent(what)
	case "oldmodel":
		if r.old == nil {
			return
		}
		e.Probe("change-of-replaced-model")
		e.Call("oldmodel", func() {
			if op.B {
				_, err = r.old.AddRule(copyRule(op.R))
			} else {
				_, err = r.old.RemoveRule(copyRule(op.R))
			}
		})
		r.silent(what)
	case "clear":
		e.Call("clear", func() { err = r.m.ClearPolicy(op.S) })
		r.noError(what, err)
		for k, x := range r.mem {
			if x[0] == op.S {
				delete(r.mem, k)
			}
		}
		r.silent(what)
	case "restart":
		r.restart(r.autosave, op.B, false)
	case "power":
		e.Fault("power-loss")
		if r.store == nil {
			e.Disk.PowerLoss(op.N)
			r.afterPower(what)
		}
		r.restart(r.autosave, op.B, false)
	}
}

func scribble(rule []string) {
	for i := range rule {
		rule[i] = "reused"
	}
}

func (r *storageRun) noError(what string, err error) {
	if err != nil {
		r.e.FailFor("C03", "error", "%s: unexpected error %v", what, err)
	}
}

// report: the call returns an error if and only if storage failed
func (r *storageRun) report(what string, err error) {
	refused := r.refused
	r.refused = false
	if strings.Contains(what, "(direct)") {
		return // the error is not visible to the caller of the model
	}
	if r.kind == kindPlain && !r.fired() {
		if refused && err == nil {
			r.e.FailFor("C03", "hidden-error", "%s: the storage can not store changes, but the call returned no error", what)
		}
		if err != nil && !strings.Contains(what, "(save)") && !strings.Contains(what, "(load)") {
			return
		}
	}
	if err != nil && !r.fired() {
		r.e.FailFor("C03", "error", "%s returned an error, but storage did not fail: %v", what, err)
	}
	if r.store != nil && r.fired() && err == nil {
		r.e.FailFor("C03", "hidden-error", "%s: storage failed, but the call returned no error", what)
	}
}

// afterPower: the file has one of the possible contents
func (r *storageRun) afterPower(what string) {
	got := r.read("C01")
	if !oneOf(r.durable, got) {
		r.e.FailFor("C01", "not-durable", "%s: after a power loss the policy file has the rules %v, possible are %v", what, got, r.durable)
	}
	r.vis = got
	r.durable = []RuleSet{got}
	for i, o := range r.retired {
		// a save, which failed after its rename, may be undone
		if o.path != "" {
			d, _ := r.e.Disk.Content(o.path)
			r.retired[i].data = string(d)
		}
	}
}

// crashed checks storage after the process was stopped within an operation,
// and starts a new process.
func (r *storageRun) crashed(what string, saved RuleSet) {
	e := r.e
	e.Probe("crash-within-operation")
	if r.store != nil {
		if saved != nil {
			if len(r.store.log) != r.seen {
				e.FailFor("C02 C04", "sent-by-save", "%s: storage received single changes", what)
			}
		} else {
			r.accept(what)
		}
	} else {
		cands := []RuleSet{}
		for _, n := range r.possibleStarts() {
			for _, s := range prefixes([]RuleSet{r.vis}, r.queue[n:]) {
				cands = addUniq(cands, s)
			}
		}
		possible := prefixes(r.durable, r.queue)
		if saved != nil {
			cands = addUniq([]RuleSet{r.vis}, saved)
			possible = addUniq(r.durable, saved)
		}
		if e.crashMode == "power" {
			r.durable = possible
			r.afterPower(what)
		} else {
			got := r.read("C01")
			if !oneOf(cands, got) {
				e.FailFor("C01", "crash", "%s: after a crash the policy file has the rules %v, possible are %v", what, got, cands)
			}
			r.durable = addUniq(possible, got)
			r.vis = got
		}
	}
	r.restart(r.autosave, len(r.queue)%2 == 0, false)
}

var stRequests = func() [][]string {
	res := [][]string{}
	for _, s := range []string{"alice", "bob", "admin", "staff", ""} {
		for _, o := range stObjs {
			for _, a := range stActs {
				res = append(res, []string{s, o, a})
			}
		}
	}
	return res
}()

// decisions compares n decisions with the reference
func (r *storageRun) decisions(props string, n int) {
	e := r.e
	pr := rt.NewPRNG(rt.Mix(e.C.Order, uint64(e.group)))
	for i := 0; i < n; i++ {
		q := pick(pr, stRequests)
		var ok bool
		var err error
		r.begin(nil)
		e.Call("enforce", func() { ok, err = r.enf.Enforce(q[0], q[1], q[2]) })
		want := rbacDecide(r.mem, q[0], q[1], q[2])
		if err != nil || ok != want {
			e.FailFor(props, "decision", "the request %q is decided %v %v, by the rules %v it is %v", q, ok, err, r.mem, want)
		}
	}
}

// check is executed after every operation
func (r *storageRun) check(i int, op Op) {
	e := r.e
	list := rulesOf(r.m)
	got := newSet(list)
	if !got.equal(r.mem) || len(list) != len(got) {
		e.FailFor("C03 C01", "memory", "operation %d (%s): the rules in effect are wrong: %s (%d listed)", i, op.K, diff(r.mem, got), len(list))
	}
	for _, o := range r.retired {
		if o.store != nil {
			if len(o.store.log) != o.log || o.store.saves > 0 && false {
				e.FailFor("C04", "replaced-adapter", "operation %d (%s): the replaced storage received %v", i, op.K, o.store.log[o.log:])
			}
		} else if d, _ := e.Disk.Content(o.path); string(d) != o.data {
			e.FailFor("C04", "replaced-adapter", "operation %d (%s): the replaced policy file was written", i, op.K)
		}
	}
	if e.C.Prop == "C03" || len(op.F) > 0 {
		r.decisions("C03 C01", 1)
	}
	e.State(key([]string{fmt.Sprint(len(r.queue), r.enabled, r.autosave, r.wait, r.kind)}), strings.Join(r.mem.keys(), ";"))
}

// settle: faults have stopped, a flush delivers everything
func (r *storageRun) settle() {
	e := r.e
	if !r.enabled {
		var err error
		e.Call("storage", func() { err = r.enf.SetOption(fastac.OptionStorage(true)) })
		r.noError("switching tracking on", err)
		r.enabled = true
	}
	r.step(len(e.C.Ops), Op{K: "add", R: []string{"p", "last", "d1", "read"}})
	r.check(len(e.C.Ops), Op{K: "add"})
	if r.kind == kindPlain {
		r.wait = 0
		r.step(len(e.C.Ops)+1, Op{K: "save"})
	} else {
		r.step(len(e.C.Ops)+1, Op{K: "flush"})
	}
	if len(r.queue) > 0 {
		e.FailFor("C01 C02 C03", "no-recovery", "after the failures stopped a flush did not deliver %v", r.queue)
	}
	if e.C.Prop == "C01" {
		if r.store == nil && e.C.Order%2 == 0 {
			e.Disk.PowerLoss(int(e.C.Order % 1000))
			r.afterPower("the final flush")
		}
		r.restart(r.autosave, e.C.Order%3 == 0, false)
	}
}
