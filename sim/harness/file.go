package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/api"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage/adapter"
	"zzsim.local/rt"
	"zzsim.local/sos"
)

// World "file" (C05, C06): the file adapter on the simulated disk.

func init() {
	worlds["file"] = fileWorld{}
	worlds["damage"] = damageWorld{}
	stubs := []string{"disk (sos): kernel view, durable part, handles, errors, torn writes", "sync, os, time"}
	register(&Prop{ID: "C05", World: "file", Quick: 250000, Thorough: 2000000, Stubs: stubs,
		Components: []string{"FileAdapter", "Enforcer.SavePolicy", "Model", "Policy", "encoding/csv"},
		Rule:       "Histories of saves and rule changes on a policy file, with errors, crashes and power losses at chosen file system calls; after each the file is compared with the complete old and new rule sets."})
	register(&Prop{ID: "C06", World: "file", Quick: 200000, Thorough: 2000000, Stubs: stubs,
		Components: []string{"FileAdapter", "Enforcer", "StorageController", "Model", "encoding/csv"},
		Rule:       "Chains of saves, single changes, loads and restarts with unusual values, short reads and read errors; every load is compared with the exact rule set."})
	register(&Prop{ID: "C07", World: "damage", Quick: 400000, Thorough: 2000000, Stubs: append([]string{"recording storage for the changes after the load"}, stubs...),
		Components: []string{"FileAdapter", "Enforcer", "StorageController", "Model", "Policy", "RolePolicy", "RoleManager", "Matcher", "encoding/csv"},
		Rule:       "Policy files written by the library, damaged at one place (truncated, flipped, overwritten, inserted), loaded into an enforcer, which is then used."})
}

const filePath = "/data/policy.csv"

// dec decodes a value: an escaped string, or "@count:string" for a repeated one
func dec(s string) string {
	n := 1
	if strings.HasPrefix(s, "@") {
		i := strings.Index(s, ":")
		n, _ = strconv.Atoi(s[1:i])
		s = s[i+1:]
	}
	v, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		panic(fmt.Sprintf("harness: value %q: %v", s, err))
	}
	return strings.Repeat(v, n)
}

func enc(s string) string {
	q := strconv.QuoteToASCII(s)
	q = q[1 : len(q)-1]
	if strings.HasPrefix(q, "@") {
		q = `\x40` + q[1:]
	}
	return q
}

func decRule(r []string) []string {
	res := make([]string, len(r))
	for i, s := range r {
		res[i] = dec(s)
	}
	return res
}

func decRules(rr [][]string) [][]string {
	res := [][]string{}
	for _, r := range rr {
		res = append(res, decRule(r))
	}
	return res
}

var nasty = []string{
	"", " ", "  ", ",", ", ", " ,", "\"", "\"\"", "\"\"\"", "a\"b", "\"a", "a\"", "\"a\"", "\"a\",\"b\"", "#", "#p", " #", "# p, a",
	"\n", "\n\n", "a\n", "\na", "a\nb", "a\n# b", "\"\n", "\n\"", "a, b", "a ,b", " a", "a ", "\ta", "a\t", "\t", "\v", "\f a", "\u00a0a", "a\u00a0", "\u2028", "\u0085x", "\ufeff", "\ufeffp",
	"ü", "日本語", "\xff\xfe", "\xc3", "\x00", "a\x00b", "\x7f", "\\", "\\n", "\\\"", "a\\", "'", "'a'", ";", "|", "null", "p", "g", "p, alice", "=", "$", "{}", "[section]", "%s", "%!s(MISSING)", "0", "-1",
	"\n#", "#\n", "\"#", "p\n p2", "\n\np, x, y, z\n", "p, a, b\n", "\\.", "a\"\n\"b", "\u200b",
}

func nastyValue(r *rt.PRNG) string {
	switch r.N(12) {
	case 0, 1, 2, 3, 4:
		return enc(pick(r, nasty))
	case 5, 6:
		return enc(pick(r, nasty) + pick(r, nasty))
	case 7:
		n := 1 + r.N(6)
		sb := strings.Builder{}
		for i := 0; i < n; i++ {
			sb.WriteString(pick(r, []string{",", "\"", "\n", " ", "#", "a", "b", "\t", "\\", "'", "ä"}))
		}
		return enc(sb.String())
	case 8:
		if r.P(1, 6) {
			return fmt.Sprintf("@%d:%s", pick(r, []int{100, 4095, 4096, 4097, 5000, 9000, 65535, 65536, 70000, 140000}), enc(pick(r, []string{"x", "ab", "\"", "a,b ", "\n", "ä"})))
		}
		return enc(pick(r, nasty))
	default:
		return pick(r, []string{"alice", "bob", "data1", "read", "x"})
	}
}

func fileRule(r *rt.PRNG, special bool) []string {
	val := func() string {
		if special {
			return nastyValue(r)
		}
		return pick(r, []string{"alice", "bob", "carol", "data1", "data2", "read", "write", "a b", "x,y", "multi\\nline"})
	}
	k := pick(r, []string{"p", "p", "p", "p2", "g"})
	n := 3
	switch k {
	case "g":
		n = 2
	case "p2":
		n = 1 + r.N(5)
	}
	rule := []string{k}
	for i := 0; i < n; i++ {
		rule = append(rule, val())
	}
	if k == "p2" && r.P(1, 30) {
		return []string{"p2"}
	}
	return rule
}

type fileWorld struct{}

func fileFaults(r *rt.PRNG, prop, op string) []sos.Fault {
	n := r.N(14)
	kinds := []string{"eio", "eio", "enospc", "enospc", "emfile", "eacces", "short-write", "short-write", "eintr-read", "crash", "crash-after", "torn-crash", "power", "power", "power-after", "torn-power"}
	if prop == "C06" {
		kinds = []string{"eintr-read", "eintr-read", "eintr-read", "eio", "eio", "short-write", "enospc", "emfile"}
	}
	if op == "load" {
		n = r.N(5)
		kinds = []string{"eio", "eintr-read", "emfile", "eacces", "eintr-read", "crash"}
		if prop == "C06" {
			kinds = kinds[:5]
		}
	}
	k := pick(r, kinds)
	switch k {
	case "short-write", "torn-crash", "torn-power":
		n = r.N(2) * r.N(3)
	case "eintr-read":
		n = r.N(2) * r.N(5)
	}
	res := []sos.Fault{{N: n, Kind: k, Arg: r.N(100000)}}
	if r.P(1, 3) {
		res = append(res, sos.Fault{N: n + 1 + r.N(4), Kind: pick(r, kinds), Arg: r.N(1000)})
	}
	return res
}

func (fileWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	c := &Case{Cfg: map[string]int{}, Order: r.U64()}
	special := prop == "C06" || r.P(1, 6)
	big := 0
	switch {
	case r.P(1, 150):
		big = 1200 // more than 64 KB
	case r.P(1, 12):
		big = 60 // more than one page
	}
	c.Cfg["existing"] = 1
	if r.P(1, 8) {
		c.Cfg["existing"] = 0
	}
	if prop == "C06" && r.P(1, 2) {
		c.Cfg["short"] = 1 + r.N(1000)
	}
	if r.P(1, 10) {
		c.Cfg["leftover"] = 1
	}
	c.Cfg["big"] = big
	if r.P(1, 4) {
		c.Cfg["path"] = 1 + r.N(4)
	}
	recent := [][]string{}
	rule := func() []string {
		if len(recent) > 0 && r.P(2, 5) {
			return copyRule(pick(r, recent))
		}
		x := fileRule(r, special)
		recent = append(recent, x)
		return x
	}
	for i := r.N(6); i > 0; i-- {
		c.Rules = append(c.Rules, rule())
	}
	n := 2 + r.N(8)
	den := 2
	if prop == "C06" {
		den = 6
	}
	for i := 0; i < n; i++ {
		op := Op{K: pick(r, []string{"save", "save", "add", "add", "remove", "adds", "removes", "load", "enforcer", "power"})}
		if r.P(1, 12) {
			op.K = "edit"
		}
		switch op.K {
		case "add", "remove":
			op.R = rule()
		case "adds", "removes":
			j := r.N(5)
			if r.P(1, 25) { // a program could write in blocks
				j = roundSize(r, pick(r, []int{50, 128, 300}))
			}
			for ; j > 0; j-- {
				op.RR = append(op.RR, rule())
			}
		case "save", "enforcer":
			for j := r.N(7); j > 0; j-- {
				op.RR = append(op.RR, rule())
			}
			if big > 0 && r.P(1, 2) {
				op.N = big + r.N(big)
			}
			op.B = r.P(1, 2) // through a model
		case "power":
			op.N = r.N(1000)
			if !r.P(1, 3) {
				op.K = "load"
				op.S = pick(r, []string{"", "", "refuse"})
				op.N = 1 + r.N(6)
			}
		}
		if op.K == "edit" {
			op.O = r.U64()
		}
		if op.K != "power" && op.K != "edit" && r.P(1, den) {
			op.F = fileFaults(r, prop, op.K)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type fileRun struct {
	e       *Env
	path    string  // the name of the policy file
	cur     RuleSet // nil: no file
	durable []RuleSet
	others  map[string]string
}

func padding(n int) [][]string {
	res := [][]string{}
	for i := 0; i < n; i++ {
		res = append(res, []string{"p", fmt.Sprintf("user-%d-%s", i*7919%1000, strings.Repeat("x", i%40)), fmt.Sprintf("object%d", i), "read"})
	}
	return res
}

func same(a, b RuleSet) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.equal(b)
}

func (r *fileRun) read() (RuleSet, error) {
	if _, ok := r.e.Disk.Content(filePath); !ok {
		return nil, nil
	}
	short := r.e.Disk.ShortReads
	r.e.Disk.ShortReads = 0
	set, err := readFile(r.e, filePath)
	r.e.Disk.ShortReads = short
	return set, err
}

func brief(s RuleSet) string {
	if s == nil {
		return "no file"
	}
	t := s.String()
	if len(t) > 600 {
		t = t[:600] + "..."
	}
	return t
}

func (fileWorld) Run(e *Env) {
	if e.C.Cfg["big"] > 100 {
		e.limit = 5000000
	}
	r := &fileRun{e: e, path: []string{filePath, "policy.csv", "./policy.csv", "../data/policy.csv", "/data//policy.csv"}[e.C.Cfg["path"]], others: map[string]string{
		"/data/other.csv": "p, other, data, read\n", "/data/policy.csv.bak": "p, backup, data, read\n",
		"/data/policy": "keep", "/tmp/policy.csv": "keep",
	}}
	for p, d := range r.others {
		e.Disk.Put(p, []byte(d))
	}
	e.Disk.ShortReads = e.C.Cfg["short"]
	initial := append(decRules(e.C.Rules), padding(e.C.Cfg["big"])...)
	if e.C.Cfg["existing"] == 1 {
		e.Disk.Put(filePath, nil)
		r.cur = RuleSet{}
		r.durable = []RuleSet{r.cur}
		r.op("initial save", Op{K: "save"}, initial)
		e.Disk.ShortReads = e.C.Cfg["short"]
	} else {
		r.durable = []RuleSet{nil}
	}
	if e.C.Cfg["leftover"] == 1 {
		// as left behind by a process, which was stopped while it saved
		e.Disk.Put(filePath+".tmp", []byte("p, left, over, re"))
		e.Probe("leftover-temporary-file")
	}
	for i, op := range e.C.Ops {
		r.op(fmt.Sprintf("operation %d (%s)", i, op.K), op, nil)
		if r.cur == nil {
			e.State("none")
		} else {
			e.State(r.cur.keys()...)
		}
	}
	// faults have stopped
	r.lines()
	r.op("the final save", Op{K: "save", RR: [][]string{{"p", "last", "data1", "read"}}}, nil)
	r.op("the final load", Op{K: "load"}, nil)
}

// lines loads the file line by line with the function, which other adapters use
func (r *fileRun) lines() {
	r.e.Disk.Begin(nil)
	for _, x := range r.cur {
		if strings.ContainsAny(strings.Join(x, ""), "\n\r") {
			return
		}
	}
	data, ok := r.e.Disk.Content(filePath)
	if !ok || len(data) > 1<<16 {
		return
	}
	data = bytes.ReplaceAll(data, []byte("\r\n"), []byte("\n"))
	got := RuleSet{}
	var err error
	loaded := &collector{}
	r.e.Call("lines", func() {
		for _, line := range strings.Split(string(data), "\n") {
			if err = adapter.LoadPolicyLine(line, loaded); err != nil {
				return
			}
		}
	})
	for _, x := range loaded.rules {
		got.add(x)
	}
	if err != nil || !got.equal(r.cur) {
		r.e.FailFor("C06", "lines", "loading the saved file line by line: error %v, %s", err, diff(r.cur, got))
	}
	r.e.Probe("loaded-line-by-line")
	// a user adds comments and empty lines
	rnd := rt.NewPRNG(rt.Mix(r.e.C.Order, uint64(len(data))))
	text := ""
	for _, line := range strings.Split(string(data), "\n") {
		for rnd.P(1, 3) {
			text += pick(rnd, []string{"", "#", "# comment", "#p, mallory, data1, read", "# \"unbalanced", "#,,"}) + "\n"
		}
		if line != "" {
			text += line + "\n"
		}
	}
	path := "/data/edited.csv"
	r.e.Disk.Put(path, []byte(text))
	whole, single := adapter.NewRuleSet(), adapter.NewRuleSet()
	var err2 error
	r.e.Call("edited", func() {
		err2 = adapter.NewFileAdapter(path).LoadPolicy(whole)
		for _, line := range strings.Split(text, "\n") {
			if err = adapter.LoadPolicyLine(line, single); err != nil {
				return
			}
		}
	})
	if got := newSet(whole.Rules()); err2 != nil || !got.equal(r.cur) {
		r.e.FailFor("C06", "comments", "loading the file with additional comments %q: error %v, %s", text, err2, diff(r.cur, got))
	}
	if got := newSet(single.Rules()); err != nil || !got.equal(r.cur) {
		r.e.FailFor("C06", "comments", "loading the file with additional comments %q line by line: error %v, %s", text, err, diff(r.cur, got))
	}
	r.e.Disk.Delete(path)
	if n := len(loaded.rules); n > 0 {
		c := &refusing{&collector{}, 1 + n/2}
		refused := 0
		r.e.Call("lines", func() {
			for _, line := range strings.Split(string(data), "\n") {
				if adapter.LoadPolicyLine(line, c) != nil {
					refused++
				}
			}
		})
		if refused != 1 {
			r.e.FailFor("C06", "lines", "a receiver refuses one rule of %d, loading line by line returns %d errors", n, refused)
		}
	}
}

func (r *fileRun) handles(what string) {
	if n := r.e.Disk.OpenHandles(); n > 0 {
		r.e.FailFor("C05", "open-handle", "%s: %d files are still open", what, n)
	}
}

func (r *fileRun) op(what string, op Op, rules [][]string) {
	e := r.e
	e.Disk.Begin(op.F)
	a := adapter.NewFileAdapter(r.path)
	arg := decRule(op.R)
	args := append(decRules(op.RR), rules...)
	args = append(args, padding(op.N)...)
	if op.K == "power" {
		args = nil
	}
	if op.K == "edit" {
		if r.cur != nil {
			e.Probe("file-edited-by-user")
			e.Disk.Put(filePath, []byte(edited(r.cur, rt.NewPRNG(op.O))))
			r.durable = []RuleSet{r.cur}
			if got, err := r.read(); err != nil || !same(got, r.cur) {
				e.FailFor("C06", "edited", "%s: the rules of an edited file are not loaded: %v, %s", what, err, diff(r.cur, got))
			}
		}
		return
	}
	var err error
	next := RuleSet{}
	loaded := &collector{}
	var m *model.Model
	var startedWith RuleSet
	fn := func() {}
	change := true
	needsFile := true
	if r.cur != nil {
		next = r.cur.clone()
	}
	switch op.K {
	case "add":
		next.add(arg)
		fn = func() { err = a.AddRule(copyRule(arg)) }
	case "remove":
		next.remove(arg)
		fn = func() { err = a.RemoveRule(copyRule(arg)) }
	case "adds":
		for _, x := range args {
			next.add(x)
		}
		fn = func() { err = a.AddRules(copyRules(args)) }
	case "removes":
		for _, x := range args {
			next.remove(x)
		}
		fn = func() { err = a.RemoveRules(copyRules(args)) }
	case "save":
		needsFile = false
		next = newSet(args)
		if op.B {
			fn = func() {
				m = newModel(rbacModel)
				enf, err2 := fastac.NewEnforcer(m, a, fastac.OptionStorage(false))
				if err2 != nil {
					panic(err2)
				}
				if err2 := enf.AddRules(args); err2 != nil {
					panic(err2)
				}
				err = enf.SavePolicy()
			}
		} else {
			fn = func() { err = a.SavePolicy(&collector{newSet(args).list()}) }
		}
	case "enforcer":
		// an enforcer with autosave
		for _, x := range args {
			next.add(x)
		}
		fn = func() {
			started := newModel(rbacModel)
			enf, err2 := fastac.NewEnforcer(started, r.path, fastac.OptionAutosave(true))
			if err2 != nil {
				err = err2
				return
			}
			startedWith = newSet(rulesOf(started))
			err = enf.AddRules(copyRules(args))
		}
	case "load":
		change = false
		fn = func() {
			switch {
			case op.S == "refuse":
				err = a.LoadPolicy(&refusing{loaded, op.N})
			case op.B:
				m = newModel(rbacModel)
				err = a.LoadPolicy(m)
			default:
				err = a.LoadPolicy(loaded)
			}
		}
	case "power":
		e.Fault("power-loss")
		e.Disk.PowerLoss(op.N)
		r.afterPower(what)
		return
	}
	if needsFile && r.cur == nil {
		if op.K == "load" || op.K == "enforcer" {
			e.Disk.Begin(nil)
			e.Call(op.K, fn)
			e.Probe("file-missing")
			if err == nil {
				e.FailFor("C06", "no-error", "%s: the policy file does not exist, but it is loaded without error", what)
			}
			r.handles(what)
			if got, err := r.read(); err != nil || got != nil {
				e.FailFor("C06", "no-error", "%s: the policy file did not exist, but has now %s", what, brief(got))
			}
		}
		return // there is nothing to read
	}
	crashed := e.Call(op.K, fn)
	e.S.Event("%s %s", op.K, failed(err))
	if startedWith != nil && !startedWith.equal(r.cur) {
		e.FailFor("C06", "load", "%s: an enforcer started without error, but its rules are wrong: %s", what, diff(r.cur, startedWith))
	}
	fired := len(e.Disk.Last) > 0
	if fired {
		for _, f := range e.Disk.Last {
			if strings.Contains(f.Kind, "read") {
				e.Probe("read-error-after-a-part")
			}
		}
	}
	e.Disk.Begin(nil)
	if crashed {
		e.Probe("crash-within-operation")
		if e.crashMode == "power" {
			if change {
				r.durable = addPossible(r.durable, next)
			}
			r.afterPower(what)
			return
		}
		got, err := r.read()
		if err != nil {
			e.FailFor("C05", "unreadable", "%s: after a crash the policy file can not be loaded: %v", what, err)
		}
		if !same(got, r.cur) && !(change && same(got, next)) {
			e.FailFor("C05", "mixed", "%s: after a crash the policy file has %s, old rules %s, new rules %s", what, brief(got), brief(r.cur), brief(next))
		}
		if change {
			r.durable = addPossible(r.durable, next)
		}
		r.cur = got
		return
	}
	r.handles(what)
	refused := op.S == "refuse" && len(loaded.rules) >= op.N
	if refused {
		e.Probe("receiver-refuses-a-rule")
		if err == nil {
			e.FailFor("C06", "hidden-error", "%s returned without error, but the rule %q was refused", what, loaded.rules[len(loaded.rules)-1])
		}
	} else if err != nil && !fired {
		e.FailFor("C05 C06", "error", "%s: unexpected error %v", what, err)
	}
	if !change {
		set := newSet(loaded.rules)
		if m != nil {
			set = newSet(rulesOf(m))
		}
		if err == nil && !set.equal(r.cur) {
			e.FailFor("C06", "load", "%s returned without error, but the rules are wrong: %s", what, diff(r.cur, set))
		}
		if err == nil && fired {
			e.Probe("load-succeeds-despite-fault")
		}
		if got, err := r.read(); err != nil || !same(got, r.cur) {
			e.FailFor("C05 C06", "changed-by-load", "%s: the policy file has changed: %v %s", what, err, diff(r.cur, got))
		}
		r.otherFiles(what)
		return
	}
	got, rerr := r.read()
	if rerr != nil {
		e.FailFor("C05 C06", "unreadable", "%s (%s): afterwards the policy file can not be loaded: %v", what, failed(err), rerr)
	}
	if err == nil {
		if !same(got, next) {
			if got == nil {
				e.FailFor("C05 C06", "missing", "%s returned without error, but there is no policy file", what)
			}
			e.FailFor("C06 C05", "wrong-rules", "%s returned without error, but the file gives back other rules: %s", what, diff(next, got))
		}
		if op.K == "save" || !same(r.cur, next) { // without a change nothing has to be written
			r.durable = []RuleSet{next}
		}
	} else {
		e.Probe("save-failed")
		if !same(got, r.cur) && !same(got, next) {
			e.FailFor("C05 C06", "mixed", "%s failed, and the policy file has %s, old rules %s, new rules %s", what, brief(got), brief(r.cur), brief(next))
		}
		r.durable = addPossible(r.durable, next)
		if got != nil {
			r.durable = addPossible(r.durable, got)
		}
	}
	r.cur = got
	r.otherFiles(what)
}

// edited is a file with the given rules, as a user could have written it
func edited(set RuleSet, r *rt.PRNG) string {
	sep := pick(r, []string{",", ", ", ",\t", ",  "})
	end := pick(r, []string{"\n", "\n", "\r\n"})
	quote := pick(r, []int{0, 0, 1, 3})
	lines := []string{}
	rules := set.list()
	for i := len(rules) - 1; i > 0; i-- {
		j := r.N(i + 1)
		rules[i], rules[j] = rules[j], rules[i]
	}
	for _, rule := range rules {
		if r.P(1, 8) {
			lines = append(lines, pick(r, []string{"", "#", "# comment", "#p, mallory, data1, read", "# \"unbalanced", "#,,"}))
		}
		values := []string{}
		for _, v := range rule {
			if r.P(quote, 3) || v == "" && r.P(1, 2) || strings.ContainsAny(v, ",\"\r\n") || strings.TrimSpace(v) != v || strings.HasPrefix(v, "#") {
				v = `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
			}
			values = append(values, v)
		}
		lines = append(lines, strings.Join(values, sep))
	}
	text := strings.Join(lines, end)
	if r.P(1, 2) {
		text += end
	}
	return text
}

func (r *fileRun) otherFiles(what string) {
	for p, d := range r.others {
		got, ok := r.e.Disk.Content(p)
		if !ok || string(got) != d {
			r.e.FailFor("C05", "other-file", "%s: the file %s was changed", what, p)
		}
	}
}

// refusing is a receiver, which refuses the n-th rule
type refusing struct {
	*collector
	n int
}

func (c *refusing) AddRule(rule []string) (bool, error) {
	_, _ = c.collector.AddRule(rule)
	if len(c.rules) == c.n {
		return false, fmt.Errorf("refused")
	}
	return true, nil
}

func addPossible(list []RuleSet, s RuleSet) []RuleSet {
	for _, o := range list {
		if same(o, s) {
			return list
		}
	}
	return append(list, s)
}

func (r *fileRun) afterPower(what string) {
	e := r.e
	got, err := r.read()
	if err != nil {
		e.FailFor("C05", "unreadable", "%s: after a power loss the policy file can not be loaded: %v", what, err)
	}
	ok := false
	for _, o := range r.durable {
		ok = ok || same(o, got)
	}
	if !ok {
		l := []string{}
		for _, o := range r.durable {
			l = append(l, brief(o))
		}
		e.FailFor("C05", "not-durable", "%s: after a power loss the policy file has %s, possible are %s", what, brief(got), strings.Join(l, " or "))
	}
	r.cur = got
	r.durable = []RuleSet{got}
}

// ---- World "damage" (C07)

type damageWorld struct{}

func (damageWorld) Gen(r *rt.PRNG, prop string, index int) *Case {
	c := &Case{Cfg: map[string]int{}, Order: r.U64()}
	c.Cfg["quoted"] = 0
	if r.P(1, 5) {
		c.Cfg["quoted"] = 1
	}
	c.Cfg["autosave"] = r.N(2)
	c.Cfg["nostorage"] = 0
	if r.P(1, 5) {
		c.Cfg["nostorage"] = 1
	}
	if r.P(1, 40) {
		c.Cfg["big"] = 100
	}
	c.Cfg["effect"] = 0 // rules have an effect
	if r.P(1, 3) {
		c.Cfg["effect"] = 1 + r.N(3)
	}
	rule := func(special bool) []string {
		x := stRule(r, special)
		if c.Cfg["effect"] > 0 && x[0] == "p" && !r.P(1, 10) {
			x = append(x, pick(r, []string{"allow", "deny", "deny", "other"}))
		}
		return x
	}
	n := 1 + r.N(10)
	for i := 0; i < n; i++ {
		x := rule(c.Cfg["quoted"] == 1)
		for j := range x {
			x[j] = enc(x[j])
		}
		c.Rules = append(c.Rules, x)
	}
	for i := r.N(3); i > 0; i-- { // rules in memory before the load
		c.Ops = append(c.Ops, Op{K: "before", R: rule(false)})
	}
	junk := func() string {
		switch r.N(6) {
		case 0:
			return enc(pick(r, nasty))
		case 1:
			return enc(pick(r, []string{"\n", "\"", ",", "#", "\x00", "\xff", "\r", "\r\n", "p", "g", "g,", "\ng, x\n", "\np\n", "\n,\n", "\n\"\"\n", "g\n", "\ng\n", "\np9, a\n", "\nx, y\n", ", , , ,", "\np, alice, d1\n", "\ng, a, b, c\n", "\ng, a, b, c, d\n", "\n \n"}))
		default:
			k := 1 + r.N(12)
			b := make([]byte, k)
			for i := range b {
				if r.P(1, 2) {
					b[i] = pick(r, []byte{',', '"', '\n', '#', ' ', 'p', 'g', 0, 255, '\r'})
				} else {
					b[i] = byte(r.N(256))
				}
			}
			return enc(string(b))
		}
	}
	op := Op{K: "damage", S: pick(r, []string{"truncate", "flip", "flip", "overwrite", "overwrite", "insert", "insert", "delete", "none"}), N: r.N(100000), S2: junk()}
	op.O = r.U64()
	c.Ops = append(c.Ops, op)
	for i := 1 + r.N(8); i > 0; i-- {
		op := Op{K: pick(r, []string{"add", "add", "remove", "remove", "removeloaded", "addloaded", "enforce", "enforce", "reload"}), N: r.N(1000)}
		op.R = rule(false)
		c.Ops = append(c.Ops, op)
	}
	return c
}

// damageModel is rbacModel, or a variant with effects
func damageModel(effect int) string {
	if effect == 0 {
		return rbacModel
	}
	text := strings.Replace(rbacModel, "p = sub, obj, act\n", "p = sub, obj, act, eft\n", 1)
	return strings.Replace(text, "some(where (p.eft == allow))", []string{
		"some(where (p.eft == allow))",
		"!some(where (p.eft == deny))",
		"some(where (p.eft == allow)) && !some(where (p.eft == deny))",
	}[effect-1], 1)
}

// damageDecide is the reference of damageModel
func damageDecide(effect int, mem RuleSet, sub, obj, act string) bool {
	if effect == 0 {
		return rbacDecide(mem, sub, obj, act)
	}
	allow, deny := false, false
	n := 0
	for _, x := range mem {
		if x[0] != "p" {
			continue
		}
		n++
		if !rbacDecide(part(mem, x), sub, obj, act) {
			continue
		}
		if len(x) < 5 || x[4] == "" || x[4] == "allow" {
			allow = true
		} else if x[4] == "deny" {
			deny = true
		}
	}
	if n == 0 {
		allow = rbacDecide(mem, sub, obj, act)
	}
	switch effect {
	case 1:
		return allow
	case 2:
		return !deny
	}
	return allow && !deny
}

// part has the grants of mem and a single rule
func part(mem RuleSet, rule []string) RuleSet {
	res := RuleSet{}
	for _, x := range mem {
		if x[0] == "g" {
			res.add(x)
		}
	}
	res.add(rule)
	return res
}

// splitAdapter loads from the file, and records changes elsewhere
type splitAdapter struct {
	simpleAdapter
	file *adapter.FileAdapter
}

func (a *splitAdapter) LoadPolicy(m api.IAddRuleBool) error { return a.file.LoadPolicy(m) }

func (damageWorld) Run(e *Env) {
	rules := append(decRules(e.C.Rules), padding(e.C.Cfg["big"])...)
	set := newSet(rules)
	var err error
	e.Disk.Begin(nil)
	// one file per rule gives the text of every record
	records := [][]byte{}
	list := set.list()
	for i, x := range list {
		if i > 15 {
			break
		}
		e.Call("save", func() { err = adapter.NewFileAdapter("/data/one.csv").SavePolicy(&collector{[][]string{x}}) })
		if err != nil {
			return // C05 and C06
		}
		d, _ := e.Disk.Content("/data/one.csv")
		records = append(records, d)
	}
	e.Call("save", func() { err = adapter.NewFileAdapter(filePath).SavePolicy(&collector{list}) })
	if err != nil {
		return
	}
	data, _ := e.Disk.Content(filePath)

	store := &memStore{e: e}
	a := &splitAdapter{simpleAdapter{baseAdapter{store}}, adapter.NewFileAdapter(filePath)}
	var m *model.Model
	var enf *fastac.Enforcer
	enabled, autosave := e.C.Cfg["nostorage"] == 0, e.C.Cfg["autosave"] == 1
	e.Call("new", func() {
		m = newModel(damageModel(e.C.Cfg["effect"]))
		enf, err = fastac.NewEnforcer(m, a, fastac.OptionAutosave(autosave), fastac.OptionStorage(enabled))
	})
	if err != nil {
		e.FailFor("C07", "error", "NewEnforcer: %v", err)
	}
	mem := RuleSet{}
	queue := []change{}
	seen := 0
	// stored compares what storage has received
	stored := func(what string, pending bool) {
		news := store.log[seen:]
		seen = len(store.log)
		want := queue
		if pending {
			want = nil
		}
		if fmt.Sprint(news) != fmt.Sprint(want) {
			e.FailFor("C07", "tracking", "%s: storage received %v, expected %v (autosave %v, tracking %v)", what, news, want, autosave, enabled)
		}
		if !pending {
			queue = nil
		}
	}
	changeRule := func(what string, add bool, x []string, strict bool) {
		var ok bool
		var err error
		store.begin(nil)
		e.Call(what, func() {
			if add {
				ok, err = enf.AddRule(copyRule(x))
			} else {
				ok, err = enf.RemoveRule(copyRule(x))
			}
		})
		want := false
		if add {
			want = mem.add(x)
		} else {
			want = mem.remove(x)
		}
		if err != nil || ok != want {
			e.FailFor("C07", "change", "%s %q: %v %v, expected %v", what, x, ok, err, want)
		}
		if want && enabled {
			queue = append(queue, change{add, x})
		}
		stored(what, !(want && enabled && autosave))
		if got := newSet(rulesOf(m)); !got.equal(mem) {
			e.FailFor("C07", "memory", "%s %q: the rules in effect are wrong: %s", what, x, diff(mem, got))
		}
	}
	clean := func() bool {
		for _, x := range mem {
			switch x[0] {
			case "p":
				if len(x) != 4 && (e.C.Cfg["effect"] == 0 || len(x) != 5) {
					return false
				}
			case "g":
				if len(x) != 3 {
					return false
				}
			}
		}
		return true
	}
	load := func(what string, data []byte, undamaged [][]string) {
		var err error
		store.begin(nil)
		e.Call("load", func() { err = enf.LoadPolicy() })
		e.S.Event("load %s", failed(err))
		list := rulesOf(m)
		got := newSet(list)
		if len(list) != len(got) {
			e.FailFor("C07", "duplicates", "%s: a rule is listed twice: %q", what, list)
		}
		for k, x := range mem {
			if _, ok := got[k]; !ok {
				e.FailFor("C07", "lost", "%s: the rule %q is gone", what, x)
			}
		}
		if err == nil {
			e.Probe("damaged-load-succeeds")
			for _, x := range undamaged {
				if !got.has(x) {
					e.FailFor("C07", "skipped", "%s returned without error, but the undamaged line %q was not loaded from %q", what, x, tail(string(data), 1500))
				}
			}
		} else {
			e.Probe("damaged-load-fails")
		}
		if n := e.Disk.OpenHandles(); n > 0 {
			e.FailFor("C07", "open-handle", "%s: %d files are still open", what, n)
		}
		mem = got
		stored(what, true)
		e.State(mem.keys()...)
	}

	var undamaged [][]string
	for i, op := range e.C.Ops {
		what := fmt.Sprintf("operation %d (%s)", i, op.K)
		switch op.K {
		case "before":
			changeRule(what, true, op.R, true)
		case "damage":
			lo, hi := 0, 0
			junk := []byte(dec(op.S2))
			out := append([]byte{}, data...)
			if len(data) == 0 {
				return
			}
			pos := op.N % len(data)
			switch op.S {
			case "truncate":
				out = out[:pos]
				lo, hi = pos, len(data)
			case "flip":
				out[pos] ^= 1 << (op.O % 8)
				lo, hi = pos, pos+1
			case "overwrite":
				n := copy(out[pos:], junk)
				lo, hi = pos, pos+n
			case "insert":
				pos = op.N % (len(data) + 1)
				out = append(append(append([]byte{}, data[:pos]...), junk...), data[pos:]...)
				lo, hi = pos, pos
			case "delete":
				hi = pos + 1 + int(op.O%8)
				if hi > len(data) {
					hi = len(data)
				}
				out = append(out[:pos:pos], data[hi:]...)
				lo = pos
			}
			if op.S != "none" {
				e.Fault("damage-" + op.S)
			}
			e.Disk.Put(filePath, out)
			undamaged = nil
			if e.C.Cfg["quoted"] == 0 {
				// a record is undamaged, if it, its line end and the one before it are
				for j, rec := range records {
					at := bytes.Index(append([]byte{'\n'}, data...), append([]byte{'\n'}, rec...))
					if at < 0 {
						continue
					}
					start, end := at, at+len(rec) // end: behind the line end
					before := start - 1
					intact := hi <= before || lo >= end
					if op.S == "insert" {
						intact = lo < start || lo >= end
						if lo == before {
							intact = false
						}
					}
					if op.S == "none" {
						intact = true
					}
					if intact {
						undamaged = append(undamaged, list[j])
					}
				}
			}
			// an odd number of quotes at the damage spoils everything behind it,
			// which the loader has to notice
			load(what, out, undamaged)
		case "reload":
			if d, ok := e.Disk.Content(filePath); ok {
				load(what, d, undamaged)
			}
		case "add":
			changeRule(what, true, op.R, true)
		case "remove":
			changeRule(what, false, op.R, true)
		case "removeloaded", "addloaded":
			ks := mem.keys()
			if len(ks) == 0 {
				continue
			}
			x := mem[ks[op.N%len(ks)]]
			changeRule(what, op.K == "addloaded", x, false)
		case "enforce":
			q := stRequests[op.N%len(stRequests)]
			var ok bool
			var err error
			e.Call("enforce", func() { ok, err = enf.Enforce(q[0], q[1], q[2]) })
			if !clean() {
				e.Probe("odd-rules-loaded")
				continue
			}
			if want := damageDecide(e.C.Cfg["effect"], mem, q[0], q[1], q[2]); err != nil || ok != want {
				e.FailFor("C07", "decision", "%s: the request %q is decided %v %v, by the rules %v it is %v", what, q, ok, err, mem, want)
			}
		}
	}
	// what is pending still reaches storage
	if enabled {
		var err error
		e.Call("flush", func() { err = enf.Flush() })
		if err != nil {
			e.FailFor("C07", "flush", "flush: %v", err)
		}
		stored("the final flush", false)
	}
}
