package main

import (
	"time"

	"zzsim.local/rt"
)

// minimise shrinks the case of a replay file. A smaller case is kept, if it
// shows a violation of the same class.
func minimise(r *Replay, budget time.Duration) {
	deadline := time.Now().Add(budget)
	best := r.Case.clone()
	msg := r.Message
	try := func(c *Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		o := runCase(c.clone(), false)
		if o.Class != r.Class {
			return false
		}
		best = c
		msg = o.Msg
		return true
	}
	// a schedule of its own, found anew after the operations changed
	trySched := func(c *Case) bool {
		if try(c) {
			return true
		}
		if len(best.Sched.Switches) == 0 {
			return false
		}
		for i := 0; i < 30; i++ {
			if time.Now().After(deadline) {
				return false
			}
			n := c.clone()
			n.Sched = rt.Sched{Mode: "rand", Seed: uint64(i + 1), Den: []int{2, 5, 12, 30}[i%4]}
			o := runCase(n.clone(), false)
			if o.Class == r.Class {
				n.Sched = rt.Sched{Mode: "replay", Switches: o.Res.Switches}
				if try(n) {
					return true
				}
			}
		}
		return false
	}

	for round := 0; round < 4; round++ {
		before := size(best)
		// operations: chunks, then single ones
		for chunk := len(best.Ops) / 2; chunk >= 1; chunk /= 2 {
			for i := 0; i+chunk <= len(best.Ops); {
				c := best.clone()
				c.Ops = append(c.Ops[:i:i], c.Ops[i+chunk:]...)
				if !trySched(c) {
					i++
				}
			}
		}
		// initial rules
		for chunk := len(best.Rules); chunk >= 1; chunk /= 2 {
			for i := 0; i+chunk <= len(best.Rules); {
				c := best.clone()
				c.Rules = append(c.Rules[:i:i], c.Rules[i+chunk:]...)
				if !trySched(c) {
					i += 1
				}
			}
		}
		// faults
		for i := range best.Ops {
			for j := 0; j < len(best.Ops[i].F); {
				c := best.clone()
				c.Ops[i].F = append(c.Ops[i].F[:j:j], c.Ops[i].F[j+1:]...)
				if !try(c) {
					j++
				}
			}
		}
		// bulk rules
		for i := range best.Ops {
			for j := 0; j < len(best.Ops[i].RR); {
				c := best.clone()
				c.Ops[i].RR = append(c.Ops[i].RR[:j:j], c.Ops[i].RR[j+1:]...)
				if !trySched(c) {
					j++
				}
			}
			for best.Ops[i].N > 4 {
				c := best.clone()
				c.Ops[i].N /= 2
				if !trySched(c) {
					break
				}
			}
			if best.Ops[i].O != 0 {
				c := best.clone()
				c.Ops[i].O = 0
				try(c)
			}
		}
		if best.Order != 0 {
			c := best.clone()
			c.Order = 0
			try(c)
		}
		// configuration
		for k, v := range best.Cfg {
			if v != 0 {
				c := best.clone()
				c.Cfg[k] = 0
				try(c)
			}
		}
		// schedule
		for chunk := len(best.Sched.Switches); chunk >= 1; chunk /= 2 {
			for i := 0; i+chunk <= len(best.Sched.Switches); {
				c := best.clone()
				c.Sched.Switches = append(c.Sched.Switches[:i:i], c.Sched.Switches[i+chunk:]...)
				if !try(c) {
					i += chunk
				}
			}
		}
		if size(best) == before || time.Now().After(deadline) {
			break
		}
	}
	r.Case = best
	r.Message = msg
	o := runCase(best.clone(), true)
	if o.Class == r.Class {
		r.Trace = o.Log
		r.Message = o.Msg
	}
}

func size(c *Case) int {
	n := len(c.Ops)*10 + len(c.Rules) + len(c.Sched.Switches)
	for _, op := range c.Ops {
		n += len(op.F) + len(op.RR) + len(op.R)
	}
	for _, v := range c.Cfg {
		if v != 0 {
			n++
		}
	}
	if c.Order != 0 {
		n++
	}
	return n
}
