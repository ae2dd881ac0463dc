package rt

import "reflect"

// Channels of the instrumented code. A real channel only identifies the
// simulated one, unless code outside the simulation (timers) uses it, too.

type chanState struct {
	ref    interface{} // keeps the channel alive, so its address is not reused
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     VC
}

type waiter struct {
	op  *chanOp
	i   int
	val interface{}
}

type chanOp struct {
	done bool
	i    int
	val  interface{}
	ok   bool
}

// Case is an alternative of a select statement
type Case struct {
	ptr  uintptr
	ref  interface{}
	send bool
	val  interface{}
	cap  int
	len  func() int
	real func() (v interface{}, ok bool, got bool) // non-blocking operation on the real channel
	wait func() (v interface{}, ok bool)           // blocking operation on the real channel
}

func (s *Sim) channel(c *Case) *chanState {
	if c.ptr == 0 {
		return nil
	}
	st := s.chans[c.ptr]
	if st == nil {
		st = &chanState{ref: c.ref}
		if s.chans == nil {
			s.chans = map[uintptr]*chanState{}
		}
		s.chans[c.ptr] = st
	}
	return st
}

func next(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.op.done {
			return w
		}
	}
	return nil
}

func drop(q *[]*waiter, op *chanOp) {
	res := (*q)[:0:0]
	for _, w := range *q {
		if w.op != op {
			res = append(res, w)
		}
	}
	*q = res
}

// try performs the operation, if it does not have to wait
func (s *Sim) try(c *Case) (v interface{}, ok bool, got bool) {
	st := s.channel(c)
	if st == nil {
		return nil, false, false
	}
	if c.send {
		if st.closed {
			panic("send on closed channel")
		}
		if w := next(&st.recvq); w != nil {
			w.op.done, w.op.i, w.op.val, w.op.ok = true, w.i, c.val, true
			return nil, true, true
		}
		if len(st.buf)+c.len() < c.cap {
			st.buf = append(st.buf, c.val)
			return nil, true, true
		}
		return nil, false, false
	}
	if v, ok, got = c.real(); got {
		return v, ok, true
	}
	if len(st.buf) > 0 {
		v = st.buf[0]
		st.buf = st.buf[1:]
		if !st.closed {
			if w := next(&st.sendq); w != nil {
				st.buf = append(st.buf, w.val)
				w.op.done, w.op.i = true, w.i
			}
		}
		return v, true, true
	}
	if st.closed {
		return nil, false, true // waiting senders panic
	}
	if w := next(&st.sendq); w != nil {
		w.op.done, w.op.i = true, w.i
		return w.val, true, true
	}
	return nil, false, false
}

// Got is the outcome of a select statement
type Got struct {
	val interface{}
	ok  bool
}

// Select performs one of the cases; it returns -1 for the default case
func Select(def bool, cases ...*Case) (int, Got) {
	s := active
	if s == nil {
		return realSelect(def, cases)
	}
	if Dead() {
		if len(cases) == 0 {
			return -1, Got{}
		}
		return 0, Got{}
	}
	s.yield(-1)
	for _, c := range cases {
		if st := s.channel(c); st != nil {
			st.vc.Release()
		}
	}
	order := []int{0}
	if len(cases) != 1 {
		order = Perm(len(cases))
	}
	for _, i := range order {
		if v, ok, got := s.try(cases[i]); got {
			if st := s.channel(cases[i]); st != nil {
				st.vc.Acquire()
			}
			return i, Got{v, ok}
		}
	}
	if def {
		return -1, Got{}
	}
	op := &chanOp{}
	for i, c := range cases {
		if st := s.channel(c); st != nil {
			w := &waiter{op, i, c.val}
			if c.send {
				st.sendq = append(st.sendq, w)
			} else {
				st.recvq = append(st.recvq, w)
			}
		}
	}
	defer func() {
		for _, c := range cases {
			if st := s.channel(c); st != nil {
				drop(&st.sendq, op)
				drop(&st.recvq, op)
			}
		}
	}()
	s.Block("a channel", func() bool {
		if op.done {
			return true
		}
		for i, c := range cases {
			st := s.channel(c)
			if st == nil {
				continue
			}
			if c.send && st.closed {
				op.done, op.i = true, i
				return true
			}
			if !c.send {
				if v, ok, got := c.real(); got {
					op.done, op.i, op.val, op.ok = true, i, v, ok
					return true
				}
				if st.closed {
					op.done, op.i = true, i
					return true
				}
			}
		}
		return false
	})
	if !op.done {
		return -1, Got{} // the task has been stopped
	}
	c := cases[op.i]
	st := s.channel(c)
	if c.send && st.closed && !op.ok {
		// woken up by close, unless a receiver has taken the value before
		for _, w := range st.sendq {
			if w.op == op {
				panic("send on closed channel")
			}
		}
	}
	st.vc.Acquire()
	return op.i, Got{op.val, op.ok}
}

func realSelect(def bool, cases []*Case) (int, Got) {
	if len(cases) == 1 && !def {
		v, ok := cases[0].wait()
		return 0, Got{v, ok}
	}
	for {
		for i, c := range cases {
			if c.ptr != 0 {
				if v, ok, got := c.real(); got {
					return i, Got{v, ok}
				}
			}
		}
		if def {
			return -1, Got{}
		}
	}
}

func pointer(c interface{}) uintptr { return reflect.ValueOf(c).Pointer() }

// CaseSend is the case "c <- v"
func CaseSend[T any](c chan<- T) func(v T) *Case {
	return func(v T) *Case {
		return &Case{
			ptr: pointer(c), ref: c, send: true, val: v, cap: cap(c),
			len: func() int { return len(c) },
			real: func() (interface{}, bool, bool) {
				select {
				case c <- v:
					return nil, true, true
				default:
					return nil, false, false
				}
			},
			wait: func() (interface{}, bool) { c <- v; return nil, true },
		}
	}
}

// CaseRecv is the case "<-c"
func CaseRecv[T any](c <-chan T) *Case {
	return &Case{
		ptr: pointer(c), ref: c, cap: cap(c),
		len: func() int { return len(c) },
		real: func() (interface{}, bool, bool) {
			select {
			case v, ok := <-c:
				return v, ok, true
			default:
				return nil, false, false
			}
		},
		wait: func() (interface{}, bool) { v, ok := <-c; return v, ok },
	}
}

// Send is the statement "c <- v"
func Send[T any](c chan<- T) func(v T) {
	return func(v T) { Select(false, CaseSend(c)(v)) }
}

// Recv is the expression "<-c"
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is the expression "<-c" in "v, ok := <-c"
func Recv2[T any](c <-chan T) (T, bool) {
	_, g := Select(false, CaseRecv(c))
	return Value2(c, g)
}

// Value is the value received by a select statement
func Value[T any](c <-chan T, g Got) T {
	v, _ := g.val.(T)
	return v
}

// Value2 is the value received by a select statement
func Value2[T any](c <-chan T, g Got) (T, bool) {
	v, _ := g.val.(T)
	return v, g.ok
}

// Close closes the channel
func Close[T any](c chan<- T) {
	s := active
	if s == nil || c == nil {
		close(c)
		return
	}
	if Dead() {
		return
	}
	s.yield(-1)
	st := s.channel(&Case{ptr: pointer(c), ref: c})
	if st.closed {
		panic("close of closed channel")
	}
	st.vc.Release()
	st.closed = true
}

// ChanLen is the number of buffered values
func ChanLen[T any](c <-chan T) int {
	if s := active; s != nil && c != nil {
		return len(c) + len(s.channel(&Case{ptr: pointer(c), ref: c}).buf)
	}
	return len(c)
}
