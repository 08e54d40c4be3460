package props

import (
	"fmt"
	"testing"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// A subscriber follows a script: what it does with the 1st, 2nd, … rune event.
type subStep struct {
	Do  string `json:"do"` // match, wait (both stay active), accept, end (a match without penalties), abort (these are done)
	Pen []int  `json:"pen,omitempty"`
	Len int    `json:"len,omitempty"` // by how much a match grows; 0: by one
}

func (st subStep) grow() int { return max(1, st.Len) }

type pubOp struct {
	Op     string    `json:"op"` // own, pooled, fresh: subscribe; publish
	Script []subStep `json:"script,omitempty"`
	Rune   rune      `json:"rune,omitempty"`
	Class  int       `json:"class,omitempty"`
}

type event struct {
	r rune
	c int
}

// tracked is the model of a subscriber and, for kind "own", a subscriber.
type tracked struct {
	kind         string
	script       []subStep
	class        int
	at           int
	matchLen     int
	done         bool
	events       []event
	wantEvents   []event
	unsubscribed int
	rec          *uax.Recognizer
	foreign      string
}

func (x *tracked) step() subStep {
	if x.at < len(x.script) {
		return x.script[x.at]
	}
	return subStep{Do: "abort"}
}

// own implementation of uax.RuneSubscriber
type ownSubscriber struct{ *tracked }

func (s ownSubscriber) RuneEvent(r rune, c int) []int {
	s.events = append(s.events, event{r, c})
	st := s.step()
	s.at++
	switch st.Do {
	case "match":
		s.matchLen += st.grow()
	case "accept", "end":
		s.matchLen++
		s.done = true
		return st.Pen
	case "abort":
		s.matchLen, s.done = 0, true
	}
	return nil
}
func (s ownSubscriber) MatchLength() int { return s.matchLen }
func (s ownSubscriber) Done() bool       { return s.done }
func (s ownSubscriber) Unsubscribed()    { s.unsubscribed++ }

// state function of recognizers
func scriptFn(x *tracked) uax.NfaStateFn {
	return func(rec *uax.Recognizer, r rune, c int) uax.NfaStateFn {
		if rec != x.rec {
			x.foreign = fmt.Sprintf("state function called for recognizer %p, belongs to %p", rec, x.rec)
		}
		if rec.UserData != any(x) {
			x.foreign = fmt.Sprintf("user data of recognizer lost: %v", rec.UserData)
		}
		x.events = append(x.events, event{r, c})
		st := x.step()
		x.at++
		switch st.Do {
		case "match":
			rec.MatchLen += st.grow()
			return scriptFn(x)
		case "wait":
			return scriptFn(x)
		case "accept":
			return uax.DoAccept(rec, st.Pen...)
		case "end": // a match without a say in penalties
			rec.MatchLen++
			return nil
		}
		return uax.DoAbort(rec)
	}
}

var genSubScript = rapid.Custom(func(t *rapid.T) []subStep {
	var s []subStep
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
		st := subStep{Do: rapid.SampledFrom([]string{"match", "match", "wait"}).Draw(t, "do")}
		if st.Do == "match" && rapid.IntRange(0, 19).Draw(t, "grow") == 19 {
			st.Len = rapid.OneOf(rapid.IntRange(2, 300), rapid.SampledFrom([]int{0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x10000, 1<<31 - 1})).Draw(t, "by")
		}
		s = append(s, st)
	}
	last := subStep{Do: rapid.SampledFrom([]string{"accept", "accept", "accept", "abort", "end"}).Draw(t, "last")}
	if last.Do == "accept" {
		last.Pen = rapid.SliceOfN(rapid.IntRange(-3, 5), 0, 4).Draw(t, "pen")
		if rapid.IntRange(0, 60).Draw(t, "long") == 0 {
			for len(last.Pen) < 1100 {
				last.Pen = append(last.Pen, len(last.Pen)%7)
			}
		}
	}
	return append(s, last)
})

func TestPublisher(t *testing.T) {
	vh.Sub[[]pubOp]{
		Prop: "P13", Quick: 240000, Thorough: 6000000,
		Rule: "a history of subscriptions (own subscriber types, pooled and unpooled recognizers, each with a script of matching, waiting, accepting with penalties, aborting) and rune events, against a model of the publisher; non-trivial: at some event subscribers finish while others stay active",
		Gen: func(t *rapid.T) []pubOp {
			var ops []pubOp
			crowd, at := 0, 0
			if rapid.IntRange(0, 59).Draw(t, "crowd") == 59 {
				crowd, at = rapid.IntRange(10, 150).Draw(t, "size"), rapid.IntRange(0, 10).Draw(t, "at")
			}
			for i, n := 0, rapid.IntRange(1, 30).Draw(t, "n"); i < n; i++ {
				if i == at && crowd > 0 { // many subscribers at once, with few different scripts
					scripts := rapid.SliceOfN(genSubScript, 1, 4).Draw(t, "scripts")
					kind := rapid.SampledFrom([]string{"own", "pooled", "fresh"})
					first := len(ops)
					for k := 0; k < crowd; k++ {
						ops = append(ops, pubOp{Op: kind.Draw(t, "op"), Class: k, Script: rapid.SampledFrom(scripts).Draw(t, "script")})
					}
					if rapid.IntRange(0, 3).Draw(t, "really") == 3 {
						for group := ops[first:]; len(ops) < 1100; {
							ops = append(ops, group...)
						}
					}
				}
				o := pubOp{Op: rapid.SampledFrom([]string{"own", "pooled", "pooled", "fresh", "publish", "publish", "publish"}).Draw(t, "op")}
				if o.Op == "publish" {
					o.Rune = rapid.SampledFrom([]rune("abc\x00é😀")).Draw(t, "rune")
				} else {
					o.Script = genSubScript.Draw(t, "script")
				}
				o.Class = rapid.IntRange(-1, 20).Draw(t, "class")
				ops = append(ops, o)
			}
			return ops
		},
		Check: func(ops []pubOp) (vh.Obs, error) {
			var o vh.Obs
			pub := uax.NewRunePublisher()
			var all, active []*tracked
			var model []*tracked // model copies, same index as active
			for i, op := range ops {
				if op.Op != "publish" {
					x := &tracked{kind: op.Op, script: op.Script, class: op.Class}
					m := *x
					var sub uax.RuneSubscriber
					switch op.Op {
					case "own":
						sub = ownSubscriber{x}
					case "pooled":
						x.rec = uax.NewPooledRecognizer(op.Class, scriptFn(x))
						if r := x.rec; r.Expect != op.Class || r.MatchLen != 0 || r.UserData != nil || r.Done() || r.MatchLength() != 0 {
							return o, fmt.Errorf("op %d: pooled recognizer is not like a new one: expects %d, match length %d, user data %v, done %v", i, r.Expect, r.MatchLen, r.UserData, r.Done())
						}
						for _, a := range active {
							if a.rec == x.rec {
								return o, fmt.Errorf("op %d: recognizer is handed out by the pool, but still subscribed", i)
							}
						}
						sub = x.rec
					case "fresh":
						x.rec = uax.NewRecognizer(op.Class, scriptFn(x))
						if x.rec.Expect != op.Class {
							return o, fmt.Errorf("op %d: new recognizer expects %d, want %d", i, x.rec.Expect, op.Class)
						}
						sub = x.rec
					}
					if x.rec != nil {
						x.rec.UserData = any(x)
					}
					if pub.SubscribeMe(sub) != uax.RunePublisher(pub) {
						return o, fmt.Errorf("op %d: SubscribeMe returns a different publisher", i)
					}
					all, active, model = append(all, x), append(active, x), append(model, &m)
					if pub.Len() != len(active) {
						return o, fmt.Errorf("op %d: publisher has %d subscribers, want %d", i, pub.Len(), len(active))
					}
					continue
				}
				// model
				longest, total := 0, []int{}
				var stay, stayM []*tracked
				for k, m := range model {
					active[k].wantEvents = append(active[k].wantEvents, event{op.Rune, op.Class})
					st := m.step()
					m.at++
					switch st.Do {
					case "match":
						m.matchLen += st.grow()
					case "accept":
						m.done = true
						for j, p := range st.Pen {
							if j == len(total) {
								total = append(total, 0)
							}
							total[j] += p
						}
					case "abort", "end":
						m.done = true
					}
					if !m.done {
						longest = max(longest, m.matchLen)
						stay, stayM = append(stay, active[k]), append(stayM, m)
					}
				}
				o.NonTrivial = o.NonTrivial || len(stay) > 0 && len(stay) < len(active)
				o.Label(len(active)-len(stay) > 1, "several finish at once")
				o.Label(len(active) > 64, "more than 64 subscribers")
				o.Label(len(active) > 1024, "more than 1024 subscribers")
				gotLongest, gotPen := pub.PublishRuneEvent(op.Rune, op.Class)
				if gotLongest != longest {
					return o, fmt.Errorf("op %d: longest active match %d, want %d", i, gotLongest, longest)
				}
				if fmt.Sprint(gotPen) != fmt.Sprint(total) {
					return o, fmt.Errorf("op %d: penalties %v, want %v", i, gotPen, total)
				}
				active, model = stay, stayM
				if pub.Len() != len(active) {
					return o, fmt.Errorf("op %d: publisher holds %d subscribers, want %d", i, pub.Len(), len(active))
				}
				for k, x := range all {
					if x.foreign != "" {
						return o, fmt.Errorf("op %d: subscriber %d: %s", i, k, x.foreign)
					}
					if fmt.Sprint(x.events) != fmt.Sprint(x.wantEvents) {
						return o, fmt.Errorf("op %d: %s subscriber %d received %v, want %v", i, x.kind, k, x.events, x.wantEvents)
					}
					want := 1
					for _, a := range active {
						if a == x {
							want = 0
						}
					}
					if x.kind == "own" && x.unsubscribed != want {
						return o, fmt.Errorf("op %d: subscriber %d was told %d times that it is unsubscribed, want %d", i, k, x.unsubscribed, want)
					}
				}
			}
			return o, nil
		},
	}.Run(t)
}

type recCase struct {
	Pooled bool      `json:"pooled,omitempty"`
	Class  int       `json:"class,omitempty"`
	Script []subStep `json:"script"`
}

// TestRecognizer drives recognizers one after the other without a publisher.
func TestRecognizer(t *testing.T) {
	vh.Sub[[]recCase]{
		Prop: "P13", Quick: 90000, Thorough: 2000000,
		Rule: "up to 5 recognizers, pooled or not, each driven directly by rune events until its script ends, and then given back; state functions must be called one after the other, match length, state and penalties must follow the script, and a new recognizer must be clean; non-trivial: a pooled recognizer follows another one which accepted or aborted after a match",
		Gen: func(t *rapid.T) []recCase {
			return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) recCase {
				return recCase{rapid.IntRange(0, 3).Draw(t, "pooled") > 0, rapid.IntRange(-1, 20).Draw(t, "class"), genSubScript.Draw(t, "script")}
			}), 1, 5).Draw(t, "recognizers")
		},
		Check: func(c []recCase) (vh.Obs, error) {
			var o vh.Obs
			for k, rc := range c {
				x := &tracked{script: rc.Script, class: rc.Class}
				if rc.Pooled {
					x.rec = uax.NewPooledRecognizer(rc.Class, scriptFn(x))
				} else {
					x.rec = uax.NewRecognizer(rc.Class, scriptFn(x))
				}
				r := x.rec
				if r.Expect != rc.Class || r.MatchLen != 0 || r.UserData != nil || r.Done() || r.MatchLength() != 0 {
					return o, fmt.Errorf("recognizer %d is not clean: expects %d, match length %d, user data %v, done %v", k, r.Expect, r.MatchLen, r.UserData, r.Done())
				}
				r.UserData = any(x)
				length := 0
				for i, st := range rc.Script {
					ev := event{rune('a' + i), i}
					x.wantEvents = append(x.wantEvents, ev)
					pen := r.RuneEvent(ev.r, ev.c)
					var want []int
					done := true
					switch st.Do {
					case "match":
						length += st.grow()
						done = false
					case "wait":
						done = false
					case "accept":
						length++
						want = st.Pen
					case "end":
						length++
					case "abort":
						length = 0
					}
					if r.Done() != done || r.MatchLength() != length || fmt.Sprint(pen) != fmt.Sprint(want) {
						return o, fmt.Errorf("recognizer %d, event %d: done %v, match length %d, penalties %v, want %v, %d, %v", k, i, r.Done(), r.MatchLength(), pen, done, length, want)
					}
					if fmt.Sprint(x.events) != fmt.Sprint(x.wantEvents) || x.foreign != "" {
						return o, fmt.Errorf("recognizer %d, event %d: events %v, want %v; %s", k, i, x.events, x.wantEvents, x.foreign)
					}
				}
				o.NonTrivial = o.NonTrivial || k > 0 && rc.Pooled && len(c[k-1].Script) > 1
				r.Unsubscribed()
			}
			return o, nil
		},
	}.Run(t)
}

type queueOp struct {
	Op   string `json:"op"` // push, pop, popdone, fliptop (change the top's flag, and tell the queue), refix (tell it, without a change)
	Done bool   `json:"done,omitempty"`
	At   int    `json:"at,omitempty"`
}

type queued struct {
	id   int
	done bool
}

func (q *queued) RuneEvent(r rune, c int) []int { return nil }
func (q *queued) MatchLength() int              { return 1 }
func (q *queued) Done() bool                    { return q.done }
func (q *queued) Unsubscribed()                 {}

// TestQueue uses a publisher as a queue, which prefers subscribers that are done.
func TestQueue(t *testing.T) {
	vh.Sub[[]queueOp]{
		Prop: "P13", Quick: 150000, Thorough: 3000000,
		Rule: "a history of Push (of subscribers done or not done), Pop, PopDone and Fix (after a change of the top, or without any change), against a set as the model: the top must be a subscriber which is done, if there is one, Pop must remove the top, and PopDone nothing but subscribers which are done; non-trivial: subscribers of both kinds are in the queue when one is removed",
		Gen: func(t *rapid.T) []queueOp {
			var ops []queueOp
			kind := rapid.SampledFrom([]string{"push", "push", "push", "push", "pop", "popdone", "fliptop", "refix"})
			if rapid.Bool().Draw(t, "fill") {
				kind = rapid.SampledFrom([]string{"push", "push", "push", "push", "push", "push", "push", "pop", "popdone", "fliptop", "refix"})
			}
			for n := rapid.IntRange(1, 40).Draw(t, "n"); n > 0; n-- {
				o := queueOp{Op: kind.Draw(t, "op")}
				if o.Op == "push" {
					o.Done = rapid.Bool().Draw(t, "done")
				}
				if o.Op == "refix" {
					o.At = rapid.IntRange(0, 20).Draw(t, "at")
				}
				ops = append(ops, o)
			}
			return ops
		},
		Check: func(ops []queueOp) (vh.Obs, error) {
			var o vh.Obs
			pub := &uax.DefaultRunePublisher{}
			in := map[*queued]bool{}
			done := 0
			for i, op := range ops {
				var got uax.RuneSubscriber
				top := pub.Top()
				switch op.Op {
				case "push":
					x := &queued{i, op.Done}
					pub.Push(x)
					in[x] = true
					if x.done {
						done++
					}
				case "pop":
					got = pub.Pop()
				case "popdone":
					got = pub.PopDone()
				case "fliptop":
					if top != nil {
						x := top.(*queued)
						x.done = !x.done
						done--
						if x.done {
							done += 2
						}
						pub.Fix(pub.Len() - 1)
					}
				case "refix":
					pub.Fix(op.At)
				}
				if op.Op == "pop" || op.Op == "popdone" {
					o.NonTrivial = o.NonTrivial || done > 0 && done < len(in)
					want := op.Op == "pop" && len(in) > 0 || done > 0
					if (got != nil) != want {
						return o, fmt.Errorf("op %d: %s returns %v with %d subscribers, %d of them done", i, op.Op, got, len(in), done)
					}
					if got != nil {
						x := got.(*queued)
						if got != top {
							return o, fmt.Errorf("op %d: %s returns %v, which was not the top", i, op.Op, *x)
						}
						if !in[x] {
							return o, fmt.Errorf("op %d: %s returns %v, which is not in the queue", i, op.Op, *x)
						}
						if x.done {
							done--
						} else if done > 0 {
							return o, fmt.Errorf("op %d: %s returns an active subscriber, but %d are done", i, op.Op, done)
						}
						delete(in, x)
					}
				}
				if pub.Len() != len(in) {
					return o, fmt.Errorf("op %d: length %d, want %d", i, pub.Len(), len(in))
				}
				if top := pub.Top(); (top == nil) != (len(in) == 0) || top != nil && top.Done() != (done > 0) {
					return o, fmt.Errorf("op %d: the top is %v, with %d of %d subscribers done", i, top, done, len(in))
				}
			}
			return o, nil
		},
	}.Run(t)
}
