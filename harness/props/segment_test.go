package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// scripted is a UnicodeBreaker which plays a script, one step per rune and one
// more for the end of the text: the penalties to emit and the length of the
// match it claims to be in.
type scripted struct {
	steps []step
	at    int
	cur   step
}

type step struct {
	Active    int   `json:"active"`
	Penalties []int `json:"penalties,omitempty"`
}

func (b *scripted) CodePointClassFor(r rune) int { return int(r) % 7 }
func (b *scripted) StartRulesFor(rune, int)      {}
func (b *scripted) ProceedWithRune(rune, int) {
	b.cur = step{}
	if b.at < len(b.steps) {
		b.cur = b.steps[b.at]
	}
	b.at++
}
func (b *scripted) LongestActiveMatch() int { return b.cur.Active }
func (b *scripted) Penalties() []int        { return append([]int(nil), b.cur.Penalties...) }

// genScript draws a script for a text of n runes. A breaker may place
// penalties at the positions of the runes which were in its match up to now,
// and after the current rune; at the end of text no match is active and the
// position after the end is not a break.
func genScript(t *rapid.T, n int) []step {
	pen := rapid.OneOf(
		rapid.Just(0),
		rapid.SampledFrom([]int{100, -100, uax.InfinitePenalty, uax.InfiniteMerits, 2 * uax.InfinitePenalty, 9999, 10001, 1, -1}),
		rapid.IntRange(-12000, 12000),
	)
	long := n > 20
	var st []step
	active := 0
	hover := 0 // length of matches which end as often as they start
	if long && rapid.Bool().Draw(t, "hover") {
		hover = rapid.IntRange(1, n/2).Draw(t, "hover length")
	}
	for k := 0; k <= n; k++ {
		max := active + 1
		if max > k+1 {
			max = k + 1
		}
		var p []int
		if long {
			// long matches with few decisions, far back
			if hover > 0 && rapid.IntRange(0, 3).Draw(t, "emit far") == 0 {
				p = make([]int, max) // decision on the oldest rune of the match
				p[max-1] = pen.Draw(t, "penalty")
			} else if rapid.IntRange(0, 11).Draw(t, "emit") == 0 {
				p = make([]int, rapid.IntRange(0, max).Draw(t, "length"))
				for i := rapid.IntRange(0, 3).Draw(t, "decisions"); i > 0 && len(p) > 0; i-- {
					p[rapid.IntRange(0, len(p)-1).Draw(t, "at")] = pen.Draw(t, "penalty")
				}
			}
			if active++; rapid.IntRange(0, 79).Draw(t, "end of match") == 0 {
				active = rapid.IntRange(0, active).Draw(t, "active")
				if hover > 0 {
					hover = rapid.IntRange(1, n/2).Draw(t, "hover length")
				}
			}
			if hover > 0 {
				active = min(active, hover)
			}
			if k == n {
				if len(p) > 0 {
					p[0] = 0
				}
				active = 0
			}
			st = append(st, step{active, p})
			continue
		}
		if rapid.IntRange(0, 2).Draw(t, "emit") > 0 {
			p = rapid.SliceOfN(pen, 0, max).Draw(t, "penalties")
		}
		if k == n {
			if len(p) > 0 {
				p[0] = 0
			}
			active = 0
		} else {
			active = rapid.IntRange(0, min(active+1, k+1)).Draw(t, "active")
		}
		st = append(st, step{active, p})
	}
	return st
}

type scriptCase struct {
	Text     vh.Text  `json:"text"`
	Scripts  [][]step `json:"scripts"`
	Zero     [2]bool  `json:"zero"`
	Slice    bool     `json:"slice"`
	Bounds   []int    `json:"bounds,omitempty"` // 0: Next, otherwise BoundedNext; a negative n means BoundedNext(n+1)
	LeadNext int      `json:"leadnext,omitempty"`
}

// model computes the total penalties after every rune.
func (c scriptCase) model() (p0, p1 []int, feasible []bool) {
	n := len(c.Text)
	p0, p1, feasible = make([]int, n+1), make([]int, n+1), make([]bool, n+1)
	for b, s := range c.Scripts {
		for k, st := range s {
			for i, p := range st.Penalties {
				if b == 0 {
					p0[k-i] += p
				} else {
					p1[k-i] += p
				}
			}
		}
	}
	for j := 0; j < n; j++ {
		ok := func(p int, z bool) bool { return p < uax.InfinitePenalty && (p != 0 || z) }
		feasible[j] = ok(p0[j], c.Zero[0]) || len(c.Scripts) > 1 && ok(p1[j], c.Zero[1])
	}
	return
}

func (c scriptCase) segmenter() *segment.Segmenter {
	var bb []uax.UnicodeBreaker
	for _, s := range c.Scripts {
		bb = append(bb, &scripted{steps: s})
	}
	s := segment.NewSegmenter(bb...)
	s.BreakOnZero(c.Zero[0], c.Zero[1])
	return s
}

// endBreak makes the end of the text a feasible break, as the breakers of this
// module do.
func (c *scriptCase) endBreak() {
	n := len(c.Text)
	p0, _, feas := c.model()
	if n > 0 && !feas[n-1] {
		last := &c.Scripts[0][n]
		for len(last.Penalties) < 2 {
			last.Penalties = append(last.Penalties, 0)
		}
		last.Penalties[1] += 5 - p0[n-1]
		if prev := &c.Scripts[0][n-1]; prev.Active == 0 {
			prev.Active = 1
		}
	}
}

func genScriptCase(t *rapid.T) scriptCase {
	var c scriptCase
	c.Text = rapid.SliceOfN(rapid.SampledFrom([]rune("abcdefg hij")), rapid.IntRange(0, 6).Draw(t, "min"), 14).Draw(t, "text")
	if rapid.IntRange(0, 29).Draw(t, "long") == 29 {
		n := rapid.OneOf(rapid.IntRange(50, 150), rapid.IntRange(50, 300)).Draw(t, "length")
		for len(c.Text) < n {
			c.Text = append(c.Text, rune('a'+len(c.Text)%26))
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		for i := range c.Text {
			c.Text[i] += rapid.SampledFrom([]rune{0, 0, 0x100, 0x4e00, 0x1f600}).Draw(t, "plane")
		}
	}
	breakers := rapid.IntRange(1, 3).Draw(t, "breakers")
	if len(c.Text) < 20 && rapid.IntRange(0, 19).Draw(t, "more") == 19 {
		breakers = rapid.IntRange(4, 12).Draw(t, "breakers")
	}
	for i := breakers; i > 0; i-- {
		c.Scripts = append(c.Scripts, genScript(t, len(c.Text)))
	}
	c.Zero = [2]bool{rapid.IntRange(0, 3).Draw(t, "z0") == 0, rapid.IntRange(0, 3).Draw(t, "z1") == 0}
	c.Slice = rapid.Bool().Draw(t, "slice")
	return c
}

type seg struct {
	text   string
	p0, p1 int
}

func (s seg) String() string { return fmt.Sprintf("{%+q %d %d}", s.text, s.p0, s.p1) }

// Without bounds: segments lie between consecutive feasible breaks and carry the
// summed penalties.
func TestSegmenterModel(t *testing.T) {
	vh.Sub[scriptCase]{
		Prop: "P02", Quick: 1800000, Thorough: 20000000,
		Rule: "text of up to 14 runes (sometimes 300, then with long matches) with 1-12 scripted breakers (penalties and active-match lengths per rune), settings of BreakOnZero, reader or slice input; " +
			"non-trivial: at least one feasible break inside the text and one position which is not a break",
		Gen: genScriptCase,
		Check: func(c scriptCase) (vh.Obs, error) {
			var o vh.Obs
			s := c.segmenter()
			initSegmenter(s, c.Text, c.Slice)
			p0, p1, feas := c.model()
			var want []seg
			last := 0
			inner := false
			for j := range c.Text {
				if feas[j] {
					want = append(want, seg{string(c.Text[last : j+1]), p0[j], p1[j]})
					last = j + 1
					inner = inner || j+1 < len(c.Text)
				}
			}
			o.NonTrivial = inner && len(want) < len(c.Text)
			o.Label(len(c.Scripts) > 1, "multiple breakers")
			o.Label(len(c.Text) > 40, "more than 40 runes, long matches")
			o.Label(len(c.Scripts) > 3, "more than 3 breakers")
			o.Label(c.Zero[0] || c.Zero[1], "break on zero")
			o.Label(last < len(c.Text), "no break at end of text")
			var got []seg
			for s.Next() {
				a, b := s.Penalties()
				got = append(got, seg{s.Text(), a, b})
				if len(got) > len(c.Text)+1 {
					return o, fmt.Errorf("segmenter does not stop")
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return o, fmt.Errorf("segments\n got %v\nwant %v", got, want)
			}
			if s.Err() != nil {
				return o, fmt.Errorf("unexpected error %v", s.Err())
			}
			if s.Next() {
				return o, fmt.Errorf("Next returned true after the end")
			}
			return o, nil
		},
	}.Run(t)
}

// With bounds.
func TestBoundedModel(t *testing.T) {
	vh.Sub[scriptCase]{
		Prop: "P03", Quick: 1500000, Thorough: 20000000,
		Rule: "text of up to 14 runes (sometimes 300, then with long matches) with 1-12 scripted breakers and a sequence of up to 8 bounds (mostly ascending, sometimes at the limits of integers), each call compared to a model: segments end at feasible breaks or at the bound; non-trivial: a segment ends at the bound where there is no feasible break",
		Gen: func(t *rapid.T) scriptCase {
			c := genScriptCase(t)
			c.endBreak()
			c.Bounds = rapid.SliceOfN(rapid.IntRange(1, len(c.Text)+3), 0, 8).Draw(t, "bounds")
			if rapid.IntRange(0, 2).Draw(t, "ascending") > 0 {
				b := 0
				c.Bounds = rapid.SliceOfN(rapid.IntRange(0, max(4, len(c.Text)/5)), 0, 10).Draw(t, "steps")
				for i := range c.Bounds {
					b += c.Bounds[i]
					if i == 0 || c.Bounds[i] > 0 || rapid.Bool().Draw(t, "again") {
						c.Bounds[i] = max(b, 1)
					} // 0: Next
				}
			}
			for i := range c.Bounds {
				if rapid.IntRange(0, 24).Draw(t, "none") == 24 {
					c.Bounds[i] = rapid.IntRange(-3, -1).Draw(t, "bound")
				}
				if rapid.IntRange(0, 49).Draw(t, "far") == 49 {
					c.Bounds[i] = rapid.SampledFrom([]int{math.MinInt, math.MinInt + 1, math.MinInt + 9, math.MinInt32, math.MinInt32 - 1, math.MaxInt - 1, math.MaxInt, math.MaxInt32 + 1, math.MaxUint32 + 2, math.MaxUint16 + 2}).Draw(t, "bound")
				}
			}
			return c
		},
		Check: func(c scriptCase) (vh.Obs, error) {
			var o vh.Obs
			s := c.segmenter()
			initSegmenter(s, c.Text, c.Slice)
			p0, p1, feas := c.model()
			pos := 0
			n := len(c.Text)
			next := func(bound int) (seg, bool) {
				if pos >= bound {
					return seg{}, false
				}
				for j := pos; j < n; j++ {
					if feas[j] || j+1 == bound {
						x := seg{string(c.Text[pos : j+1]), p0[j], p1[j]}
						pos = j + 1
						return x, true
					}
				}
				return seg{}, false
			}
			var want, got []string
			calls := append([]int{}, c.Bounds...)
			for i := 0; i <= n; i++ {
				calls = append(calls, 0)
			}
			for _, b := range calls {
				m := b
				if b == 0 {
					m = math.MaxInt
				} else if b < 0 {
					m = b + 1
				}
				w, wok := next(m)
				var gok bool
				if b == 0 {
					gok = s.Next()
				} else {
					gok = s.BoundedNext(m)
				}
				a, bb := s.Penalties()
				g := seg{s.Text(), a, bb}
				if !gok {
					g.p0, g.p1 = 0, 0
				}
				want = append(want, fmt.Sprintf("%d: %v %v", b, wok, w))
				got = append(got, fmt.Sprintf("%d: %v %v", b, gok, g))
				o.NonTrivial = o.NonTrivial || b > 0 && wok && !feas[pos-1]
				if want[len(want)-1] != got[len(got)-1] {
					return o, fmt.Errorf("calls (bound: ok {text p0 p1})\n got %v\nwant %v", got, want)
				}
			}
			return o, nil
		},
	}.Run(t)
}
