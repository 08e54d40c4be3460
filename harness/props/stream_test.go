package props

import (
	"fmt"
	"io"
	"math"
	"testing"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// counter is a reader which counts how often it has been asked.
type counter struct {
	text []rune
	n    int
}

func (r *counter) ReadRune() (rune, int, error) {
	if r.n++; r.n > len(r.text) {
		return 0, 0, io.EOF
	}
	return r.text[r.n-1], 1, nil
}

// TestStreamModel: what scripted breakers have decided is delivered without
// reading on.
func TestStreamModel(t *testing.T) {
	vh.Sub[scriptCase]{
		Prop: "P30", Quick: 450000, Thorough: 10000000,
		Rule: "scripted breakers as in P02, with a sequence of up to 8 calls of Next or BoundedNext, then Next until the end; a reader counts how many runes have been read when a call returns, which must not be more than until the longest active match starts after the end of the segment (or after the bound), or the end of the text; non-trivial: a segment is delivered before the text has been read in full",
		Gen: func(t *rapid.T) scriptCase {
			c := genScriptCase(t)
			c.Slice = false
			if rapid.Bool().Draw(t, "bounded") {
				c.endBreak()
				b := 0
				for i := rapid.IntRange(1, 8).Draw(t, "calls"); i > 0; i-- {
					if b += rapid.IntRange(0, max(4, len(c.Text)/5)).Draw(t, "step"); b > 0 {
						c.Bounds = append(c.Bounds, b)
					}
				}
			}
			return c
		},
		Check: func(c scriptCase) (vh.Obs, error) {
			var o vh.Obs
			s := c.segmenter()
			r := &counter{text: c.Text}
			s.Init(r)
			if r.n > 0 {
				return o, fmt.Errorf("Init reads %d runes", r.n)
			}
			n := len(c.Text)
			active := make([]int, n+2) // longest active match after that many runes
			for _, st := range c.Scripts {
				for k, x := range st {
					active[k+1] = max(active[k+1], x.Active)
				}
			}
			pos, need := 0, 0
			for call := 0; call < len(c.Bounds)+n+2; call++ {
				ok, bound := false, math.MaxInt
				if call < len(c.Bounds) {
					bound = c.Bounds[call]
					ok = s.BoundedNext(bound)
				} else {
					ok = s.Next()
				}
				end := bound // what had to be decided
				if ok {
					pos += len(s.Runes())
					end = pos
				}
				for need <= n && (need < end || end > need-active[need]) {
					need++ // the end of the text is one rune more
				}
				if r.n > need {
					return o, fmt.Errorf("call %d (bound %d) returns %v at position %d of %d after reading %d runes, %d are enough (active matches %v)", call, bound, ok, pos, n, r.n, need, active)
				}
				o.Label(ok && bound < math.MaxInt && pos == bound, "up to a bound")
				o.Label(ok && r.n > pos+1 && r.n < n, "long match")
				o.NonTrivial = o.NonTrivial || ok && r.n < n
			}
			return o, nil
		},
	}.Run(t)
}

type streamCase struct {
	Kind string  `json:"breaker"` // w, g, s
	Text vh.Text `json:"text"`
}

// TestStreamBreakers: the breakers of the module do not look ahead further than
// their rules need.
func TestStreamBreakers(t *testing.T) {
	vh.Sub[streamCase]{
		Prop: "P30", Quick: 450000, Thorough: 10000000,
		Rule: "a text made for word or grapheme rules (up to several hundred code points, see P07 and P08), read by a segmenter with a word, grapheme or simple word breaker; when a segment is delivered, not more than the next character must have been read, or if that is one which rules WB6 and WB12 make depend on its successor, the successor and marks in between; non-trivial: at least three segments",
		Gen: func(t *rapid.T) streamCase {
			c := streamCase{Kind: rapid.SampledFrom([]string{"w", "w", "g", "s"}).Draw(t, "breaker")}
			if c.Kind == "w" {
				c.Text = wordPool.text(24, wordRules...).Draw(t, "text")
			} else {
				c.Text = graphemePool.text(24, graphemeRules...).Draw(t, "text")
			}
			return c
		},
		Check: func(c streamCase) (vh.Obs, error) {
			var o vh.Obs
			setup()
			var b uax.UnicodeBreaker = segment.NewSimpleWordBreaker()
			switch c.Kind {
			case "w":
				b = uax29.NewWordBreaker(1)
			case "g":
				b = grapheme.NewBreaker(1)
			}
			r := &counter{text: c.Text}
			s := segment.NewSegmenter(b)
			s.Init(r)
			pos, n := 0, 0
			for s.Next() {
				pos += len(s.Runes())
				if n++; n > len(c.Text) {
					return o, fmt.Errorf("segmenter does not stop")
				}
				need := pos + 1
				if c.Kind == "w" && pos < len(c.Text) {
					switch ref.WB(c.Text[pos]) {
					case "MidLetter", "MidNum", "MidNumLet", "Single_Quote", "Double_Quote":
						for need < len(c.Text) && wbIgnored(c.Text[need]) {
							need++
						}
						need++
					}
				}
				need = min(need, len(c.Text)+1)
				if r.n > need {
					return o, fmt.Errorf("segment ending at %d of %+q (%s) is delivered after reading %d characters, %d are enough", pos, string(c.Text), c.Kind, r.n, need)
				}
				o.Label(r.n > pos+1, "more than one character ahead")
			}
			if s.Next(); r.n > len(c.Text)+1 {
				return o, fmt.Errorf("reading goes on after the end of the text")
			}
			o.NonTrivial = n >= 3
			return o, s.Err()
		},
	}.Run(t)
}

func wbIgnored(r rune) bool {
	switch ref.WB(r) {
	case "Extend", "Format", "ZWJ":
		return true
	}
	return false
}
