package props

import (
	"fmt"
	"testing"
	"unicode"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

type combineCase struct {
	Text    vh.Text `json:"text"`
	Kinds   string  `json:"breakers"` // one or two of w, g, s
	Weights [2]int  `json:"weights"`
	Slice   bool    `json:"slice"`
}

// refBreaks: where a breaker of one kind breaks when it is alone, and which of
// these breaks are mandatory (1), optional (-1), or left open (0).
func refBreaks(kind byte, text []rune) ([]bool, []int) {
	var b []bool
	force := make([]int, len(text)+1)
	hard := func(r rune) bool { return false }
	switch kind {
	case 'w':
		b = ref.WordBreaks(text)
		hard = func(r rune) bool { c := ref.WB(r); return c == "CR" || c == "LF" || c == "Newline" }
	case 'g':
		b = ref.GraphemeBreaks(text)
		hard = func(r rune) bool { c := ref.GCB(r); return c == "CR" || c == "LF" || c == "Control" }
	case 's':
		b = make([]bool, len(text)+1)
		for i := 1; i < len(b); i++ {
			b[i] = i == len(text) || unicode.IsSpace(text[i-1]) != unicode.IsSpace(text[i])
		}
	}
	for i := 1; i < len(b); i++ {
		switch {
		case !b[i]:
		case hard(text[i-1]):
			force[i] = 1
		case i == len(text) || !hard(text[i]):
			force[i] = -1
		}
	}
	return b, force
}

var combineRune = rapid.OneOf(wordPool.gen(), graphemePool.gen(),
	rapid.SampledFrom([]rune("ab  \t\n\r.'1é")))

// P25: each of several breakers contributes exactly its own breaks, and penalties tell
// mandatory from optional breaks.
func TestCombined(t *testing.T) {
	vh.Sub[combineCase]{
		Prop: "P25", Quick: 1500000, Thorough: 10000000,
		Rule: "a text over the classes of word and grapheme rules and white space, segmented with one breaker or two different ones (word, grapheme, simple; any weight) as primary and secondary; segment ends must be the union of the breaks which the reference rules give for each breaker alone, the two penalties must be breaking ones exactly for the breakers which break there, and penalties of mandatory breaks must lie near PenaltyForMustBreak (GlueBANG+GlueJOIN) or below, those of others far above; non-trivial: two breakers with different breaks",
		Gen: func(t *rapid.T) combineCase {
			c := combineCase{
				Kinds:   rapid.SampledFrom([]string{"wg", "gw", "ws", "sw", "gs", "sg", "w", "g", "s"}).Draw(t, "breakers"),
				Weights: [2]int{rapid.IntRange(-2, 8).Draw(t, "w0"), rapid.IntRange(-2, 8).Draw(t, "w1")},
				Slice:   rapid.Bool().Draw(t, "slice"),
			}
			g := combineRune
			if rapid.Bool().Draw(t, "few") {
				g = rapid.SampledFrom(rapid.SliceOfN(combineRune, 1, 6).Draw(t, "palette"))
			}
			for _, r := range rapid.SliceOfN(g, 0, 30).Draw(t, "text") {
				if r != 0xFFFD {
					c.Text = append(c.Text, r)
				}
			}
			return c
		},
		Check: func(c combineCase) (vh.Obs, error) {
			var o vh.Obs
			setup()
			var bb []uax.UnicodeBreaker
			for i, k := range c.Kinds {
				switch k {
				case 'w':
					bb = append(bb, uax29.NewWordBreaker(c.Weights[i]))
				case 'g':
					bb = append(bb, grapheme.NewBreaker(c.Weights[i]))
				case 's':
					bb = append(bb, segment.NewSimpleWordBreaker())
				}
			}
			breaks, force := make([][]bool, 2), make([][]int, 2)
			for i := range breaks {
				breaks[i], force[i] = make([]bool, len(c.Text)+1), make([]int, len(c.Text)+1)
				if i < len(c.Kinds) {
					breaks[i], force[i] = refBreaks(c.Kinds[i], c.Text)
				}
			}
			s := segment.NewSegmenter(bb...)
			initSegmenter(s, c.Text, c.Slice)
			pos, n := 0, 0
			for s.Next() {
				start := pos
				if pos += len([]rune(s.Text())); pos == start || pos > len(c.Text) {
					return o, fmt.Errorf("segment %d from %d to %d of %d", n, start, pos, len(c.Text))
				}
				for i := start + 1; i < pos; i++ {
					if breaks[0][i] || breaks[1][i] {
						return o, fmt.Errorf("break at %d missing: segment %d…%d", i, start, pos)
					}
				}
				p := [2]int{}
				p[0], p[1] = s.Penalties()
				for i, k := range c.Kinds {
					breaking := p[i] != 0 && p[i] < uax.InfinitePenalty
					if breaking != breaks[i][pos] {
						return o, fmt.Errorf("position %d: penalty of breaker %c is %d, break expected: %v", pos, k, p[i], breaks[i][pos])
					}
					must := uax29.PenaltyForMustBreak
					if k == 'g' {
						must = grapheme.GlueBANG + grapheme.GlueJOIN
					}
					if force[i][pos] == 1 && p[i] > must*9/10 || force[i][pos] == -1 && p[i] <= must/2 { // later rules may add a little
						return o, fmt.Errorf("position %d: penalty of breaker %c is %d, mandatory: %d", pos, k, p[i], force[i][pos])
					}
				}
				if !breaks[0][pos] && !breaks[1][pos] {
					return o, fmt.Errorf("break at %d not expected", pos)
				}
				for i := range breaks {
					o.NonTrivial = o.NonTrivial || (len(c.Kinds) == 2 && pos < len(c.Text) && breaks[i][pos] && !breaks[1-i][pos])
				}
				n++
			}
			if s.Err() != nil {
				return o, s.Err()
			}
			if pos != len(c.Text) {
				return o, fmt.Errorf("segments end at %d of %d", pos, len(c.Text))
			}
			return o, nil
		},
	}.Run(t)
}
