package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// segments runs a segmenter over its input; more than limit segments means
// that it does not stop.
func segments(s *segment.Segmenter, limit int) ([]string, error) {
	var out []string
	for s.Next() {
		out = append(out, s.Text())
		if len(out) > limit {
			return out, fmt.Errorf("segmenter does not stop: more than %d segments", limit)
		}
	}
	return out, s.Err()
}

func cut(text []rune, b []bool) []string {
	var out []string
	last := 0
	for i := 1; i < len(b); i++ {
		if b[i] {
			out = append(out, string(text[last:i]))
			last = i
		}
	}
	return out
}

func diffSegs(got, want []string) error {
	g, w := fmt.Sprintf("%+q", got), fmt.Sprintf("%+q", want)
	if g != w {
		return fmt.Errorf("segments\n got %s\nwant %s", g, w)
	}
	return nil
}

func TestWordBreaks(t *testing.T) {
	vh.Sub[vh.Text]{
		Prop: "P07", Quick: 1500000, Thorough: 20000000,
		Rule: "a text of up to 24 code points (or more, see below) over all combinations of Word_Break class and Extended_Pictographic (drawn from all Unicode 11 characters); the segments must be those of an own implementation of the rules WB1-WB999; half of the texts use only up to five characters, some have runs and several hundred code points, some are made for one of the rules, with one character repeated up to 490 times; non-trivial: more than one segment, one of several code points",
		Gen: func(t *rapid.T) vh.Text {
			return wordPool.text(24, wordRules...).Draw(t, "text")
		},
		Check: func(c vh.Text) (vh.Obs, error) {
			var o vh.Obs
			setup()
			s := segment.NewSegmenter(uax29.NewWordBreaker(1))
			s.Init(strings.NewReader(string(c)))
			got, err := segments(s, len(c)+1)
			if err != nil {
				return o, err
			}
			want := cut(c, ref.WordBreaks(c))
			o.NonTrivial = len(want) > 1 && len(want) < len(c)
			return o, diffSegs(got, want)
		},
	}.Run(t)
}

func TestGraphemes(t *testing.T) {
	vh.Sub[vh.Text]{
		Prop: "P08", Quick: 1500000, Thorough: 20000000,
		Rule: "a text of up to 24 code points (or more, see below) over all combinations of Grapheme_Cluster_Break class and Extended_Pictographic; the segments must be those of an own implementation of the rules GB1-GB999; half of the texts use only up to five characters, some have runs and several hundred code points, some are made for one of the rules, with one character repeated up to 490 times; non-trivial: more than one segment, one of several code points",
		Gen: func(t *rapid.T) vh.Text {
			return graphemePool.text(24, graphemeRules...).Draw(t, "text")
		},
		Check: func(c vh.Text) (vh.Obs, error) {
			var o vh.Obs
			setup()
			s := segment.NewSegmenter(grapheme.NewBreaker(1))
			s.Init(strings.NewReader(string(c)))
			got, err := segments(s, len(c)+1)
			if err != nil {
				return o, err
			}
			want := cut(c, ref.GraphemeBreaks(c))
			o.NonTrivial = len(want) > 1 && len(want) < len(c)
			return o, diffSegs(got, want)
		},
	}.Run(t)
}
