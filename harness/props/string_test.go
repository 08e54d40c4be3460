package props

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

type strCase struct {
	Prefix vh.Raw   `json:"prefix,omitempty"` // illegal bytes
	Text   longText `json:"text"`
	Suffix vh.Raw   `json:"suffix,omitempty"`
	Bytes  bool     `json:"bytes,omitempty"`
	Nul    bool     `json:"nul,omitempty"`
}

// a cut-off rune (or several illegal bytes)
var genIllegal = rapid.OneOf(
	rapid.Just(""), rapid.Just(""), rapid.Just(""),
	rapid.SampledFrom([]string{"\x80", "\xbf\xbf", "\x80\x80\x80", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xfe\xff"}),
)
var genCutOff = rapid.OneOf(
	rapid.Just(""), rapid.Just(""), rapid.Just(""),
	rapid.SampledFrom([]string{"\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xf0", "\xff", "\x80"}),
)

// graphemes are the grapheme clusters of a text. If it has replacement
// characters, these may be treated as controls (known finding of P08), if there
// are n clusters then.
func graphemes(text []rune, n int) []string {
	if slices.Contains(text, 0xFFFD) && !vh.Strict() {
		control := slices.Clone(text)
		for i, r := range control {
			if r == 0xFFFD {
				control[i] = 0x85
			}
		}
		if w := cut(text, ref.GraphemeBreaks(control)); len(w) == n {
			return w
		}
	}
	return cut(text, ref.GraphemeBreaks(text))
}

func TestGraphemeString(t *testing.T) {
	vh.Sub[strCase]{
		Prop: "P09", Quick: 240000, Thorough: 4000000,
		Fixed: []strCase{
			{Text: longText{Middle: []rune{'a'}, Times: 1 << 16}}, {Text: longText{Middle: []rune{0x1f600}, Times: 1 << 14}, Bytes: true}, {Text: longText{Middle: []rune{'a'}, Times: 100000}},
			{Text: longText{Middle: []rune{'a'}, Times: grapheme.MaxByteLen}}, {Text: longText{Middle: []rune{0x301}, Times: grapheme.MaxByteLen / 2}, Bytes: true},
			{Prefix: vh.Raw(strings.Repeat("\x80", grapheme.MaxByteLen))}, {Prefix: vh.Raw(strings.Repeat("\xff", 255)), Bytes: true},
		},
		Rule: "a sequence of code points over all grapheme classes (in every run also texts of the largest size, and larger ones, which must panic), with cut off or illegal bytes before or after, given as string or bytes; length and each grapheme are compared to the reference model; non-trivial: at least two graphemes, one of several code points",
		Gen: func(t *rapid.T) strCase {
			g := rapid.OneOf(graphemePool.gen(), graphemePool.thin(2).gen())
			if rapid.IntRange(0, 9).Draw(t, "fffd") == 9 { // a legal character
				g = rapid.OneOf(g, g, g, rapid.Just[rune](0xFFFD))
			}
			c := strCase{Prefix: vh.Raw(genIllegal.Draw(t, "prefix")), Suffix: vh.Raw(genCutOff.Draw(t, "suffix")), Bytes: rapid.Bool().Draw(t, "bytes")}
			if rapid.IntRange(0, 19).Draw(t, "many illegal") == 19 {
				n := rapid.OneOf(rapid.IntRange(2, 100), rapid.IntRange(240, 260), rapid.IntRange(2, 5000)).Draw(t, "times")
				c.Prefix = vh.Raw(strings.Repeat(string(c.Prefix), n))
				if rapid.Bool().Draw(t, "behind") {
					c.Suffix = vh.Raw(strings.Repeat(string(c.Suffix), n))
				}
			}
			times := 30
			if rapid.IntRange(0, 50).Draw(t, "huge") == 0 {
				times = 3000
			}
			c.Text = genLong(t, g, times)
			if n := len(string(c.Text.text())) + len(c.Prefix) + len(c.Suffix); n > grapheme.MaxByteLen {
				c.Text.Times = c.Text.Times * (grapheme.MaxByteLen - 500) / n
			}
			if rapid.IntRange(0, 299).Draw(t, "full") == 299 && c.Text.Times > 0 { // the last possible size
				c.Prefix, c.Suffix = "", ""
				n := grapheme.MaxByteLen - len(string(c.Text.text()))
				for n > 0 {
					c.Text.Tail = append(c.Text.Tail, 'x')
					n--
				}
			}
			return c
		},
		Check: func(c strCase) (vh.Obs, error) {
			setup()
			var o vh.Obs
			text := c.Text.text()
			want := cut(text, ref.GraphemeBreaks(text))
			whole := string(c.Prefix) + string(text) + string(c.Suffix)
			if len(whole) > grapheme.MaxByteLen {
				if o.Skip = len(whole) <= math.MaxUint16; !o.Skip {
					o.Label(true, "too large")
					if vh.Guard(func() error { grapheme.StringFromString(whole); return nil }) == nil {
						return o, fmt.Errorf("no panic for a text of %d bytes", len(whole))
					}
				}
				return o, nil
			}
			var s grapheme.String
			if c.Bytes {
				b := []byte(whole)
				s = grapheme.StringFromBytes(b)
				for i := range b { // the grapheme string has a copy of its own
					b[i] = 'x'
				}
			} else {
				s = grapheme.StringFromString(whole)
			}
			if slices.Contains(text, 0xFFFD) {
				o.Label(true, "U+FFFD")
				want = graphemes(text, s.Len())
			}
			o.NonTrivial = len(want) > 1 && len(want) < len(text)
			o.Label(len(whole) > 254, "more than 254 bytes")
			o.Label(len(whole) > 8000, "more than 8000 bytes")
			o.Label(len(text) == 0, "no legal rune")
			o.Label(c.Prefix != "", "illegal prefix")
			o.Label(c.Suffix != "", "illegal suffix")
			if s.Len() != len(want) {
				return o, fmt.Errorf("%+q: length %d, want %d graphemes", whole, s.Len(), len(want))
			}
			for i, w := range want {
				if g := s.Nth(i); g != w {
					return o, fmt.Errorf("%+q: grapheme %d is %+q, want %+q", whole, i, g, w)
				}
			}
			if c.Prefix == "" && c.Suffix == "" && s.String() != whole {
				return o, fmt.Errorf("String() = %+q, want %+q", s.String(), whole)
			}
			for _, i := range []int{-1, max(len(want), 1)} {
				if err := vh.Guard(func() error { s.Nth(i); return nil }); err == nil {
					return o, fmt.Errorf("%+q: Nth(%d) of %d graphemes does not panic", whole, i, len(want))
				}
			}
			return o, nil
		},
	}.Run(t)
}

func TestFirstLegalRune(t *testing.T) {
	vh.Sub[vh.Raw]{
		Prop: "P24", Quick: 4000000, Thorough: 40000000,
		Rule:  "a byte string of legal encodings of all lengths, encodings cut off, surrogates, overlong forms and stray bytes; compared to a decoder written from the definition of UTF-8; non-trivial: the first legal rune is not at the start",
		Fixed: []vh.Raw{"", "\x80", "\xff", "\xed\xa0\x80", "\xef\xbf\xbd", "a", "\x00"},
		Gen: func(t *rapid.T) vh.Raw {
			piece := rapid.OneOf(
				rapid.SampledFrom([]string{"\x80", "\xbf", "\xc3", "\xe4", "\xf0", "\x9f", "\x98", "\xff", "\xc0", "\xed\xa0\x80", "\xf5", "\xe0\x80\x80", "\xf4\x90\x80\x80"}),
				rapid.SampledFrom([]string{"a", "\x00", "\x7f", "\u00e4", "\ufffd", "\u4e16", "\U0001f600", "\U0010ffff"}),
			)
			return vh.Raw(strings.Join(rapid.SliceOfN(piece, 0, 6).Draw(t, "pieces"), ""))
		},
		Check: func(c vh.Raw) (vh.Obs, error) {
			var o vh.Obs
			want := -1
			for i := range string(c) {
				_, n := utf8.DecodeRuneInString(string(c[i:]))
				if utf8.ValidString(string(c[i : i+n])) {
					want = i
					break
				}
			}
			o.NonTrivial = want > 0
			o.Label(want < 0, "no legal rune")
			pos, prefix := uax.PositionOfFirstLegalRune(string(c))
			cutoff := c
			if want >= 0 {
				cutoff = c[:want]
			}
			if pos != want || vh.Raw(prefix) != cutoff {
				return o, fmt.Errorf("%+q: position %d and prefix %+q, want %d and %+q", string(c), pos, prefix, want, string(cutoff))
			}
			return o, nil
		},
	}.Run(t)
}
