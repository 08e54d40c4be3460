package props

import (
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"sync"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

var setup = sync.OnceFunc(func() {
	uax29.SetupUAX29Classes()
	grapheme.SetupGraphemeClasses()
})

// makeBreakers: one letter per breaker. w: words, g: graphemes, s: simple words.
func makeBreakers(kinds string) []uax.UnicodeBreaker {
	setup()
	var bb []uax.UnicodeBreaker
	for _, k := range kinds {
		switch k {
		case 'w':
			bb = append(bb, uax29.NewWordBreaker(1))
		case 'W':
			bb = append(bb, uax29.NewWordBreaker(5))
		case 'g':
			bb = append(bb, grapheme.NewBreaker(1))
		case 'G':
			bb = append(bb, grapheme.NewBreaker(7))
		case 's':
			bb = append(bb, segment.NewSimpleWordBreaker())
		}
	}
	return bb
}

var breakerKinds = []string{"w", "g", "s", "wg", "gw", "sw", "ws", "gs", "sgw", "wsg", "W", "G", "WG", ""}

// textRune: classes of words and graphemes, spaces, ASCII, arbitrary code points.
// anyRune also has runes which are no code points: rune slices and readers may deliver them.
var anyRune = rapid.OneOf(
	textRune, textRune, textRune, textRune, textRune, textRune, textRune, textRune, textRune,
	rapid.SampledFrom([]rune{0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x1fffff, 0x7fffffff, -1, -2, -0x80000000, 0x200000, 0x10000 + 0x110000}),
)

var textRune = rapid.OneOf(
	wordPool.gen(),
	graphemePool.gen(),
	rapid.SampledFrom([]rune("ab c\td\n.,'1")),
	rapid.SampledFrom([]rune{' ', 0x85, 0xa0, 0x2003, 0x3000, '\r', '\n', 'x', 0x1f1e6, 0x200d, 0x301, 0xfeff, 0xfffd, 0x10ffff, 0xe000, 0x378}),
	rapid.Custom(func(t *rapid.T) rune {
		r := rapid.Int32Range(1, 0x10ffff).Draw(t, "rune")
		if r >= 0xd800 && r <= 0xdfff {
			r = r - 0xd800 + 'A'
		}
		return r
	}),
)

// genLong draws texts, occasionally long ones (repetition of a short piece, such
// that the case stays small).
type longText struct {
	Head   vh.Text `json:"head"`
	Middle vh.Text `json:"middle,omitempty"`
	Times  int     `json:"times,omitempty"`
	Tail   vh.Text `json:"tail,omitempty"`
	Last   vh.Text `json:"last,omitempty"` // e.g., a long grapheme
	Again  int     `json:"again,omitempty"`
}

func (l longText) text() vh.Text {
	x := append(vh.Text{}, l.Head...)
	for i := 0; i < l.Times; i++ {
		x = append(x, l.Middle...)
	}
	x = append(x, l.Tail...)
	for i := 0; i < l.Again; i++ {
		x = append(x, l.Last...)
	}
	return x
}

func genLong(t *rapid.T, g *rapid.Generator[rune], maxTimes int) longText {
	l := longText{Head: rapid.SliceOfN(g, 0, 20).Draw(t, "head")}
	if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
		l.Middle = rapid.SliceOfN(g, 1, 4).Draw(t, "middle")
		l.Times = rapid.IntRange(2, maxTimes).Draw(t, "times")
		l.Tail = rapid.SliceOfN(g, 0, 10).Draw(t, "tail")
		if rapid.IntRange(0, 2).Draw(t, "and more") == 0 {
			l.Last = rapid.SliceOfN(g, 1, 2).Draw(t, "last")
			l.Again = rapid.IntRange(2, 100).Draw(t, "again")
		}
	}
	return l
}

type segCase struct {
	Text  longText `json:"text"`
	Kinds string   `json:"breakers"`
	Slice bool     `json:"slice"`
	Zero  [2]bool  `json:"zero"`
}

func genSegCase(t *rapid.T) segCase {
	return segCase{
		Text:  genLong(t, anyRune, 100),
		Kinds: rapid.SampledFrom(breakerKinds).Draw(t, "breakers"),
		Slice: rapid.Bool().Draw(t, "slice"),
		Zero:  [2]bool{rapid.IntRange(0, 3).Draw(t, "z0") == 0, rapid.IntRange(0, 3).Draw(t, "z1") == 0},
	}
}

func TestLossless(t *testing.T) {
	vh.Sub[segCase]{
		Prop: "P01", Quick: 1600000, Thorough: 15000000,
		Rule: "a text (up to 20 runes, occasionally several hundred) over the classes of both word and grapheme rules, whitespace and arbitrary code points, segmented from a reader or a byte slice with 1-3 of the module's breakers; the concatenation of the segments must be the text; non-trivial: more than one segment and fewer segments than runes",
		Gen:  genSegCase,
		Check: func(c segCase) (vh.Obs, error) {
			var o vh.Obs
			text := c.Text.text()
			s := segment.NewSegmenter(makeBreakers(c.Kinds)...)
			s.BreakOnZero(c.Zero[0], c.Zero[1])
			initSegmenter(s, text, c.Slice)
			var b strings.Builder
			var runes []rune
			n := 0
			for s.Next() {
				x := s.Text()
				if x == "" {
					return o, fmt.Errorf("empty segment after %d segments", n)
				}
				b.WriteString(x)
				runes = append(runes, s.Runes()...)
				if n++; n > len(text) {
					return o, fmt.Errorf("more segments than runes")
				}
			}
			if s.Err() != nil {
				return o, s.Err()
			}
			o.NonTrivial = n > 1 && n < len(text)
			o.Label(len(text) > 100, "more than 100 runes")
			if b.String() != string(text) || !slices.Equal(runes, text) {
				return o, fmt.Errorf("text %+q %X\nsegments add up to %+q %X", string(text), text, b.String(), runes)
			}
			return o, nil
		},
	}.Run(t)
}

type reuseCase struct {
	Kinds  string    `json:"breakers"`
	Inputs []reuseIn `json:"inputs"`
}
type reuseIn struct {
	Text  vh.Text `json:"text"`
	Slice bool    `json:"slice"`
	Share bool    `json:"share,omitempty"` // the slice is the one of the previous input, overwritten
	Calls int     `json:"calls"`           // number of Next calls before the next input, -1: all
	Bound int     `json:"bound,omitempty"`
	Nil   bool    `json:"nil,omitempty"`   // nil instead of an empty input
	Other bool    `json:"other,omitempty"` // a new segmenter with the same breakers, if they are done with their text
}

// P04: reader and slice input agree, Bytes/Runes/Text agree, and a
// re-initialised segmenter behaves like a new one.
func TestReuse(t *testing.T) {
	vh.Sub[reuseCase]{
		Prop: "P04", Quick: 1200000, Thorough: 10000000,
		Rule: "a history of 1-3 inputs (reader or byte slice) given to one segmenter, each consumed fully, partly or not at all by Next and BoundedNext, compared call by call (result, text, penalties, error) to a new segmenter which gets the same text through the other kind of input; non-trivial: a segmenter is re-initialised and then used",
		Gen: func(t *rapid.T) reuseCase {
			c := reuseCase{Kinds: rapid.SampledFrom(breakerKinds).Draw(t, "breakers")}
			for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
				c.Inputs = append(c.Inputs, reuseIn{
					Text:  rapid.SliceOfN(anyRune, 0, 12).Draw(t, "text"),
					Slice: rapid.Bool().Draw(t, "slice"),
					Calls: rapid.IntRange(-1, 6).Draw(t, "calls"),
					Bound: rapid.IntRange(-10, 10).Draw(t, "bound"),
					Share: rapid.Bool().Draw(t, "share"),
					Nil:   rapid.Bool().Draw(t, "nil"),
					Other: rapid.IntRange(0, 3).Draw(t, "other") == 0,
				})
				if k := len(c.Inputs) - 1; k > 0 && rapid.IntRange(0, 3).Draw(t, "same text") == 0 {
					c.Inputs[k].Text = c.Inputs[k-1].Text
				}
			}
			return c
		},
		Check: func(c reuseCase) (vh.Obs, error) {
			var o vh.Obs
			bb := makeBreakers(c.Kinds)
			s := segment.NewSegmenter(bb...)
			var shared []rune
			type given struct{ slice, want []rune }
			var inputs []given // inputs which must stay as they are
			done := true
			for k, in := range c.Inputs {
				if in.Other && done {
					s = segment.NewSegmenter(bb...)
					o.Label(k > 0, "other segmenter with the same breakers")
				}
				done = false
				if in.Nil && len(in.Text) == 0 {
					if in.Slice {
						s.InitFromSlice(nil)
					} else {
						s.Init(nil)
					}
					o.Label(true, "nil input")
				} else if in.Share && in.Slice {
					if shared == nil {
						shared = make([]rune, 0, 64)
					}
					shared = append(shared[:0], in.Text...)
					s.InitFromSlice(shared)
					o.Label(k > 0, "same slice again")
				} else if in.Slice {
					buf := append([]rune{}, in.Text...)
					inputs = append(inputs, given{buf, in.Text})
					s.InitFromSlice(buf)
				} else {
					initSegmenter(s, in.Text, false)
				}
				pos := 0 // of the next segment in its slice
				fresh := segment.NewSegmenter(makeBreakers(c.Kinds)...)
				initSegmenter(fresh, in.Text, !in.Slice)
				if in.Calls != 0 && k > 0 {
					o.NonTrivial = true
				}
				o.Label(k+1 < len(c.Inputs) && in.Calls > 0, "re-init in the middle of a text")
				for i := 0; i != in.Calls; i++ {
					if i > len(in.Text)+1 {
						return o, fmt.Errorf("too many segments")
					}
					var a, b bool
					if in.Bound > 0 && i < 2 {
						a, b = s.BoundedNext(in.Bound), fresh.BoundedNext(in.Bound)
					} else {
						a, b = s.Next(), fresh.Next()
					}
					x := fmt.Sprint(a, fmt.Sprintf("%+q", s.Text()), s.Err())
					y := fmt.Sprint(b, fmt.Sprintf("%+q", fresh.Text()), fresh.Err())
					if a {
						p, q := s.Penalties()
						x += fmt.Sprint(" ", p, q)
						p, q = fresh.Penalties()
						y += fmt.Sprint(" ", p, q)
					}
					if x != y {
						return o, fmt.Errorf("input %d, call %d: %s, but a new segmenter with the other kind of input: %s", k, i, x, y)
					}
					if string(s.Bytes()) != s.Text() || string(s.Runes()) != s.Text() {
						return o, fmt.Errorf("input %d, call %d: Text %q Bytes %q Runes %q", k, i, s.Text(), s.Bytes(), s.Runes())
					}
					if k := len(inputs) - 1; a && in.Slice && !in.Share && k >= 0 && len(in.Text) > 0 {
						if r := s.Runes(); &r[0] != &inputs[k].slice[pos] {
							return o, fmt.Errorf("Runes of the segment at %d is not a part of the slice given", pos)
						}
					}
					pos += len(s.Runes())
					done = !a && in.Bound <= 0 && s.Err() == nil
					if !a && i > len(in.Text) || !a && in.Bound <= 0 {
						break
					}
				}
			}
			for _, g := range inputs {
				if !slices.Equal(g.slice, g.want) {
					return o, fmt.Errorf("input %+q has been overwritten with %+q", string(g.want), string(g.slice))
				}
			}
			return o, nil
		},
	}.Run(t)
}

// faultReader fails with err after n runes.
type faultReader struct {
	text vh.Text
	at   int
	err  error
	once bool
}

var errFault = errors.New("injected fault")

func (r *faultReader) ReadRune() (rune, int, error) {
	if r.at >= len(r.text) {
		return 0, 0, r.err
	}
	x := r.text[r.at]
	r.at++
	return x, max(1, utf8.RuneLen(x)), nil
}

type faultCase struct {
	Text  vh.Text `json:"text"`
	At    int     `json:"at"`
	Kinds string  `json:"breakers"`
	Bound int     `json:"bound,omitempty"`
	Times int     `json:"times,omitempty"`
	Cap   int     `json:"cap,omitempty"`
	Len   int     `json:"len,omitempty"`
	Max   int     `json:"max,omitempty"`
}

func TestFaults(t *testing.T) {
	vh.Sub[faultCase]{
		Prop: "P05", Quick: 600000, Thorough: 10000000,
		Rule: "a text, a position at which the reader fails with an error of its own, breakers and possibly a bound; segments before the fault must be a prefix of those without it, the error must be reported and stick, Init must recover; non-trivial: at least one segment is delivered before a fault inside the text",
		Gen: func(t *rapid.T) faultCase {
			c := faultCase{
				Text:  rapid.SliceOfN(anyRune, 0, 16).Draw(t, "text"),
				Kinds: rapid.SampledFrom(breakerKinds).Draw(t, "breakers"),
				Bound: rapid.IntRange(-10, 10).Draw(t, "bound"),
			}
			c.At = rapid.IntRange(0, len(c.Text)).Draw(t, "at")
			return c
		},
		Check: func(c faultCase) (vh.Obs, error) {
			var o vh.Obs
			s := segment.NewSegmenter(makeBreakers(c.Kinds)...)
			if s.Next() {
				return o, fmt.Errorf("Next before Init returned true")
			}
			if s.Err() != segment.ErrNotInitialized {
				return o, fmt.Errorf("error of uninitialised segmenter is %v", s.Err())
			}
			ok := segment.NewSegmenter(makeBreakers(c.Kinds)...)
			ok.Init(&faultReader{text: c.Text, err: io.EOF})
			s.Init(&faultReader{text: c.Text[:c.At], err: errFault})
			if s.Err() != nil {
				return o, fmt.Errorf("error %v after Init", s.Err())
			}
			n := 0
			if c.Bound > 0 {
				for s.BoundedNext(c.Bound) {
					ok.BoundedNext(c.Bound)
					if s.Text() != ok.Text() {
						return o, fmt.Errorf("segment %+q differs from %+q (without fault)", s.Text(), ok.Text())
					}
					n++
				}
				if e := s.Err(); e != errFault && e != segment.ErrBoundReached {
					return o, fmt.Errorf("error after bound: %v", e)
				}
			}
			for s.Next() {
				ok.Next()
				if s.Text() != ok.Text() {
					return o, fmt.Errorf("segment %+q differs from %+q (without fault)", s.Text(), ok.Text())
				}
				n++
			}
			o.NonTrivial = n > 0 && c.At < len(c.Text)
			o.Label(c.Bound > 0, "with bound")
			for i := 0; i < 4; i++ {
				if s.Err() != errFault {
					return o, fmt.Errorf("the read error was not reported, but %v", s.Err())
				}
				if len(s.Text())+len(s.Bytes())+len(s.Runes()) > 0 {
					return o, fmt.Errorf("text %q after an error", s.Text())
				}
				if s.Next() || c.Bound > 0 && s.BoundedNext([]int{c.Bound + 100, 1, c.Bound, 1}[i]) {
					return o, fmt.Errorf("segments after an error: %q", s.Text())
				}
			}
			s.Init(strings.NewReader("ok"))
			if !s.Next() || s.Err() != nil {
				return o, fmt.Errorf("segmenter is not usable after an error and re-initialisation: %v", s.Err())
			}
			return o, nil
		},
	}.Run(t)
}

type bufCase struct {
	Sizes []int `json:"sizes"` // lengths of words
	Cap   int   `json:"cap"`
	Len   int   `json:"len"`
	Max   int   `json:"max"`
	Set   bool  `json:"set"`
	After bool  `json:"after"` // RuneBuffer after Init
	Used  int   `json:"used"`  // 1 + segments read from another text before
	Slice bool  `json:"slice"`
}

// Segments up to the limit are delivered in full, longer ones lead to ErrTooLong.
func TestTooLong(t *testing.T) {
	vh.Sub[bufCase]{
		Prop: "P05", Quick: 40000, Thorough: 600000,
		Rule: "words of chosen lengths around the size limit of the segmenter's buffer, limits set by RuneBuffer (capacity and maximum) or default, before or after Init (also Init for a second text); segments up to the limit must be delivered, the first longer one must give ErrTooLong; non-trivial: at least one segment is delivered",
		Gen: func(t *rapid.T) bufCase {
			var c bufCase
			c.Set = rapid.IntRange(0, 3).Draw(t, "set") > 0
			limit := 64 * 1024
			if c.Set {
				c.Max = rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 10000), rapid.SampledFrom([]int{4095, 4096, 4097, 8192, 8193, 64 * 1024})).Draw(t, "max")
				c.Cap = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 30), rapid.IntRange(0, 6000)).Draw(t, "cap")
				c.Len = rapid.IntRange(0, c.Cap).Draw(t, "len")
				limit = max(c.Max, c.Cap)
			}
			c.After = rapid.Bool().Draw(t, "after")
			if c.After && rapid.IntRange(0, 2).Draw(t, "used") == 2 {
				c.Used = rapid.IntRange(1, 6).Draw(t, "before")
			}
			c.Slice = rapid.IntRange(0, 4).Draw(t, "slice") == 0
			size := rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 10), rapid.IntRange(max(1, limit-2), limit+2))
			if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
				size = rapid.OneOf(rapid.IntRange(1, 5000), rapid.IntRange(4090, 4100), rapid.IntRange(8190, 8195))
			}
			c.Sizes = rapid.SliceOfN(size, 1, 4).Draw(t, "sizes")
			return c
		},
		Check: func(c bufCase) (vh.Obs, error) {
			var o vh.Obs
			var words []string
			for _, n := range c.Sizes {
				words = append(words, strings.Repeat("ä", n))
			}
			text := vh.Text(strings.Join(words, " "))
			s := segment.NewSegmenter()
			limit := 64 * 1024
			var buf []rune
			if c.Used > 0 {
				initSegmenter(s, vh.Text("ab  c"), c.Used%2 == 0)
				for i := 1; i < c.Used; i++ {
					s.Next()
				}
			}
			o.Label(c.Used > 1, "after another text")
			if c.After {
				initSegmenter(s, text, c.Slice)
			}
			if c.Set {
				buf = make([]rune, c.Len, c.Cap)
				s.RuneBuffer(buf, c.Max)
				limit = max(c.Max, c.Cap)
			}
			if c.Slice {
				limit = 1 << 30
			}
			if !c.After {
				initSegmenter(s, text, c.Slice)
			}
			var want error
			for i, w := range words {
				if i > 0 {
					if limit < 1 {
						want = segment.ErrTooLong
						break
					}
					if !s.Next() || s.Text() != " " {
						return o, fmt.Errorf("no space after word %d, error %v", i, s.Err())
					}
				}
				if c.Sizes[i] > limit {
					want = segment.ErrTooLong
					break
				}
				if !s.Next() || s.Text() != w {
					return o, fmt.Errorf("word %d of %d runes: have %d runes, error %v", i, c.Sizes[i], len(s.Runes()), s.Err())
				}
				if own := s.Runes(); c.Set && !c.Slice && c.Max <= c.Cap && len(own) > 0 {
					o.Label(true, "in the buffer")
					if &own[0] != &buf[:1][0] {
						return o, fmt.Errorf("word %d of %d runes is not in the buffer of capacity %d (maximum %d)", i, len(own), c.Cap, c.Max)
					}
				}
				o.NonTrivial = true
			}
			o.Labels = uniq(o.Labels)
			o.Label(want != nil, "too long")
			for i := 0; i < 3; i++ {
				if s.Next() {
					return o, fmt.Errorf("unexpected segment of %d runes", len(s.Runes()))
				}
				if s.Err() != want {
					return o, fmt.Errorf("expected error %v, have %v", want, s.Err())
				}
			}
			panics := func(f func()) (p bool) {
				defer func() { p = recover() != nil }()
				f()
				return
			}
			if !panics(func() { s.RuneBuffer(nil, 10) }) || !panics(func() { s.Buffer(nil, 10) }) {
				return o, errors.New("RuneBuffer or Buffer did not panic although segmenting has started")
			}
			s.Init(strings.NewReader("ok"))
			if panics(func() { s.RuneBuffer(make([]rune, 0, 2), 2) }) || panics(func() { s.Buffer(nil, 10) }) {
				return o, errors.New("RuneBuffer or Buffer panicked after Init")
			}
			if !s.Next() || s.Text() != "ok" || s.Next() || s.Err() != nil {
				return o, fmt.Errorf("%q, error %v after Init and RuneBuffer", s.Text(), s.Err())
			}
			return o, nil
		},
	}.Run(t)
}

// P06: whitespace runs and word runs alternate.
func TestSimpleWords(t *testing.T) {
	vh.Sub[segCase]{
		Prop: "P06", Quick: 2000000, Thorough: 15000000,
		Rule: "a text with runs of white space and of other characters (all Unicode white space), segmented without giving a breaker; compared to a split into maximal runs, with penalties 100 after words and -100 after white space; non-trivial: more than two segments, one of more than one rune",
		Gen: func(t *rapid.T) segCase {
			c := genSegCase(t)
			c.Kinds = ""
			return c
		},
		Check: func(c segCase) (vh.Obs, error) {
			var o vh.Obs
			text := c.Text.text()
			var want, got []seg
			for i := 0; i < len(text); {
				sp := unicode.IsSpace(text[i])
				j := i
				for j < len(text) && unicode.IsSpace(text[j]) == sp {
					j++
				}
				p := 100
				if sp {
					p = -100
				}
				want = append(want, seg{string(text[i:j]), p, 0})
				i = j
			}
			s := segment.NewSegmenter()
			initSegmenter(s, text, c.Slice)
			for s.Next() {
				a, b := s.Penalties()
				got = append(got, seg{s.Text(), a, b})
			}
			o.NonTrivial = len(want) > 2 && len(want) < len(text)
			o.Label(len(text) > 100, "more than 100 runes")
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return o, fmt.Errorf("segments\n got %v\nwant %v", got, want)
			}
			return o, s.Err()
		},
	}.Run(t)
}
