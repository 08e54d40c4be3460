// Package lines checks package uax14. The repository does not contain its
// class tables; check.py makes them with the repository's generator and
// overlays them (VERIF_LB names the data file they were made from), see
// check.py.
package lines

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"testing"
	"unicode"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax14"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// class is the resolved line breaking class of a code point.
func class(r rune) string {
	gc := ref.Load("Gc").Of(r)
	return ref.LineClass(ref.LB(r), gc == "Mn" || gc == "Mc")
}

var (
	members = map[string][]rune{} // class -> code points
	classes []string
)

func init() {
	for r := rune(1); r < 0x110000; r++ {
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		// unresolved classes are drawn separately
		c := class(r)
		k := ref.LB(r)
		if k != c {
			k = c + "<" + k
		}
		members[k] = append(members[k], r)
	}
	for k := range members {
		classes = append(classes, k)
	}
	sort.Strings(classes)
}

type lineCase struct {
	Before vh.Text // segmented first, with the same breaker
	Stop   int     // after that many segments of it
	Slice  bool    // input is a byte slice
	Zero   bool    `json:",omitempty"` // BreakOnZero; makes no difference, no place is left undecided
	Text   vh.Text
}

func genText(max int) *rapid.Generator[vh.Text] {
	return rapid.Custom(func(t *rapid.T) vh.Text {
		cl := classes
		if rapid.Bool().Draw(t, "few") {
			cl = rapid.SliceOfN(rapid.SampledFrom(classes), 1, 5).Draw(t, "classes")
		}
		marks := rapid.SampledFrom([]int{0, 0, 3, 8}).Draw(t, "marks")
		one := rapid.Custom(func(t *rapid.T) rune {
			var c string
			if marks > 0 && rapid.IntRange(0, marks).Draw(t, "mark") == 0 {
				c = rapid.SampledFrom([]string{"CM", "ZWJ", "CM<SA"}).Draw(t, "class")
			} else {
				c = rapid.SampledFrom(cl).Draw(t, "class")
			}
			m := members[c]
			return m[rapid.IntRange(0, len(m)-1).Draw(t, "member")]
		})
		x := vh.Text(rapid.SliceOfN(one, 0, max).Draw(t, "text"))
		if rapid.IntRange(0, 5).Draw(t, "run") == 5 && len(x) > 0 {
			// repeat one of the characters, or spaces
			i := rapid.IntRange(0, len(x)-1).Draw(t, "at")
			if rapid.Bool().Draw(t, "spaces") && i > 0 {
				x = append(append(append(vh.Text{}, x[:i]...), ' '), x[i:]...)
			}
			n := rapid.IntRange(1, 60).Draw(t, "times")
			y := append(vh.Text{}, x[:i]...)
			for ; n > 0; n-- {
				y = append(y, x[i])
			}
			x = append(y, x[i:]...)
		}
		return x
	})
}

func checkLines(c lineCase) (vh.Obs, error) {
	var o vh.Obs
	seg := segment.NewSegmenter(uax14.NewLineWrap())
	seg.BreakOnZero(c.Zero, c.Zero)
	if len(c.Before) > 0 {
		seg.Init(strings.NewReader(string(c.Before)))
		for i := 0; i < c.Stop && seg.Next(); i++ {
			if i > len(c.Before) {
				return o, fmt.Errorf("segmenter does not stop")
			}
		}
	}
	if c.Slice {
		seg.InitFromSlice([]rune(c.Text))
	} else {
		seg.Init(strings.NewReader(string(c.Text)))
	}
	cl := make([]string, len(c.Text))
	for i, r := range c.Text {
		cl[i] = class(r)
	}
	want := ref.LineBreaks(cl)
	at, n, inner := 0, 0, 0
	for seg.Next() {
		if n++; n > len(c.Text)+1 {
			return o, fmt.Errorf("segmenter does not stop")
		}
		s := seg.Text()
		for k := range []rune(s) {
			i := at + k
			last := k == len([]rune(s))-1
			if i >= len(c.Text) || []rune(s)[k] != c.Text[i] {
				return o, fmt.Errorf("segment %d is %+q, which is not the text at position %d", n, s, at)
			}
			if last != (want[i] != ref.NoBreak) {
				return o, fmt.Errorf("break after character %d %+q: %v, should be %v (classes %v)", i, c.Text[i], last, !last, cl)
			}
		}
		at += len([]rune(s))
		p1, _ := seg.Penalties()
		if at < len(c.Text) {
			inner++
			must := want[at-1] == ref.MustBrk
			o.Label(must, "mandatory break within the text")
			if (p1 <= uax.InfiniteMerits) != must {
				return o, fmt.Errorf("penalty after character %d is %d; mandatory: %v (classes %v)", at-1, p1, must, cl)
			}
		}
	}
	if err := seg.Err(); err != nil {
		return o, err
	}
	if at != len(c.Text) {
		return o, fmt.Errorf("segments end at character %d of %d", at, len(c.Text))
	}
	for i := range cl {
		o.Label(cl[i] != ref.LB(c.Text[i]), "resolved class (LB1)")
		o.Label(i > 0 && cl[i] == "CM", "combining mark (LB9, LB10)")
	}
	o.Label(len(c.Before) > 0 && c.Stop > 0, "reused segmenter")
	o.NonTrivial = inner > 0 && inner < len(c.Text)-1
	return o, nil
}

func TestLineBreaks(t *testing.T) {
	vh.Sub[lineCase]{
		Prop: "P29", Quick: 400000, Thorough: 20000000,
		Rule: "a text of up to 24 code points (or a run of up to 60) drawn by line breaking class, from all classes or up to five, with or without extra combining marks and joiners, read from a reader or a slice, with BreakOnZero or not, by a new segmenter or one which has segmented another text; the breaks must be those of an own implementation of LB1-LB31, with mandatory breaks told from optional ones by their penalty; non-trivial: at least one break and one position without",
		Gen: func(t *rapid.T) lineCase {
			c := lineCase{Text: genText(24).Draw(t, "text"), Slice: rapid.Bool().Draw(t, "slice"), Zero: rapid.Bool().Draw(t, "zero")}
			if rapid.IntRange(0, 3).Draw(t, "reuse") == 0 {
				c.Before = genText(8).Draw(t, "before")
				c.Stop = rapid.IntRange(0, len(c.Before)+1).Draw(t, "stop")
			}
			return c
		},
		Check: checkLines,
	}.Run(t)
}

type tripleCase struct{ First, Second string }

// TestLineTriples enumerates all triples of classes, and all pairs with marks between them.
func TestLineTriples(t *testing.T) {
	var all []tripleCase
	for _, a := range classes {
		for _, b := range classes {
			all = append(all, tripleCase{a, b})
		}
	}
	vh.Sub[tripleCase]{
		Prop: "P29", Fixed: all,
		Rule: "two line breaking classes; texts with these two and any third class after, between or before them, with members of the classes taken from all over the class, plus a combining mark or joiner at each place; oracle as above; non-trivial: every case",
		Check: func(c tripleCase) (vh.Obs, error) {
			var o vh.Obs
			o.NonTrivial = true
			pick := func(k string, i int) rune { m := members[k]; return m[(i*7919)%len(m)] }
			for i, k := range classes {
				x := []rune{pick(c.First, i), pick(c.Second, i), pick(k, i)}
				for m := 0; m < 9; m++ {
					var text vh.Text
					mark := []string{"CM", "ZWJ"}[m&1]
					for j, r := range x {
						if m > 0 && m/2 == j+1 {
							text = append(text, pick(mark, i))
						}
						text = append(text, r)
					}
					if _, err := checkLines(lineCase{Text: text, Zero: (i+m/2)%2 == 1}); err != nil {
						return o, fmt.Errorf("%+q: %v", text, err)
					}
				}
			}
			return o, nil
		},
	}.Run(t)
}

type blockCase struct{ From, To rune }

func TestLineClasses(t *testing.T) {
	var all []blockCase
	for r := rune(0); r < 0x110000; r += 0x1000 {
		all = append(all, blockCase{r, r + 0x1000})
	}
	uax14.SetupClasses()
	vh.Sub[blockCase]{
		Prop: "P29", Fixed: all,
		Rule: "4096 code points; the class of each must be that of the data file, resolved as LB1 says; the class of combining marks and joiners after a base is that of the base (LB9); non-trivial: not all of class XX",
		Check: func(c blockCase) (vh.Obs, error) {
			var o vh.Obs
			for r := c.From; r < c.To; r++ {
				if r == 0 {
					continue
				}
				raw := ref.LB(r)
				o.NonTrivial = o.NonTrivial || raw != "XX"
				if got := strings.TrimSuffix(uax14.ClassForRune(r).String(), "Class"); got != raw && raw != "SG" { // surrogates are not in the tables; SG and XX resolve to the same class
					return o, fmt.Errorf("class of %U is %s, should be %s", r, got, raw)
				}
				want := class(r)
				lw := uax14.NewLineWrap()
				if want == "CM" || want == "ZWJ" {
					want = "AL" // LB10
				}
				if got := strings.TrimSuffix(uax14.UAX14Class(lw.CodePointClassFor(r)).String(), "Class"); got != want {
					return o, fmt.Errorf("class of %U at the start is %s, should be %s", r, got, want)
				}
			}
			return o, nil
		},
	}.Run(t)
}

type combinedCase struct {
	Kinds string // l and one of w, g, s in any order
	Slice bool
	Text  vh.Text
}

var setupOnce sync.Once

// TestLineCombined: a line breaker together with another one.
func TestLineCombined(t *testing.T) {
	vh.Sub[combinedCase]{
		Prop: "P29", Quick: 150000, Thorough: 5000000,
		Rule: "a text as above without unassigned characters, segmented with a line breaker and a word, grapheme or simple breaker in either order; segment ends must be the union of the breaks of the reference rules for both, and the penalty of each breaker must be a breaking one exactly where it breaks; non-trivial: breaks of one only",
		Gen: func(t *rapid.T) combinedCase {
			c := combinedCase{Kinds: rapid.SampledFrom([]string{"lw", "wl", "lg", "gl", "ls", "sl"}).Draw(t, "kinds"), Slice: rapid.Bool().Draw(t, "slice")}
			for _, r := range genText(20).Draw(t, "text") {
				if ref.InU11(r) && r != 0xFFFD {
					c.Text = append(c.Text, r)
				}
			}
			return c
		},
		Check: func(c combinedCase) (vh.Obs, error) {
			var o vh.Obs
			setupOnce.Do(func() {
				grapheme.SetupGraphemeClasses()
				emoji.SetupEmojisClasses()
			})
			n := len(c.Text)
			var bb []uax.UnicodeBreaker
			var breaks [2][]bool
			for i, k := range c.Kinds {
				switch k {
				case 'l':
					bb = append(bb, uax14.NewLineWrap())
					cl := make([]string, n)
					for i, r := range c.Text {
						cl[i] = class(r)
					}
					breaks[i] = make([]bool, n+1)
					for j, k := range ref.LineBreaks(cl) {
						breaks[i][j+1] = k != ref.NoBreak
					}
				case 'w':
					bb = append(bb, uax29.NewWordBreaker(1))
					breaks[i] = ref.WordBreaks(c.Text)
				case 'g':
					bb = append(bb, grapheme.NewBreaker(1))
					breaks[i] = ref.GraphemeBreaks(c.Text)
				case 's':
					bb = append(bb, segment.NewSimpleWordBreaker())
					breaks[i] = make([]bool, n+1)
					for j := 1; j <= n; j++ {
						breaks[i][j] = j == n || unicode.IsSpace(c.Text[j-1]) != unicode.IsSpace(c.Text[j])
					}
				}
			}
			seg := segment.NewSegmenter(bb...)
			if c.Slice {
				seg.InitFromSlice([]rune(c.Text))
			} else {
				seg.Init(strings.NewReader(string(c.Text)))
			}
			pos := 0
			for seg.Next() {
				start := pos
				if pos += len([]rune(seg.Text())); pos == start || pos > n {
					return o, fmt.Errorf("segment from %d to %d of %d", start, pos, n)
				}
				for i := start + 1; i < pos; i++ {
					if breaks[0][i] || breaks[1][i] {
						return o, fmt.Errorf("break at %d missing: segment %d-%d", i, start, pos)
					}
				}
				var p [2]int
				p[0], p[1] = seg.Penalties()
				for i := range p {
					if breaking := p[i] != 0 && p[i] < uax.InfinitePenalty; breaking != breaks[i][pos] {
						return o, fmt.Errorf("position %d: penalty of breaker %c is %d, break expected: %v", pos, c.Kinds[i], p[i], breaks[i][pos])
					}
				}
				if !breaks[0][pos] && !breaks[1][pos] {
					return o, fmt.Errorf("break at %d not expected", pos)
				}
				o.NonTrivial = o.NonTrivial || breaks[0][pos] != breaks[1][pos]
			}
			if seg.Err() != nil {
				return o, seg.Err()
			}
			if pos != n {
				return o, fmt.Errorf("segments end at %d of %d", pos, n)
			}
			return o, nil
		},
	}.Run(t)
}

// counter is a reader which counts how often it has been asked.
type counter struct {
	text []rune
	n    int
}

func (r *counter) ReadRune() (rune, int, error) {
	if r.n++; r.n > len(r.text) {
		return 0, 0, io.EOF
	}
	return r.text[r.n-1], 1, nil
}

// TestStreamLines: a line breaker does not look ahead further than its rules need.
func TestStreamLines(t *testing.T) {
	vh.Sub[vh.Text]{
		Prop: "P30", Quick: 200000, Thorough: 10000000,
		Rule: "a text as in P29, with up to three parts which look like numbers, read by a segmenter with a line breaker; when a segment is delivered, not more than the next character must have been read, or if that is an opening parenthesis or hyphen (which rule LB25 makes depend on a number after it), the successor and marks in between; non-trivial: at least three segments",
		Gen: func(t *rapid.T) vh.Text {
			x := genText(40).Draw(t, "text")
			for n := rapid.IntRange(0, 4).Draw(t, "numbers"); n > 1; n-- {
				var y vh.Text
				draw := func(k ...string) {
					m := members[rapid.SampledFrom(k).Draw(t, "class")]
					y = append(y, m[rapid.IntRange(0, len(m)-1).Draw(t, "member")])
				}
				draw("PR", "PO", "AL", "NU", "BA")
				draw("OP", "HY")
				for m := rapid.IntRange(0, 6).Draw(t, "marks"); m > 3; m-- {
					draw("CM", "ZWJ")
				}
				draw("NU", "AL", "ID", "SP")
				i := rapid.IntRange(0, len(x)).Draw(t, "at")
				x = append(append(append(vh.Text{}, x[:i]...), y...), x[i:]...)
			}
			return x
		},
		Check: func(c vh.Text) (vh.Obs, error) {
			var o vh.Obs
			r := &counter{text: c}
			s := segment.NewSegmenter(uax14.NewLineWrap())
			s.Init(r)
			pos, n := 0, 0
			for s.Next() {
				pos += len(s.Runes())
				if n++; n > len(c) {
					return o, fmt.Errorf("segmenter does not stop")
				}
				need := pos + 1
				if pos < len(c) {
					if k := class(c[pos]); k == "OP" || k == "HY" {
						for need < len(c) && (class(c[need]) == "CM" || class(c[need]) == "ZWJ") {
							need++
						}
						need++
					}
				}
				need = min(need, len(c)+1)
				if r.n > need {
					return o, fmt.Errorf("segment ending at %d of %+q is delivered after reading %d characters, %d are enough", pos, string(c), r.n, need)
				}
				o.Label(r.n > pos+1, "more than one character ahead")
			}
			if s.Next(); r.n > len(c)+1 {
				return o, fmt.Errorf("reading goes on after the end of the text")
			}
			o.NonTrivial = n >= 3
			return o, s.Err()
		},
	}.Run(t)
}
