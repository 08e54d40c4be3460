package props

import (
	"io"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// pool holds code points by class; a class is drawn first, then a member, such
// that rare classes are as frequent as common ones.
type pool [][]rune

func makePool(class func(r rune) string, ok func(r rune) bool) pool {
	m := map[string][]rune{}
	for r := rune(0); r < 0x110000; r++ {
		if r >= 0xD800 && r <= 0xDFFF || !ok(r) {
			continue
		}
		k := class(r)
		m[k] = append(m[k], r)
	}
	var names []string
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	var p pool
	for _, k := range names {
		p = append(p, m[k])
	}
	return p
}

// thin keeps n evenly spread members per class.
func (p pool) thin(n int) pool {
	var q pool
	for _, c := range p {
		if len(c) <= n {
			q = append(q, c)
			continue
		}
		var d []rune
		for i := 0; i < n; i++ {
			d = append(d, c[i*len(c)/n])
		}
		q = append(q, d)
	}
	return q
}

func (p pool) gen() *rapid.Generator[rune] {
	return rapid.Custom(func(t *rapid.T) rune {
		c := p[rapid.IntRange(0, len(p)-1).Draw(t, "class")]
		return c[rapid.IntRange(0, len(c)-1).Draw(t, "member")]
	})
}

func (p pool) flat() []rune {
	var f []rune
	for _, c := range p {
		f = append(f, c...)
	}
	return f
}

// class returns the members of the class of the first member that a name stands for.
func (p pool) class(name string) []rune {
	r := classSample[name]
	for _, c := range p {
		i := sort.Search(len(c), func(i int) bool { return c[i] >= r })
		if r != 0 && i < len(c) && c[i] == r {
			return c
		}
	}
	panic("no such class: " + name)
}

// classSample has a member for each of the classes which rules are made of.
var classSample = map[string]rune{
	"ExtPict": 0x1F600, "Extend": 0x300, "ZWJ": 0x200D, "RI": 0x1F1E6, "Prepend": 0x600,
	"L": 0x1100, "V": 0x1160, "T": 0x11A8, "LV": 0xAC00, "LVT": 0xAC01, "SpacingMark": 0x903,
	"CR": '\r', "LF": '\n', "Letter": 'a', "Hebrew": 0x5D0, "MidLetter": 0xB7, "MidNumLet": '.', "Single": '\'',
	"Double": '"', "Numeric": '1', "MidNum": ',', "Katakana": 0x30A2, "ExtendNumLet": '_', "Format": 0xAD, "Space": ' ',
	"Other": '!', "Newline": 0x85,
}

var graphemeRules = []string{"ExtPict Extend ZWJ ExtPict", "RI RI RI", "Prepend Other", "L V T", "LV T", "LVT T", "LV V", "Other SpacingMark", "CR LF", "Other ZWJ ExtPict"}

var wordRules = []string{
	"Letter MidLetter Letter", "Letter MidNumLet Letter", "Letter Single Hebrew", "Hebrew Single Other", "Hebrew Double Hebrew",
	"Numeric MidNum Numeric", "Numeric MidNumLet Numeric", "Numeric Single Numeric", "Letter Numeric Letter", "Katakana Katakana",
	"Letter ExtendNumLet Katakana", "Numeric ExtendNumLet Numeric", "RI RI RI", "Space Space", "Space Extend Space", "ZWJ ExtPict", "Other Extend ZWJ ExtPict",
	"Letter Extend MidLetter Format Letter", "Numeric ZWJ MidNum Extend Numeric", "RI Extend RI ZWJ RI", "CR LF", "Newline Extend Letter",
	"Letter MidLetter Numeric", "Numeric MidNum Letter", "Hebrew Double Letter", "Letter Single Extend",
}

func noNUL(r rune) bool { return r != 0 }

// wordPool: classes of UAX#29 word breaking, split by Extended_Pictographic.
var wordPool = makePool(func(r rune) string {
	c := ref.WB(r)
	if ref.ExtPict(r) {
		c += "+ExtPict"
	}
	return c
}, func(r rune) bool { return r != 0 && ref.InU11(r) })

var graphemePool = makePool(func(r rune) string {
	c := ref.GCB(r)
	if ref.ExtPict(r) {
		c += "+ExtPict"
	}
	return c
}, func(r rune) bool { return r != 0 && r != 0xFFFD && ref.InU11(r) })

// genText draws texts from one of several rune sources.
func genText(maxLen int, gens ...*rapid.Generator[rune]) *rapid.Generator[vh.Text] {
	return rapid.Custom(func(t *rapid.T) vh.Text {
		g := gens[0]
		if len(gens) > 1 {
			g = gens[rapid.IntRange(0, len(gens)-1).Draw(t, "source")]
		}
		return vh.Text(rapid.SliceOfN(g, 0, maxLen).Draw(t, "text"))
	})
}

// text draws texts over the classes of a pool: all classes alike, a few classes
// (such that the rules for pairs and runs of them meet often), runs of the same
// character, and, now and then, texts of several hundred code points.
func (p pool) text(maxLen int, patterns ...string) *rapid.Generator[vh.Text] {
	all, thin := p.gen(), p.thin(2).gen()
	return rapid.Custom(func(t *rapid.T) vh.Text {
		var x vh.Text
		min := rapid.IntRange(0, maxLen/2).Draw(t, "min")
		repeat := rapid.IntRange(0, 11).Draw(t, "repeat")
		if repeat >= 10 {
			// a short text with one of its characters repeated many times
			from := rapid.SampledFrom([]*rapid.Generator[rune]{all, thin}).Draw(t, "from")
			if rapid.Bool().Draw(t, "few") {
				from = rapid.SampledFrom(rapid.SliceOfN(all, 2, 4).Draw(t, "palette"))
			}
			x = rapid.SliceOfN(from, 1, 8).Draw(t, "text")
			if repeat == 10 && len(patterns) > 0 { // the characters of a rule, with something around them
				for _, k := range strings.Fields(rapid.SampledFrom(patterns).Draw(t, "rule")) {
					x = append(x, rapid.SampledFrom(p.class(k)).Draw(t, "member"))
				}
				x = append(x, rapid.SliceOfN(from, 0, 2).Draw(t, "after")...)
			}
			i := rapid.IntRange(0, len(x)-1).Draw(t, "at")
			n := rapid.IntRange(1, 70).Draw(t, "times")
			if rapid.IntRange(0, 9).Draw(t, "many") == 9 {
				n *= 7
			}
			y := append(vh.Text{}, x[:i]...)
			for ; n > 0; n-- {
				y = append(y, x[i])
			}
			return append(y, x[i:]...)
		}
		switch rapid.IntRange(0, 9).Draw(t, "shape") {
		case 0, 1:
			return rapid.SliceOfN(all, min, maxLen).Draw(t, "text")
		case 2, 3:
			return rapid.SliceOfN(thin, min, maxLen).Draw(t, "text")
		default:
			palette := rapid.SliceOfN(all, 1, 5).Draw(t, "palette")
			g := rapid.SampledFrom(palette)
			if long := rapid.IntRange(0, 24).Draw(t, "long"); long == 24 {
				for _, r := range rapid.SliceOfN(g, 1, 12).Draw(t, "runs") {
					for n := rapid.IntRange(1, 60).Draw(t, "length"); n > 0; n-- {
						x = append(x, r)
					}
				}
				return x
			} else if long > 18 {
				for _, r := range rapid.SliceOfN(g, 1, 8).Draw(t, "runs") {
					for n := rapid.IntRange(1, 8).Draw(t, "length"); n > 0; n-- {
						x = append(x, r)
					}
				}
				return x
			}
			return rapid.SliceOfN(g, min, 2*maxLen).Draw(t, "text")
		}
	})
}

func initSegmenter(s *segment.Segmenter, text vh.Text, slice bool) {
	if slice {
		s.InitFromSlice(append([]rune{}, text...))
	} else if slices.ContainsFunc(text, func(r rune) bool { return !utf8.ValidRune(r) }) {
		s.Init(&faultReader{text: text, err: io.EOF})
	} else {
		s.Init(strings.NewReader(string(text)))
	}
}
