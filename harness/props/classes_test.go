package props

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"unicode"

	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// emojiRange returns the range table of an emoji property (set up lazily).
func emojiRange(name string) *unicode.RangeTable {
	switch name {
	case "Emoji":
		return emoji.Emoji
	case "EPres":
		return emoji.Emoji_Presentation
	case "EMod":
		return emoji.Emoji_Modifier
	case "EBase":
		return emoji.Emoji_Modifier_Base
	case "EComp":
		return emoji.Emoji_Component
	case "ExtPict":
		return emoji.Extended_Pictographic
	}
	panic(name)
}

var emojiProps = []string{"Emoji", "EPres", "EMod", "EBase", "EComp", "ExtPict"}

// refEmoji is the value of an emoji property in Unicode 11.
func refEmoji(name string, r rune) bool {
	if r == 0x26A7 && name != "ExtPict" { // became Emoji in version 13
		return false
	}
	if name == "EBase" { // became modifier bases in versions 12 and 13
		switch r {
		case 0x1F46A, 0x1F46B, 0x1F46C, 0x1F46D, 0x1F46F, 0x1F48F, 0x1F491, 0x1F91D, 0x1F93C:
			return false
		}
	}
	return ref.Load(name).Of(r) == "Y"
}

func refEmojiClass(r rune) int {
	for i, n := range emojiProps {
		if refEmoji(n, r) {
			return i
		}
	}
	return -1
}

// exported range tables
func wordTable(name string) *unicode.RangeTable { return wordTables()[name] }

var wordTables = sync.OnceValue(func() map[string]*unicode.RangeTable {
	return map[string]*unicode.RangeTable{
		"ALetter": uax29.ALetter, "CR": uax29.CR, "Double_Quote": uax29.Double_Quote, "Extend": uax29.Extend,
		"ExtendNumLet": uax29.ExtendNumLet, "Format": uax29.Format, "Hebrew_Letter": uax29.Hebrew_Letter,
		"Katakana": uax29.Katakana, "LF": uax29.LF, "MidLetter": uax29.MidLetter, "MidNum": uax29.MidNum,
		"MidNumLet": uax29.MidNumLet, "Newline": uax29.Newline, "Numeric": uax29.Numeric,
		"Regional_Indicator": uax29.Regional_Indicator, "Single_Quote": uax29.Single_Quote,
		"WSegSpace": uax29.WSegSpace, "ZWJ": uax29.ZWJ,
	}
})

func graphemeTable(name string) *unicode.RangeTable { return graphemeTables()[name] }

var graphemeTables = sync.OnceValue(func() map[string]*unicode.RangeTable {
	return map[string]*unicode.RangeTable{
		"CR": grapheme.CR, "LF": grapheme.LF, "Prepend": grapheme.Prepend, "Control": grapheme.Control,
		"Extend": grapheme.Extend, "Regional_Indicator": grapheme.Regional_Indicator,
		"SpacingMark": grapheme.SpacingMark, "L": grapheme.L, "V": grapheme.V, "T": grapheme.T,
		"LV": grapheme.LV, "LVT": grapheme.LVT, "ZWJ": grapheme.ZWJ,
	}
})

type classCase struct {
	From rune `json:"from"`
	To   rune `json:"to"` // inclusive
}

func checkClasses(r rune) error {
	assigned := ref.InU11(r)
	eot := r == 0
	// words
	got := strings.TrimSuffix(uax29.ClassForRune(r).String(), "Class")
	want := ref.WB(r)
	if eot {
		want = "eot"
	}
	if assigned && got != want {
		return fmt.Errorf("word class of %U is %s, want %s", r, got, want)
	}
	if !assigned && got != "Other" && got != want {
		return fmt.Errorf("word class of unassigned %U is %s", r, got)
	}
	if got != "Other" && got != "eot" && !unicode.Is(wordTable(got), r) {
		return fmt.Errorf("%U is of word class %s, but not in its range table", r, got)
	}
	for n, tab := range wordTables() {
		if n != got && unicode.Is(tab, r) {
			return fmt.Errorf("%U is of word class %s, but in the range table of %s as well", r, got, n)
		}
	}
	if assigned && !eot { // class used for segmentation: pictographs are a class of their own
		c := classBreaker().CodePointClassFor(r)
		if want == "Other" && ref.ExtPict(r) {
			if c != classBreaker().CodePointClassFor(0x1F600) || c == classBreaker().CodePointClassFor('!') {
				return fmt.Errorf("word breaker: %U is a pictograph, but has class %d", r, c)
			}
		} else if c != int(uax29.ClassForRune(r)) {
			return fmt.Errorf("word breaker: %U has class %d, not %s", r, c, want)
		}
	}
	// graphemes; U+FFFD is in the table of controls, as the repository's conformance test needs
	got = strings.TrimSuffix(grapheme.ClassForRune(r).String(), "Class")
	want = ref.GCB(r)
	if eot {
		want = "eot"
	}
	if want == "Other" {
		want = "Any"
	}
	if r != 0xFFFD || vh.Strict() {
		if assigned && got != want {
			return fmt.Errorf("grapheme class of %U is %s, want %s", r, got, want)
		}
		if !assigned && got != "Any" && got != want {
			return fmt.Errorf("grapheme class of unassigned %U is %s, want %s", r, got, want)
		}
	}
	if got != "Any" && got != "eot" && !unicode.Is(graphemeTable(got), r) {
		return fmt.Errorf("%U is of grapheme class %s, but not in its range table", r, got)
	}
	for n, tab := range graphemeTables() {
		if n != got && !eot && unicode.Is(tab, r) {
			return fmt.Errorf("%U is of grapheme class %s, but in the range table of %s as well", r, got, n)
		}
	}
	// emojis
	if assigned {
		for _, n := range emojiProps {
			if g, w := unicode.Is(emojiRange(n), r), refEmoji(n, r); g != w {
				return fmt.Errorf("%U in %s: %v, want %v", r, n, g, w)
			}
		}
		if g, w := int(emoji.EmojisClassForRune(r)), refEmojiClass(r); g != w {
			return fmt.Errorf("emoji class of %U is %d, want %d", r, g, w)
		}
	}
	return nil
}

var classBreaker = sync.OnceValue(func() *uax29.WordBreaker { return uax29.NewWordBreaker(1) })

func TestClasses(t *testing.T) {
	const block = 0x1000
	vh.Sub[classCase]{
		Prop: "P10", Quick: 0x110 * 8, Thorough: 0x110 * 80,
		Rule: "a range of code points, classified one by one for words, graphemes and emojis (the ranges of 4096 code points which cover all of Unicode always run first, random ranges follow); non-trivial: the range has characters of at least two classes",
		Fixed: func() (f []classCase) {
			for r := rune(0); r < 0x110000; r += block {
				f = append(f, classCase{r, r + block - 1})
			}
			return
		}(),
		Gen: func(t *rapid.T) classCase {
			from := rapid.OneOf(textRune, rapid.Int32Range(-5, 0x110010)).Draw(t, "from")
			return classCase{from, from + rapid.Int32Range(0, 40).Draw(t, "n")}
		},
		Check: func(c classCase) (vh.Obs, error) {
			setup()
			var o vh.Obs
			seen := map[string]bool{}
			for r := c.From; r <= c.To; r++ {
				if r < 0 || r > 0x10FFFF || r >= 0xD800 && r <= 0xDFFF { // must not be classified as anything, nor panic
					if g := uax29.ClassForRune(r); g != uax29.Other {
						return o, fmt.Errorf("word class of %X is %s", r, g)
					}
					if g := emoji.EmojisClassForRune(r); g >= 0 {
						return o, fmt.Errorf("emoji class of %X is %s", r, g)
					}
					grapheme.ClassForRune(r)
					continue
				}
				if err := checkClasses(r); err != nil {
					return o, err
				}
				if ref.InU11(r) {
					seen[ref.WB(r)+ref.GCB(r)+fmt.Sprint(refEmojiClass(r))] = true
				}
			}
			o.NonTrivial = len(seen) > 1
			return o, nil
		},
	}.Run(t)
}
