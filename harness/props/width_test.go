package props

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"golang.org/x/text/language"
	"pgregory.net/rapid"
)

// ctxSpec describes a typesetting environment; wide is what it stands for.
type ctxSpec struct {
	Kind   string `json:"kind"`            // nil, empty, latin, ea, locale, env
	LcAll  string `json:"lcAll,omitempty"` // for env
	Lang   string `json:"lang,omitempty"`
	Force  bool   `json:"force,omitempty"`
	Script string `json:"script,omitempty"`
	Locale string `json:"locale,omitempty"`
}

var narrowLocales = []string{"", "und", "en", "en-US", "de", "de_CH", "he", "ar", "ru", "fr", "el", "hi", "id", "bo", "pt-BR", "tr",
	"es", "es-MX", "it", "pl", "uk", "sw", "fa", "ur", "ta", "te", "ka", "am", "nl-NL", "sr", "sr-Latn", "sr-Cyrl", "en-GB", "fr-CA", "az", "kk", "hy", "gu", "ne", "si", "zu", "eo"}
var wideLocales = []string{"zh", "zh-HK", "zh-Hant", "zh_CN", "ja", "ja-JP", "ko", "ko-KR", "vi", "th", "mn", "my", "km", "ii", "lo",
	"zh-TW", "zh-Hans-CN", "zh-SG", "zh-MO", "ko-KP", "vi-VN", "th-TH", "my-MM", "km-KH", "mn-MN", "lo-LA", "jpn", "kor", "tha", "vie", "khm", "mya"}
var narrowScripts = []string{"Latn", "Cyrl", "Arab", "Hebr", "Grek", "Deva", "Tibt"}
var wideScripts = []string{"Hans", "Hant", "Hani", "Hang", "Hira", "Kana", "Bopo", "Thai", "Laoo", "Khmr", "Mymr", "Yiii", "Hanb", "Lana", "Kitl", "Kits",
	"Nkdb", "Nkgb", "Plrd", "Batk", "Beng", "Bugi", "Cham", "Java", "Lisu", "Mtei", "Bali", "Khar", "Rjng", "Roro", "Tglg", "Wole", "Buhd", "Tagb"}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (c ctxSpec) make() *uax11.Context {
	switch c.Kind {
	case "nil":
		return nil
	case "latin":
		return uax11.LatinContext
	case "ea":
		return uax11.EastAsianContext
	case "empty":
		return &uax11.Context{}
	case "env":
		defer setEnv("LC_ALL", c.LcAll)()
		defer setEnv("LANG", c.Lang)()
		return uax11.ContextFromEnvironment()
	}
	x := &uax11.Context{ForceEastAsian: c.Force, Locale: c.Locale}
	if c.Script != "" {
		x.Script = language.MustParseScript(c.Script)
	}
	return x
}

// setEnv sets an environment variable and returns a function to undo it.
func setEnv(name, value string) func() {
	old, ok := os.LookupEnv(name)
	os.Setenv(name, value)
	return func() {
		os.Unsetenv(name)
		if ok {
			os.Setenv(name, old)
		}
	}
}

func (c ctxSpec) wide() bool {
	switch c.Kind {
	case "nil", "latin", "empty":
		return false
	case "ea":
		return true
	case "env":
		l := c.LcAll
		if l == "" {
			l = c.Lang
		}
		l = strings.Replace(strings.TrimSuffix(l, ".UTF-8"), "_", "-", 1)
		return has(wideLocales, l) || has(wideLocales, strings.Replace(l, "-", "_", 1))
	}
	return c.Force || has(wideScripts, c.Script) || has(wideLocales, c.Locale)
}

var genCtx = rapid.Custom(func(t *rapid.T) ctxSpec {
	c := ctxSpec{Kind: rapid.SampledFrom([]string{"nil", "empty", "latin", "ea", "locale", "locale", "locale", "env"}).Draw(t, "kind")}
	if c.Kind == "env" {
		locale := rapid.Custom(func(t *rapid.T) string {
			x := rapid.OneOf(rapid.SampledFrom(wideLocales), rapid.SampledFrom(narrowLocales), rapid.Just("C"), rapid.Just("")).Draw(t, "locale")
			if x != "" && rapid.Bool().Draw(t, "unix") {
				x = strings.Replace(x, "-", "_", 1) + ".UTF-8"
			}
			return x
		})
		c.LcAll = locale.Draw(t, "LC_ALL")
		if rapid.Bool().Draw(t, "unset") {
			c.LcAll = ""
		}
		c.Lang = locale.Draw(t, "LANG")
	}
	if c.Kind == "locale" {
		c.Force = rapid.IntRange(0, 4).Draw(t, "force") == 0
		if rapid.Bool().Draw(t, "wide") {
			c.Locale = rapid.SampledFrom(wideLocales).Draw(t, "locale")
		} else {
			c.Locale = rapid.SampledFrom(narrowLocales).Draw(t, "locale")
		}
		if rapid.IntRange(0, 2).Draw(t, "script") == 0 {
			l := append([]string{}, wideScripts...)
			if !has(wideLocales, c.Locale) { // a context contradicting itself is nobody's business
				l = append(l, narrowScripts...)
			}
			c.Script = rapid.SampledFrom(l).Draw(t, "which")
		}
	}
	return c
})

// widths are defined for the characters which the repository's tables (Unicode
// 12 for East_Asian_Width, 11 for emojis) know.
// U+1F93B and U+1F946 were wide then, and are not any more. Characters which
// became or ceased to be marks in later versions of Unicode (U+1171E did) are
// left out.
func inWidth(r rune) bool {
	return ref.InU11(r) && zeroWidth(r) == goZeroWidth(r) && r != 0x1F93B && r != 0x1F946 && r&0xFFFE != 0xFFFE
}

var widthPool = makePool(func(r rune) string {
	k := ref.Load("Ea").Of(r)
	if c := refEmojiClass(r); c >= 0 {
		k += fmt.Sprint("+", c)
	}
	if zeroWidth(r) {
		k += "+0"
	}
	if r < 128 {
		k += "+ASCII"
	}
	return k
}, inWidth)

func zeroWidth(r rune) bool {
	switch ref.Load("Gc").Of(r) {
	case "Mn", "Me", "Nonspacing_Mark", "Enclosing_Mark":
		return true
	case "Cf", "Format":
		return r != 0xAD && !prependedConcat(r)
	}
	return false
}

// the same with the data of Go's standard library, another version of Unicode
func goZeroWidth(r rune) bool {
	return unicode.In(r, unicode.Mn, unicode.Me) || unicode.Is(unicode.Cf, r) && r != 0xAD && !prependedConcat(r)
}

// Prepended_Concatenation_Mark (PropList.txt, Unicode 11): visible format characters
func prependedConcat(r rune) bool {
	return r >= 0x600 && r <= 0x605 || r == 0x6DD || r == 0x70F || r == 0x8E2 || r == 0x110BD || r == 0x110CD
}

// refWidth is the width of one grapheme.
func refWidth(g []rune, wide bool) int {
	if len(g) == 0 {
		return 0
	}
	zero, vs16 := true, false
	for _, r := range g {
		zero = zero && zeroWidth(r)
		vs16 = vs16 || r == 0xFE0F
	}
	if zero {
		return 0
	}
	if refEmojiClass(g[0]) >= 0 && (g[0] > 127 || vs16) {
		return 2
	}
	switch ref.Load("Ea").Of(g[0]) {
	case "W", "F", "Wide", "Fullwidth":
		return 2
	case "Na", "H", "Narrow", "Halfwidth":
		return 1
	}
	if wide { // neutral and ambiguous characters
		return 2
	}
	return 1
}

type widthCase struct {
	Ctx    ctxSpec `json:"ctx"`
	Text   vh.Text `json:"text"`
	Prefix vh.Raw  `json:"prefix,omitempty"` // illegal bytes in front
	Suffix vh.Raw  `json:"suffix,omitempty"`
}

var genWidthText = rapid.Custom(func(t *rapid.T) vh.Text {
	ext := rapid.SampledFrom([]rune{0x301, 0x200d, 0xfe0f, 0xfe0e, 0x20e3, 0x1f3fb, 0x5bc, 0x94d, 0x93f, 0x1f468, 0xe0067, 0xe007f, 0x1f1e9})
	return genText(10, widthPool.gen(), rapid.OneOf(widthPool.gen(), ext), rapid.OneOf(rapid.SampledFrom([]rune("aé世#0*😀©\u00a0\u0300ㅏ")), ext)).Draw(t, "text")
})

func TestWidth(t *testing.T) {
	vh.Sub[widthCase]{
		Prop: "P11", Quick: 2000000, Thorough: 20000000,
		Rule: "the grapheme clusters (by the reference model) of a random text over all combinations of East_Asian_Width, emoji class and zero width, in a context given as nil, predefined, empty, or by locale/script/force; non-trivial: a cluster of several code points, an emoji, a wide or a zero width character is among them",
		Fixed: func() (f []widthCase) { // every character on its own
			for r := rune(1); r < 0x110000; {
				var x vh.Text
				for ; r < 0x110000 && len(x) < 512; r++ {
					if inWidth(r) {
						if ref.GCB(r) != "Other" {
							x = append(x, '\n') // a grapheme cluster of its own
						}
						x = append(x, r)
					}
				}
				f = append(f, widthCase{Ctx: ctxSpec{Kind: "latin"}, Text: x}, widthCase{Ctx: ctxSpec{Kind: "ea"}, Text: x})
			}
			return
		}(),
		Gen: func(t *rapid.T) widthCase {
			c := widthCase{Ctx: genCtx.Draw(t, "ctx"), Text: genWidthText.Draw(t, "text")}
			if rapid.IntRange(0, 9).Draw(t, "illegal") == 0 {
				c.Prefix = vh.Raw(rapid.SampledFrom([]string{"\x80", "\xff", "\xe4\xb8", "\xed\xa0\x80"}).Draw(t, "prefix"))
			}
			if rapid.IntRange(0, 9).Draw(t, "padded") == 0 {
				c.Suffix = vh.Raw(rapid.SampledFrom([]string{"\x80", "\x00", "\x00\x00\x00"}).Draw(t, "suffix"))
			}
			return c
		},
		Check: func(c widthCase) (vh.Obs, error) { // no setup(): Width() has to work on its own
			var o vh.Obs
			ctx := c.Ctx.make()
			wide := c.Ctx.wide()
			o.Label(wide, "East Asian context")
			o.Label(c.Prefix != "", "illegal bytes")
			for _, g := range append(cut(c.Text, ref.GraphemeBreaks(c.Text)), "") {
				want := refWidth([]rune(g), wide)
				in := string(c.Prefix) + g
				if c.Suffix != "" && want > 0 { // padding after the grapheme does not count
					in += string(c.Suffix)
				}
				if c.Prefix != "" {
					want = 0
				}
				b := []byte(in)
				got := uax11.Width(b, ctx)
				if got != want {
					return o, fmt.Errorf("Width(%+q, %+v) = %d, want %d", in, c.Ctx, got, want)
				}
				if string(b) != in {
					return o, fmt.Errorf("Width changed its argument from %+q to %+q", in, b)
				}
				if utf8.RuneCountInString(g) > 1 || want != 1 {
					o.NonTrivial = true
				}
				o.Label(want == 0, "width 0")
				o.Label(want == 2, "width 2")
			}
			if ctx != nil && c.Ctx.Kind == "locale" && c.Ctx.Script == "" && !c.Ctx.Force && len(c.Text) > 0 && c.Prefix == "" {
				// an incomplete context is completed
				if s := ctx.Script.String(); strings.HasPrefix(c.Ctx.Locale, "zh") != (s == "Hans" || s == "Hant") {
					return o, fmt.Errorf("context for locale %q has script %s", c.Ctx.Locale, s)
				}
			}
			return o, nil
		},
	}.Run(t)
}

type strWidthCase struct {
	Ctx ctxSpec  `json:"ctx"`
	A   longText `json:"a"`
	B   vh.Text  `json:"b"`
}

func TestStringWidth(t *testing.T) {
	vh.Sub[strWidthCase]{
		Prop: "P12", Quick: 800000, Thorough: 6000000,
		Rule: "two random texts (up to several hundred graphemes) and a context; checked: width of each as the sum over its graphemes, by the model and by Width(), and additivity if there is a grapheme boundary between them; non-trivial: more than one grapheme and at least one of a width other than 1",
		Gen: func(t *rapid.T) strWidthCase {
			// U+0000 ends a text for the grapheme breaker (a known finding of P08)
			g := rapid.OneOf(widthPool.gen().Filter(noNUL), rapid.SampledFrom([]rune("aé世#0*😀©\u00a0\u0300ㅏ\u200d\ufe0f\ufffd")))
			return strWidthCase{genCtx.Draw(t, "ctx"), genLong(t, g, 60), genText(8, g).Draw(t, "b")}
		},
		Check: func(c strWidthCase) (vh.Obs, error) {
			setup()
			var o vh.Obs
			wide := c.Ctx.wide()
			ctx := c.Ctx.make()
			measure := func(x []rune) (int, error) {
				s := grapheme.StringFromString(string(x))
				got := uax11.StringWidth(s, ctx)
				sum, want := 0, 0
				gg := graphemes(x, s.Len())
				for _, g := range gg {
					w := refWidth([]rune(g), wide)
					o.NonTrivial = o.NonTrivial || len(gg) > 1 && w != 1
					want += w
					sum += uax11.Width([]byte(g), ctx)
				}
				if got != want || got != sum {
					return got, fmt.Errorf("StringWidth(%+q, %+v) = %d; widths of its graphemes add up to %d by Width() and to %d by the model", string(x), c.Ctx, got, sum, want)
				}
				if again := uax11.StringWidth(s, ctx); again != got {
					return got, fmt.Errorf("StringWidth(%+q, %+v) = %d, then %d", string(x), c.Ctx, got, again)
				}
				return got, nil
			}
			a := c.A.text()
			if len(string(a))+len(string(c.B)) > grapheme.MaxByteLen {
				o.Skip = true
				return o, nil
			}
			wa, err := measure(a)
			if err != nil {
				return o, err
			}
			wb, err := measure(c.B)
			if err != nil {
				return o, err
			}
			ab := append(append([]rune{}, a...), c.B...)
			wab, err := measure(ab)
			if err != nil {
				return o, err
			}
			o.Label(wide, "East Asian context")
			o.Label(len(string(ab)) > 254, "more than 254 bytes")
			if len(a) == 0 || len(c.B) == 0 || ref.GraphemeBreaks(ab)[len(a)] && !splitRI(a, c.B) {
				o.Label(true, "additive")
				if wab != wa+wb {
					return o, fmt.Errorf("widths %d + %d, but %d for the concatenation of %+q and %+q", wa, wb, wab, string(a), string(c.B))
				}
			}
			return o, nil
		},
	}.Run(t)
}

// splitRI: a boundary between a and b does not make them independent if b starts
// with regional indicators, which pair up differently after those of a, or if
// a ends with a joiner.
func splitRI(a, b []rune) bool {
	return ref.GCB(b[0]) == "Regional_Indicator" && ref.GCB(a[len(a)-1]) == "Regional_Indicator"
}
