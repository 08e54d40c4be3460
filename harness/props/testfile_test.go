package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/npillmayer/uax/internal/ucdparse"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// testFileLine is a line of a Unicode test file for breaks.
type testFileLine struct {
	Kind    int      `json:"kind"` // 0: test case, 1: comment, 2: blank
	Runes   []rune   `json:"runes,omitempty"`
	Break   []bool   `json:"break,omitempty"` // after each rune but the last one
	Start   bool     `json:"start,omitempty"` // first mark is a ×
	Sep     []string `json:"sep,omitempty"`
	Lower   bool     `json:"lower,omitempty"`
	Comment string   `json:"comment,omitempty"` // includes the #
	EOL     string   `json:"eol"`
	Indent  string   `json:"indent,omitempty"`
}

func (l testFileLine) data() string {
	n := 0
	sep := func() string {
		n++
		return l.Sep[n%len(l.Sep)]
	}
	var b strings.Builder
	b.WriteString(map[bool]string{true: "×", false: "÷"}[l.Start])
	for i, r := range l.Runes {
		format := "%04X"
		if l.Lower {
			format = "%04x"
		}
		b.WriteString(sep() + fmt.Sprintf(format, r) + sep())
		if i == len(l.Runes)-1 || l.Break[i] {
			b.WriteString("÷")
		} else {
			b.WriteString("×")
		}
	}
	return b.String()
}

func (l testFileLine) String() string {
	switch l.Kind {
	case 0:
		x := l.Indent + l.data()
		if l.Comment != "" {
			x += l.Sep[0] + l.Comment
		}
		return x + l.EOL
	case 1:
		return l.Indent + l.Comment + l.EOL
	}
	return l.Sep[0] + l.EOL
}

type testFile struct {
	Lines []testFileLine `json:"lines"`
	NoEOL bool           `json:"noEol,omitempty"` // the last line is not terminated
	Rep   int            `json:"rep,omitempty"`   // number of repetitions of the lines
}

// P26: test files are read completely.
func TestBreakTestFile(t *testing.T) {
	vh.Sub[testFile]{
		Prop: "P26", Quick: 60000, Thorough: 2000000,
		Rule:  "files of up to eight lines, some repeated up to 1000 times: test cases with up to six code points (including surrogates; sometimes up to 90) and marks between them, separated by various white space, with and without a comment, comment lines, and empty lines, with all line ends and with the last one missing, lines indented by white space; the reader must deliver the test cases, in order, with text and comment, and splitting a test case must give the text and its parts; non-trivial: at least two test cases, and another line",
		Fixed: []testFile{{Rep: 1}},
		Gen: func(t *rapid.T) testFile {
			var c testFile
			blank := rapid.SampledFrom([]string{" ", "\t", "  ", " \t "})
			comment := rapid.SampledFrom([]string{"#", "# x", "#\t÷ [0.2] SPACE (Other) ÷ [0.3]", "#x # y", "# × 0061 ÷", "# ÷", "##"})
			for n := rapid.IntRange(0, 8).Draw(t, "lines"); n > 0; n-- {
				l := testFileLine{Kind: max(0, rapid.IntRange(-2, 2).Draw(t, "kind"))}
				if l.Kind < 2 && rapid.IntRange(0, 3).Draw(t, "indent") == 0 {
					l.Indent = blank.Draw(t, "by")
				}
				l.EOL = rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol")
				switch l.Kind {
				case 0:
					l.Start = rapid.IntRange(0, 3).Draw(t, "start") == 3
					l.Lower = rapid.IntRange(0, 3).Draw(t, "lower") == 3
					l.Runes = rapid.SliceOfN(rapid.OneOf(rapid.Int32Range(0, 0x2ff), rapid.Int32Range(0, 0x10ffff), rapid.SampledFrom([]rune{0, '#', 0xd800, 0xdfff, 0x10ffff, 0xfffd, 0x85, 0xf7, 0xd7})), 1, 6).Draw(t, "runes")
					if rapid.IntRange(0, 39).Draw(t, "wide") == 39 { // more code points, by repetition
						for n, k := rapid.IntRange(7, 90).Draw(t, "width"), len(l.Runes); len(l.Runes) < n; {
							l.Runes = append(l.Runes, l.Runes[len(l.Runes)-k])
						}
					}
					l.Break = rapid.SliceOfN(rapid.Bool(), 6, 6).Draw(t, "breaks")
					if rapid.IntRange(0, 9).Draw(t, "all") == 9 { // breaks everywhere
						l.Break = []bool{true, true, true, true, true, true}
					}
					for len(l.Break) < len(l.Runes) {
						l.Break = append(l.Break, l.Break[len(l.Break)-6])
					}
					l.Sep = rapid.SliceOfN(blank, 1, 4).Draw(t, "sep")
					if rapid.Bool().Draw(t, "with comment") {
						l.Comment = comment.Draw(t, "comment")
					}
				case 1:
					l.Comment = comment.Draw(t, "comment")
				case 2:
					l.Sep = []string{rapid.SampledFrom([]string{"", "", " ", "\t"}).Draw(t, "blank")}
				}
				c.Lines = append(c.Lines, l)
			}
			c.NoEOL = rapid.IntRange(0, 3).Draw(t, "noeol") == 3
			if rapid.IntRange(0, 1000).Draw(t, "long") == 0 {
				c.Rep = rapid.IntRange(2, 1000).Draw(t, "rep")
			}
			return c
		},
		Check: func(c testFile) (vh.Obs, error) {
			var o vh.Obs
			var b strings.Builder
			var cases []testFileLine
			for i := 1; i < c.Rep; i++ {
				for _, l := range c.Lines {
					b.WriteString(l.String())
					if l.Kind == 0 {
						cases = append(cases, l)
					}
				}
			}
			for i, l := range c.Lines {
				s := l.String()
				if c.NoEOL && i == len(c.Lines)-1 {
					s = strings.TrimSuffix(s, l.EOL)
				}
				b.WriteString(s)
				if l.Kind == 0 {
					cases = append(cases, l)
					o.Label(l.Comment == "", "test case without a comment")
				}
				o.Label(l.Kind == 2, "blank line")
			}
			o.Labels = uniq(o.Labels)
			o.NonTrivial = len(cases) > 1 && len(c.Lines) > len(cases)
			dir := os.Getenv("VERIF_SCRATCH")
			if dir == "" {
				dir = os.TempDir()
			}
			path := filepath.Join(dir, fmt.Sprintf("breaktest.%d", os.Getpid()))
			if err := os.WriteFile(path, []byte(b.String()), 0600); err != nil {
				panic(err)
			}
			defer os.Remove(path)
			if len(c.Lines) == 0 && c.Rep == 1 && ucdparse.OpenTestFile(path+".missing", nil) != nil {
				return o, fmt.Errorf("a missing file is opened")
			}
			tf := ucdparse.OpenTestFile(path, nil)
			if tf == nil {
				return o, fmt.Errorf("cannot open the file")
			}
			defer tf.Close()
			n := 0
			for ; tf.Scan(); n++ {
				if n == len(cases) {
					return o, fmt.Errorf("%.3000q: one test case too many: %q", b.String(), tf.Text())
				}
				l := cases[n]
				if got := strings.TrimSpace(tf.Text()); got != l.data() {
					return o, fmt.Errorf("%.3000q: text of case %d is %q, want %q", b.String(), n, got, l.data())
				}
				if got := strings.TrimSpace(tf.Comment()); got != strings.TrimSpace(strings.TrimPrefix(l.Comment, "#")) {
					return o, fmt.Errorf("%.3000q: comment of case %d is %q, want %q", b.String(), n, got, l.Comment)
				}
				text, parts := ucdparse.BreakTestInput(tf.Text())
				if want := string(l.Runes); text != want {
					return o, fmt.Errorf("%.3000q: input is %+q, want %+q", l.data(), text, want)
				}
				var want []string
				from := 0
				for i := range l.Runes {
					if i == len(l.Runes)-1 || l.Break[i] {
						want = append(want, string(l.Runes[from:i+1]))
						from = i + 1
					}
				}
				if fmt.Sprintf("%+q", parts) != fmt.Sprintf("%+q", want) {
					return o, fmt.Errorf("%.3000q: parts are %+q, want %+q", l.data(), parts, want)
				}
			}
			if err := tf.Err(); err != nil {
				return o, fmt.Errorf("%.3000q: error %v", b.String(), err)
			}
			if n != len(cases) {
				return o, fmt.Errorf("%.3000q: %d test cases, want %d", b.String(), n, len(cases))
			}
			return o, nil
		},
	}.Run(t)
}
