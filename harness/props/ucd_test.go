package props

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/iotest"
	"unicode"

	"github.com/npillmayer/uax/internal/ucdparse"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// the parser prints traces
var quiet = sync.OnceFunc(func() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
})

type ucdLine struct {
	Kind    string   `json:"kind"` // data, comment, blank, bad
	From    rune     `json:"from,omitempty"`
	To      rune     `json:"to,omitempty"`
	Single  bool     `json:"single,omitempty"`
	Lower   bool     `json:"lower,omitempty"` // lower case digits
	Fields  []string `json:"fields,omitempty"`
	Pad     string   `json:"pad,omitempty"` // between code points and the first semicolon
	Sep     string   `json:"sep,omitempty"` // after semicolons
	Tail    string   `json:"tail,omitempty"`
	Comment string   `json:"comment,omitempty"`
	Text    string   `json:"text,omitempty"` // of comment and blank lines
	EOL     string   `json:"eol"`
}

func (l ucdLine) String() string {
	if l.Kind != "data" {
		return l.Text + l.EOL
	}
	format := "%04X"
	if l.Lower {
		format = "%04x"
	}
	s := fmt.Sprintf(format, l.From)
	if !l.Single {
		s += ".." + fmt.Sprintf(format, l.To)
	}
	s += l.Pad
	for _, f := range l.Fields {
		s += ";" + l.Sep + f
	}
	s += l.Tail
	if l.Comment != "" {
		s += "# " + l.Comment
	}
	return s + l.EOL
}

type ucdFile struct {
	Lines []ucdLine `json:"lines"`
	Chunk bool      `json:"chunk,omitempty"` // the reader delivers byte by byte
	Fail  int       `json:"fail,omitempty"`  // read error after that many per mille of the text (0: none)

}

var errBroken = errors.New("broken input")

var genCodePoint = rapid.OneOf(rapid.Int32Range(0, 0x2FF), rapid.Int32Range(0, 0x10FFFF), rapid.Int32Range(0xFFF0, 0x10010))

var genUcdLine = rapid.Custom(func(t *rapid.T) ucdLine {
	l := ucdLine{EOL: rapid.SampledFrom([]string{"\n", "\n", "\r\n", "\r"}).Draw(t, "eol")}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0:
		l.Kind = "blank"
		l.Text = rapid.SampledFrom([]string{"", "", " ", "\t ", "\t", "   "}).Draw(t, "blank")
	case 1:
		l.Kind = "comment"
		l.Text = rapid.SampledFrom([]string{"#", "# comment", "   # indented", "\t# 0041;tab", " \t #", "# @missing: 0000..10FFFF; Other", "#0041;A"}).Draw(t, "text")
	default:
		l.Kind = "data"
		l.From = genCodePoint.Draw(t, "from")
		l.Single = rapid.Bool().Draw(t, "single")
		l.To = l.From
		l.Lower = rapid.IntRange(0, 9).Draw(t, "lower") == 0
		if !l.Single {
			l.To = min(0x10FFFF, l.From+rapid.Int32Range(0, 300).Draw(t, "len"))
		}
		l.Pad = rapid.SampledFrom([]string{"", "", " ", "     ", "\t"}).Draw(t, "pad")
		l.Sep = rapid.SampledFrom([]string{"", " ", "  ", "\t"}).Draw(t, "sep")
		l.Fields = rapid.SliceOfN(rapid.SampledFrom([]string{"CM", "Top_And_Bottom", "ARABIC LETTER BEH", "D", "L", "1/2", "<control>", "é", "0020 0041", "\u200b"}), 1, 4).Draw(t, "fields")
		if rapid.IntRange(0, 5).Draw(t, "empty") == 0 { // fields may be empty, but the first of them (the class) for class files
			l.Fields[rapid.IntRange(0, len(l.Fields)-1).Draw(t, "which")] = ""
		}
		l.Tail = rapid.SampledFrom([]string{"", " ", "     ", "\t"}).Draw(t, "tail")
		l.Comment = rapid.SampledFrom([]string{"", "", "Cc    [18] <control-000E>..<control-001F>", "So", "Lo # of a kind", "é…"}).Draw(t, "comment")
	}
	return l
})

func TestUCDParse(t *testing.T) {
	vh.Sub[ucdFile]{
		Prop: "P23", Quick: 750000, Thorough: 10000000,
		Rule: "a UCD file of random data, comment and blank lines, all line end conventions, single code points and ranges, several fields, delivered at once or byte by byte, possibly with a read error; non-trivial: at least two data lines and a comment or blank line",
		Gen: func(t *rapid.T) ucdFile {
			f := ucdFile{Lines: rapid.SliceOfN(genUcdLine, 0, 12).Draw(t, "lines"), Chunk: rapid.Bool().Draw(t, "chunk")}
			if n := len(f.Lines); n > 0 && rapid.Bool().Draw(t, "no final eol") {
				f.Lines[n-1].EOL = ""
			}
			switch rapid.IntRange(0, 9).Draw(t, "fails") {
			case 0, 1:
				f.Fail = rapid.IntRange(1, 1000).Draw(t, "fail")
			case 2:
				bad := ucdLine{Kind: "bad", EOL: "\n", Text: rapid.SampledFrom([]string{"110000000;A", "0041..110000000 ; A; B", "FFFFFFFFFFFFFFFFFFFF", "00\u0664\u0661;A", "0041..00\u0665A;A # x", "80000000;A"}).Draw(t, "bad")}
				i := rapid.IntRange(0, len(f.Lines)).Draw(t, "place")
				if i == 0 || f.Lines[i-1].EOL != "" {
					f.Lines = slices.Insert(f.Lines, i, bad)
				}
			}
			return f
		},
		Check: func(c ucdFile) (vh.Obs, error) {
			quiet()
			var o vh.Obs
			type item struct {
				from, to rune
				fields   []string
				comment  string
				line     int
			}
			var text string
			var want, got []item
			bad := false
			for _, l := range c.Lines {
				no := strings.Count(strings.ReplaceAll(strings.ReplaceAll(text, "\r\n", "\n"), "\r", "\n"), "\n")
				text += l.String()
				bad = bad || l.Kind == "bad"
				if l.Kind == "data" {
					it := item{l.From, l.To, nil, strings.TrimSpace(l.Comment), no + 1}
					for _, f := range l.Fields {
						it.fields = append(it.fields, strings.TrimSpace(f))
					}
					want = append(want, it)
				}
			}
			o.NonTrivial = len(want) > 1 && len(want) < len(c.Lines)
			var r io.Reader = strings.NewReader(text)
			if c.Fail > 0 { // the line in which reading fails may be reported or not
				n := len(text) * c.Fail / 1000
				text = text[:n]
				r = io.MultiReader(strings.NewReader(text), iotest.ErrReader(errBroken))
				k, m := 0, 0
				for _, l := range c.Lines {
					if k += len(l.String()); k > n {
						break
					}
					if l.Kind == "data" {
						m++
					}
				}
				want = want[:m]
				o.NonTrivial = m > 0
				o.Label(true, "read error")
			}
			if c.Chunk {
				r = iotest.OneByteReader(r)
			}
			first := true
			err := ucdparse.Parse(r, func(tok *ucdparse.Token) {
				it := item{comment: tok.Comment}
				it.from, it.to = tok.Range()
				for i := 1; i <= len(tok.Fields); i++ {
					it.fields = append(it.fields, strings.TrimSpace(tok.Field(i)))
				}
				if tok.Field(len(tok.Fields)+1) != "" {
					it.fields = append(it.fields, "too many")
				}
				if first && len(tok.Fields) == 0 { // start of file is announced
					first = false
					return
				}
				first = false
				if tok.Error == nil {
					it.line = tok.LineNo
					got = append(got, it)
				}
			})
			if c.Fail > 0 && len(got) == len(want)+1 {
				got = got[:len(want)]
			}
			o.Label(bad, "malformed line")
			if bad {
				if err == nil {
					return o, fmt.Errorf("%q: malformed line is not reported", text)
				}
				err = nil
			}
			if c.Fail > 0 != errors.Is(err, errBroken) || c.Fail == 0 && err != nil {
				return o, fmt.Errorf("%q: error %v", text, err)
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				return o, fmt.Errorf("%q:\n got %q\nwant %q", text, got, want)
			}
			return o, nil
		},
	}.Run(t)
}

// --- range tables ------------------------------------------------------------

// parseTable evaluates the source text of a range table.
func parseTable(src string) (*unicode.RangeTable, string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "t.go", "package t\nimport \"unicode\"\n"+src, 0)
	if err != nil {
		return nil, "", err
	}
	tab := &unicode.RangeTable{}
	name := ""
	var bad error
	num := func(e ast.Expr) uint32 {
		l, ok := e.(*ast.BasicLit)
		if !ok {
			bad = fmt.Errorf("not a number: %T", e)
			return 0
		}
		n, err := strconv.ParseUint(l.Value, 0, 32)
		if err != nil {
			bad = err
		}
		return uint32(n)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ValueSpec:
			name = x.Names[0].Name
		case *ast.KeyValueExpr:
			switch x.Key.(*ast.Ident).Name {
			case "LatinOffset":
				tab.LatinOffset = int(num(x.Value))
			case "R16":
				for _, e := range x.Value.(*ast.CompositeLit).Elts {
					v := e.(*ast.CompositeLit).Elts
					if num(v[1]) > 0xFFFF {
						bad = fmt.Errorf("value %x in R16 does not compile", num(v[1]))
					}
					tab.R16 = append(tab.R16, unicode.Range16{Lo: uint16(num(v[0])), Hi: uint16(num(v[1])), Stride: uint16(num(v[2]))})
				}
			case "R32":
				for _, e := range x.Value.(*ast.CompositeLit).Elts {
					v := e.(*ast.CompositeLit).Elts
					tab.R32 = append(tab.R32, unicode.Range32{Lo: num(v[0]), Hi: num(v[1]), Stride: num(v[2])})
				}
			}
		}
		return true
	})
	return tab, name, bad
}

type rangeSpec struct {
	Skip int32 `json:"skip"` // distance to the end of the previous range; 0: adjacent
	Len  int32 `json:"len"`
}

type rangesCase struct {
	Start  rune        `json:"start"`
	Ranges []rangeSpec `json:"ranges"`
}

func TestRangeTables(t *testing.T) {
	vh.Sub[rangesCase]{
		Prop: "P23", Quick: 750000, Thorough: 10000000,
		Rule:  "ascending ranges of code points (some adjacent, some of length 1, often crossing the limits of Latin-1 and of 16 bit) are collected, the generated source is parsed and evaluated as a range table and looked up at all bounds and their neighbours; non-trivial: ranges on both sides of U+0100 or U+10000, or adjacent ranges",
		Fixed: []rangesCase{{0, nil}, {0, []rangeSpec{{0, 1}}}, {1, []rangeSpec{{0, 1}}}, {0x10000, []rangeSpec{{0, 1}}}, {0xFFFF, []rangeSpec{{0, 1}, {0, 1}}}},
		Gen: func(t *rapid.T) rangesCase {
			c := rangesCase{Start: rapid.SampledFrom([]rune{0, 1, 0x30, 0xE0, 0xFE, 0xFF, 0x100, 0x600, 0xFF00, 0xFFF0, 0x10000, 0x1E900}).Draw(t, "start")}
			n := rapid.IntRange(0, 12).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.Ranges = append(c.Ranges, rangeSpec{
					rapid.OneOf(rapid.Int32Range(0, 3), rapid.Int32Range(0, 200), rapid.Int32Range(0, 0x6000)).Draw(t, "skip"),
					rapid.OneOf(rapid.Just(int32(1)), rapid.Int32Range(1, 40), rapid.Int32Range(1, 0x3000)).Draw(t, "len"),
				})
			}
			return c
		},
		Check: func(c rangesCase) (vh.Obs, error) {
			var o vh.Obs
			rt := &ucdparse.RangeTableCollector{Cat: "X_Cat"}
			var rr [][2]rune
			at := c.Start
			adjacent := false
			for _, r := range c.Ranges {
				lo := at + r.Skip
				hi := lo + r.Len - 1
				if hi > 0x10FFFF {
					break
				}
				adjacent = adjacent || r.Skip == 0 && len(rr) > 0
				rr = append(rr, [2]rune{lo, hi})
				at = hi + 1
				rt.Append(lo, hi)
			}
			if len(rr) > 0 {
				first, last := rr[0][0], rr[len(rr)-1][1]
				o.NonTrivial = adjacent || first < 0x100 && last >= 0x100 || first < 0x10000 && last >= 0x10000
			}
			o.Label(adjacent, "adjacent ranges")
			var buf bytes.Buffer
			rt.Output(&buf)
			tab, name, err := parseTable(buf.String())
			if err != nil {
				return o, fmt.Errorf("ranges %X: %v\n%s", rr, err, buf.String())
			}
			if name != "_X_Cat" {
				return o, fmt.Errorf("table is called %s", name)
			}
			var probes []rune
			for _, r := range rr {
				probes = append(probes, r[0]-1, r[0], (r[0]+r[1])/2, r[1], r[1]+1)
			}
			for _, r := range append(probes, 0, 0xFF, 0x100, 0xFFFF, 0x10000, 0x10FFFF) {
				if r < 0 || r > 0x10FFFF {
					continue
				}
				want := false
				for _, x := range rr {
					want = want || x[0] <= r && r <= x[1]
				}
				if unicode.Is(tab, r) != want {
					return o, fmt.Errorf("ranges %X: table contains %U: %v, want %v\n%s", rr, r, !want, want, buf.String())
				}
			}
			lat := 0
			for i, x := range tab.R16 {
				if x.Hi <= unicode.MaxLatin1 {
					lat++
				}
				if i > 0 && x.Lo <= tab.R16[i-1].Hi {
					return o, fmt.Errorf("ranges %X: table is not sorted\n%s", rr, buf.String())
				}
			}
			if tab.LatinOffset != lat { // package unicode skips that many ranges for other characters
				return o, fmt.Errorf("ranges %X: LatinOffset %d with %d ranges of Latin-1\n%s", rr, tab.LatinOffset, lat, buf.String())
			}
			return o, nil
		},
	}.Run(t)
}
