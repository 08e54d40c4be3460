package props

import (
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"testing"
	"testing/iotest"
	"time"
	"unicode"

	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// bidiCase is a text with the options to resolve it.
type bidiCase struct {
	Text      vh.Raw     `json:"text"`
	R2L       bool       `json:"r2l,omitempty"`
	IgnoreSep bool       `json:"ignoreSep,omitempty"`
	TestMode  bool       `json:"testMode,omitempty"`
	Marks     []bidiMark `json:"marks,omitempty"`
	Reader    int        `json:"reader,omitempty"` // kind of reader
	Cuts      []int      `json:"cuts,omitempty"`   // ends of lines (characters), ascending
	Shift     bool       `json:"shift,omitempty"`
}

type bidiMark struct {
	At   int `json:"at"` // index of the character behind the mark
	Kind int `json:"kind"`
}

var markKinds = []int{bidi.MarkupLRI, bidi.MarkupRLI, bidi.MarkupPDI, bidi.MarkupPDILRI, bidi.MarkupPDIRLI}
var markClasses = [][]string{{"LRI"}, {"RLI"}, {"PDI"}, {"PDI", "LRI"}, {"PDI", "RLI"}}

func (c bidiCase) String() string {
	text := string(c.Text)
	if len(text) > 1000 {
		text = text[:1000] + "..."
	}
	marks := c.Marks
	if len(marks) > 100 {
		marks = marks[:100]
	}
	return fmt.Sprintf("%+q r2l=%v ignoreSep=%v testMode=%v marks=%v", text, c.R2L, c.IgnoreSep, c.TestMode, marks)
}

func (c bidiCase) embedding() bidi.Direction {
	if c.R2L {
		return bidi.RightToLeft
	}
	return bidi.LeftToRight
}

func (c bidiCase) options() []bidi.Option {
	var opts []bidi.Option
	if c.R2L {
		opts = append(opts, bidi.DefaultDirection(bidi.RightToLeft))
	}
	if c.IgnoreSep {
		opts = append(opts, bidi.IgnoreParagraphSeparators(true))
	}
	if c.TestMode {
		opts = append(opts, bidi.TestMode(true))
	}
	return opts
}

func (c bidiCase) reader() io.Reader {
	r := io.Reader(strings.NewReader(string(c.Text)))
	switch c.Reader {
	case 1:
		return iotest.OneByteReader(r)
	case 2:
		return iotest.HalfReader(r)
	case 3:
		return iotest.DataErrReader(r)
	}
	return r
}

func (c bidiCase) markup() bidi.OutOfLineBidiMarkup {
	if len(c.Marks) == 0 {
		return nil
	}
	var at []int
	for i := range string(c.Text) {
		at = append(at, i)
	}
	at = append(at, len(c.Text))
	m := map[uint64]int{}
	for _, k := range c.Marks {
		if k.At < len(at) {
			m[uint64(at[k.At])] = markKinds[k.Kind]
		}
	}
	return func(pos uint64) int { return m[pos] }
}

func (c bidiCase) resolve(more ...bidi.Option) *bidi.ResolvedLevels {
	return bidi.ResolveParagraph(c.reader(), c.markup(), append(c.options(), more...)...)
}

// para is the text of a case as the reference sees it. Marks are characters of
// length 0.
type para struct {
	chars   []ref.BidiChar
	pos     []int // byte positions, including the end
	visible []bool
	closed  bool // all isolates are closed
	legacy  bool // contains embeddings or overrides
	index   map[int]int
}

func (c bidiCase) para() para {
	p := para{index: map[int]int{}}
	marks := map[int]int{}
	for _, m := range c.Marks {
		marks[m.At] = m.Kind + 1
	}
	depth := 0
	add := func(r rune, class string, at int, vis bool) {
		switch class {
		case "LRI", "RLI", "FSI":
			depth++
			vis = false
		case "PDI":
			if depth > 0 {
				depth--
			}
			vis = false
		case "BN":
			vis = false
		case "LRE", "RLE", "LRO", "RLO", "PDF":
			p.legacy = true
		}
		p.chars = append(p.chars, ref.BidiChar{Rune: r, Class: class})
		p.pos = append(p.pos, at)
		p.visible = append(p.visible, vis)
	}
	n, end := 0, 0
	mark := func(at int) {
		if k := marks[n]; k > 0 {
			for _, class := range markClasses[k-1] {
				add(0, class, at, false)
			}
		}
		n++
	}
	for i, r := range string(c.Text) {
		mark(i)
		class := ref.Bc(r)
		if class == "B" {
			if !c.IgnoreSep {
				end = i
				goto done
			}
			class = "WS"
		}
		if c.TestMode {
			switch {
			case unicode.IsUpper(r):
				class = "R"
			case r == '>':
				class = "LRI"
			case r == '<':
				class = "RLI"
			case r == '=':
				class = "PDI"
			}
		}
		p.index[i] = len(p.chars)
		add(r, class, i, true)
	}
	end = len(c.Text)
	mark(end)
done:
	p.pos = append(p.pos, end)
	p.index[end] = len(p.chars)
	p.closed = depth == 0
	return p
}

func (p para) levels(r2l bool) []int {
	base := 0
	if r2l {
		base = 1
	}
	lev, _ := ref.BidiLevels(p.chars, base)
	return lev
}

func (p para) String() string {
	var b strings.Builder
	if len(p.chars) > 500 {
		return fmt.Sprintf("%d characters", len(p.chars))
	}
	for _, c := range p.chars {
		switch {
		case ref.OpeningBracket(c.Rune) != 0:
			b.WriteString("( ")
		case ref.ClosingBracket(c.Rune):
			b.WriteString(") ")
		default:
			b.WriteString(c.Class + " ")
		}
	}
	return b.String()
}

type bidiLine struct {
	dir   []int // per character: 0 left to right, 1 right to left, -1 none
	order []int // characters from left to right
	runs  int
	split bool // neighbouring runs have the same direction
}

// line reads the ordering of the part [from,to) of a paragraph, the way a
// client does whose device writes in paragraph direction. Positions within the
// ordering are relative to base.
func (p para) line(lv *bidi.ResolvedLevels, from, to, base int, dev bidi.Direction) (bidiLine, error) {
	l := bidiLine{dir: make([]int, len(p.chars))}
	for i := range l.dir {
		l.dir[i] = -1
	}
	o := lv.Reorder()
	l.runs = len(o.Runs)
	for k := range o.Runs {
		run := &o.Runs[k]
		l.split = l.split || k > 0 && run.Dir == o.Runs[k-1].Dir
		var sum int64
		it := run.SegmentIterator(run.IsOpposite(dev))
		for it.Next() {
			d, a, b := it.Segment()
			if d != run.Dir {
				return l, fmt.Errorf("segment %d-%d of run %d has direction %v, run has %v", a, b, k, d, run.Dir)
			}
			sum += int64(b) - int64(a)
			i, ok1 := p.index[int(a)+base]
			j, ok2 := p.index[int(b)+base]
			if !ok1 || !ok2 || a > b {
				return l, fmt.Errorf("segment %d-%d (base %d) is not an interval of characters", a, b, base)
			}
			for q := i; q < j; q++ {
				if p.pos[q] == p.pos[q+1] {
					continue // a mark
				}
				if q < from || q >= to {
					return l, fmt.Errorf("segment %d-%d (base %d) is not within the line", a, b, base)
				}
				if l.dir[q] >= 0 {
					return l, fmt.Errorf("the character at %d appears twice", p.pos[q])
				}
				l.dir[q] = int(d)
			}
			part := make([]int, 0, j-i)
			for q := i; q < j; q++ {
				if p.pos[q] != p.pos[q+1] {
					part = append(part, q)
				}
			}
			if d != dev {
				flip(part)
			}
			l.order = append(l.order, part...)
		}
		if run.Length != sum {
			return l, fmt.Errorf("run %d has length %d, its segments have %d", k, run.Length, sum)
		}
	}
	for q := from; q < to; q++ {
		if l.dir[q] < 0 && p.pos[q] != p.pos[q+1] {
			return l, fmt.Errorf("the character at %d is lost", p.pos[q])
		}
	}
	if dev == bidi.RightToLeft {
		flip(l.order)
	}
	return l, nil
}

func flip(x []int) {
	for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
		x[i], x[j] = x[j], x[i]
	}
}

func (p para) compareDirections(lev []int, l bidiLine, from, to int) error {
	for q := from; q < to; q++ {
		if p.visible[q] && lev[q]%2 != l.dir[q] {
			return fmt.Errorf("the character at %d (%U, %s) has direction %v, want level %d", p.pos[q], p.chars[q].Rune, p.chars[q].Class, bidi.Direction(l.dir[q]), lev[q])
		}
	}
	return nil
}

// onlyVisible returns the byte positions of the visible ones of some characters.
func (p para) onlyVisible(order []int, from int) (at []int) {
	for _, q := range order {
		if p.visible[q+from] {
			at = append(at, p.pos[q+from])
		}
	}
	return at
}

func (p para) compareOrder(lev []int, l bidiLine, from, to int) error {
	want := p.onlyVisible(ref.VisualOrder(lev[from:to]), from)
	got := p.onlyVisible(l.order, 0)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Errorf("positions from left to right are %v, want %v (levels %v)", got, want, lev[from:to])
	}
	return nil
}

// --- generators ------------------------------------------------------------

func bidiStable(r rune) bool { return ref.InU11(r) && r != 0x1734 }

func bidiKind(r rune) string {
	c := ref.Bc(r)
	if ref.OpeningBracket(r) != 0 {
		return c + "("
	} else if ref.ClosingBracket(r) {
		return c + ")"
	}
	return c
}

var bidiControl = map[string]bool{"LRE": true, "RLE": true, "LRO": true, "RLO": true, "PDF": true, "LRI": true, "RLI": true, "FSI": true, "PDI": true}

// bidiChars: classes of characters without brackets, isolates, separators and legacy controls.
var bidiChars = makePool(bidiKind, func(r rune) bool {
	k := bidiKind(r)
	return bidiStable(r) && k != "B" && !bidiControl[k] && !strings.ContainsAny(k, "()")
})

var bidiAll = makePool(bidiKind, func(r rune) bool { return r != 0x1734 })

var bidiSeparators = []rune{'\n', '\r', 0x1c, 0x1d, 0x1e, 0x85, 0x2029}

var bidiBrackets = func() (pp [][2]rune) {
	for r := rune(0); r < 0x10000; r++ {
		if c := ref.OpeningBracket(r); c != 0 && bidiStable(r) {
			pp = append(pp, [2]rune{r, c})
		}
	}
	return append(pp, [2]rune{0x3008, 0x232A}, [2]rune{0x2329, 0x232A}, [2]rune{'(', ')'}, [2]rune{'(', ')'}, [2]rune{'[', ']'})
}()

var simpleChars = []rune{'a', 'א', 'ع', '1', '٣', '+', ',', '%', 0x301, ' ', '!', '\t', 0xad, '.', '-', '/', '₪', '2', 'ב', 'b'}

// bidiShape says what genBidi makes.
type bidiShape struct {
	max      int // characters
	isolates bool
	brackets int  // 0: none, 1: some, 2: many
	marks    int  // percentage of isolates which are out-of-line
	numbers  bool // many numbers
}

// casedLetters are upper case, title case and lower case letters, the latter for comparison.
var casedLetters = func() []rune {
	var x []rune
	for r := rune(0x80); r < 0x20000; r++ {
		if ref.InU11(r) && (unicode.IsUpper(r) || unicode.IsTitle(r) || unicode.IsLower(r) && r%8 == 0) {
			x = append(x, r)
		}
	}
	return x
}()

// genBidi makes texts in which all isolates are closed.
func genBidi(t *rapid.T, s bidiShape) bidiCase {
	var c bidiCase
	c.R2L = rapid.Bool().Draw(t, "r2l")
	c.Reader = max(0, rapid.IntRange(-6, 3).Draw(t, "reader"))
	c.IgnoreSep = rapid.IntRange(0, 5).Draw(t, "ignore") == 5
	c.TestMode = rapid.IntRange(0, 9).Draw(t, "test") == 9
	seps := rapid.IntRange(0, 9).Draw(t, "separators") == 9
	// what the text is made of
	var palette []string
	put := func(r rune) {
		if c.TestMode && (r == '<' || r == '>' || r == '=') {
			return
		}
		palette = append(palette, string(r))
	}
	chars := rapid.IntRange(0, 5).Draw(t, "chars")
	switch chars {
	case 5: // mostly of one direction
		one := rapid.SampledFrom([]string{"א", "אע", "a", "1", "א ", "1א"}).Draw(t, "one")
		for _, r := range one {
			put(r)
		}
	case 0:
		for _, r := range simpleChars {
			put(r)
		}
	case 1:
		for _, r := range rapid.SliceOfN(bidiChars.gen(), 1, 30).Draw(t, "palette") {
			put(r)
		}
	case 2:
		for _, r := range rapid.SliceOfN(bidiChars.gen(), 1, 6).Draw(t, "palette") {
			put(r)
		}
	default:
		for _, r := range rapid.SliceOfN(rapid.SampledFrom(simpleChars), 1, 6).Draw(t, "palette") {
			put(r)
		}
	}
	if s.numbers {
		put('1')
		put('٣')
		put('א')
	}
	if c.TestMode {
		put('A')
		put('Z')
		put('Σ')
		for _, r := range rapid.SliceOfN(rapid.SampledFrom(casedLetters), 0, 4).Draw(t, "cased") {
			put(r)
		}
	}
	if rapid.IntRange(0, 11).Draw(t, "illegal") == 11 {
		palette = append(palette, "\xff", "\xe2\x82", "\xc0", "\ufffd")
	}
	brackets := s.brackets == 2 || s.brackets == 1 && rapid.Bool().Draw(t, "brackets")
	if brackets {
		for _, b := range rapid.SliceOfN(rapid.SampledFrom(bidiBrackets), 1, 3).Draw(t, "bracket") {
			for n := 0; n < 1+len(palette)/4; n++ {
				put(b[0])
				put(b[1])
			}
		}
		if s.brackets == 2 {
			for n := 0; n < 1+len(palette)/6; n++ {
				put('a')
				put('א')
			}
		}
	}
	if len(palette) == 0 {
		palette = []string{"x"}
	}
	char := rapid.SampledFrom(palette)
	isolates := s.isolates && rapid.IntRange(0, 3).Draw(t, "isolates") > 0
	var b strings.Builder
	n := 0 // characters so far
	marked := -1
	var open []bool // isolates which are still open: is it a mark?
	write := func(x string) { b.WriteString(x); n++ }
	mark := func(kind int) bool { // mark at position n
		if last := len(c.Marks) - 1; marked == n {
			if c.Marks[last].Kind != 2 || kind == 2 {
				return false // no room for another one
			}
			c.Marks[last].Kind = 3 + kind
			return true
		}
		marked = n
		c.Marks = append(c.Marks, bidiMark{n, kind})
		return true
	}
	closeOne := func() {
		last := len(open) - 1
		if !open[last] || !mark(2) {
			if c.TestMode && rapid.Bool().Draw(t, "pdi") {
				write("=")
			} else {
				write("\u2069")
			}
		}
		open = open[:last]
	}
	maxOpen, often := 12, 3
	if isolates && rapid.IntRange(0, 39).Draw(t, "deep") == 39 {
		maxOpen, often = 60, rapid.IntRange(8, 16).Draw(t, "often") // levels up to 121, UAX#9 has a limit of 125
	}
	length := rapid.IntRange(1, s.max).Draw(t, "length")
	if maxOpen > 12 {
		length += 60
	}
	if rapid.IntRange(0, 30).Draw(t, "long") == 30 {
		length *= 5
	}
	for n < length {
		k := rapid.IntRange(0, 19).Draw(t, "what")
		switch {
		case isolates && k < often && len(open) < maxOpen:
			out := rapid.IntRange(0, 99).Draw(t, "mark") < s.marks
			kind := rapid.IntRange(0, 2).Draw(t, "isolate")
			if out && kind < 2 && mark(kind) {
				open = append(open, true)
				continue
			}
			if c.TestMode && kind < 2 && rapid.Bool().Draw(t, "ascii") {
				write([]string{">", "<"}[kind])
			} else {
				write([]string{"\u2066", "\u2067", "\u2068"}[kind])
			}
			open = append(open, out)
		case isolates && k < 6 && len(open) > 0:
			closeOne()
		case isolates && k == 6 && len(open) == 0 && rapid.IntRange(0, 3).Draw(t, "unmatched") == 3:
			if rapid.IntRange(0, 99).Draw(t, "mark") >= s.marks || !mark(2) {
				write("\u2069")
			}
		case seps && k == 7 && (c.IgnoreSep || len(open) == 0):
			write(string(rapid.SampledFrom(bidiSeparators).Draw(t, "separator")))
		default:
			x := char.Draw(t, "char")
			for i := max(1, rapid.IntRange(-3, 3).Draw(t, "times")); i > 0; i-- {
				write(x)
			}
		}
	}
	for len(open) > 0 {
		closeOne()
	}
	c.Text = vh.Raw(b.String())
	often = 79
	if chars == 5 {
		often = 14
	}
	if rapid.IntRange(0, often).Draw(t, "repeat") == often {
		times := rapid.IntRange(2, 60).Draw(t, "times")
		last := len(c.Marks) - 1
		if last >= 0 && c.Marks[0].At == 0 && c.Marks[last].At == n { // no room for both
			write("x")
		}
		c.Text = vh.Raw(strings.Repeat(b.String(), times))
		marks := c.Marks
		for i := 1; i < times; i++ {
			for _, m := range marks {
				c.Marks = append(c.Marks, bidiMark{i*n + m.At, m.Kind})
			}
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "prefix") == 9 {
		before := rapid.SliceOfN(char, 1, 4).Draw(t, "before")
		c.Text = vh.Raw(strings.Join(before, "") + string(c.Text))
		for i := range c.Marks {
			c.Marks[i].At += len(before)
		}
	}
	if rapid.IntRange(0, 199).Draw(t, "huge") == 199 && rapid.IntRange(0, 99).Draw(t, "really") == 99 { // beyond 65536 bytes
		before := rapid.IntRange(65500, 70000).Draw(t, "before")
		c.Text = vh.Raw(strings.Repeat(rapid.SampledFrom([]string{"a", "א", "1", " "}).Draw(t, "filler"), before) + string(c.Text))
		for i := range c.Marks {
			c.Marks[i].At += before
		}
	}
	return c
}

func (p para) labels(o *vh.Obs, c bidiCase, l bidiLine) {
	classes := map[string]bool{}
	for _, x := range p.chars {
		classes[x.Class] = true
		if ref.OpeningBracket(x.Rune) != 0 {
			classes["bracket"] = true
		}
	}
	o.Label(classes["LRI"] || classes["RLI"], "isolate")
	o.Label(classes["FSI"], "FSI")
	o.Label(classes["bracket"], "bracket")
	o.Label(classes["EN"] || classes["AN"], "number")
	o.Label(classes["NSM"], "NSM")
	o.Label(c.R2L, "R2L paragraph")
	o.Label(len(c.Marks) > 0, "out-of-line markup")
	o.Label(c.TestMode, "test mode")
	o.Label(l.runs > 2, "more than two runs")
	o.Label(l.runs == 1, "one run")
	o.Label(len(p.chars) > 500, "more than 500 characters")
	o.Label(p.pos[len(p.chars)] > 65535, "more than 65535 bytes")
}

// --- checks ----------------------------------------------------------------

// P15: every byte of a paragraph appears in the ordering exactly once.
func TestBidiPartition(t *testing.T) {
	var fixed []bidiCase
	for _, x := range []string{"abc ", "א", "aא", "\u2067אa\u2069 1", "א b٣ "} { // texts of more than 64 KB
		s := strings.Repeat(x, 70000/len(x))
		n := len([]rune(s))
		fixed = append(fixed, bidiCase{Text: vh.Raw(s), R2L: len(x) == 2, Cuts: []int{3, n - 9}, Shift: len(x) == 3})
	}
	vh.Sub[bidiCase]{
		Prop: "P15", Quick: 400000, Thorough: 20000000, Fixed: fixed,
		Rule: "texts over all Bidi classes, with isolates closed or not, legacy controls, unassigned characters, illegal bytes and markup anywhere, cut into up to four lines (five texts of more than 64 KB in every run); the segments of the ordering of the paragraph and of each line must be intervals of characters which cover each byte up to the first separator exactly once, add up to the lengths of the runs, have their direction, and agree with DirectionAt, and neighbouring runs must have opposite directions; goroutines must have ended; non-trivial: at least two runs",
		Gen: func(t *rapid.T) bidiCase {
			var c bidiCase
			if rapid.IntRange(0, 2).Draw(t, "closed") == 2 {
				c = genBidi(t, bidiShape{max: 30, isolates: true, brackets: 1, marks: 40})
			} else {
				c.R2L = rapid.Bool().Draw(t, "r2l")
				c.IgnoreSep = rapid.Bool().Draw(t, "ignore")
				c.TestMode = rapid.IntRange(0, 3).Draw(t, "test") == 3
				c.Reader = rapid.IntRange(0, 3).Draw(t, "reader")
				var parts []string
				for _, r := range rapid.SliceOfN(bidiAll.gen(), 1, 6).Draw(t, "palette") {
					parts = append(parts, string(r))
				}
				for _, x := range rapid.SliceOfN(rapid.SampledFrom([]string{"a", "א", "1", "(", ")", "\u2066", "\u2067", "\u2068", "\u2069", "\u202a", "\u202e", "\u202c", " ", "\xff", "\xe2\x82", "\x80", "\x00", "\ufffd", "<", ">", "=", "A"}), 0, 8).Draw(t, "more") {
					parts = append(parts, x)
				}
				x := rapid.SliceOfN(rapid.SampledFrom(parts), 0, 30).Draw(t, "text")
				c.Text = vh.Raw(strings.Join(x, ""))
				if rapid.IntRange(0, 20).Draw(t, "bytes") == 20 {
					c.Text = vh.Raw(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "raw"))
				}
				if rapid.IntRange(0, 60).Draw(t, "repeat") == 60 {
					c.Text = vh.Raw(strings.Repeat(string(c.Text), rapid.IntRange(2, 20).Draw(t, "times")))
				}
				n := len([]rune(string(c.Text)))
				for _, at := range rapid.SliceOfNDistinct(rapid.IntRange(0, n), 0, 4, rapid.ID[int]).Draw(t, "marks") {
					c.Marks = append(c.Marks, bidiMark{at, rapid.IntRange(0, 4).Draw(t, "kind")})
				}
			}
			genCuts(t, &c, 3)
			return c
		},
		Check: func(c bidiCase) (vh.Obs, error) {
			var o vh.Obs
			p := c.para()
			running := runtime.NumGoroutine()
			lv := c.resolve()
			for i := 0; runtime.NumGoroutine() > running; i++ { // those of the resolver should end by themselves
				if i > 2000 {
					return o, fmt.Errorf("%v\n%v: there are %d goroutines more than before", c, p, runtime.NumGoroutine()-running)
				}
				if runtime.Gosched(); i > 100 {
					time.Sleep(time.Millisecond)
				}
			}
			l, err := p.line(lv, 0, len(p.chars), 0, c.embedding())
			if err != nil {
				return o, fmt.Errorf("%v\n%v: %v", c, p, err)
			}
			if l.split {
				return o, fmt.Errorf("%v\n%v: neighbouring runs of one direction", c, p)
			}
			p.labels(&o, c, l)
			o.Label(!p.closed, "isolate not closed")
			o.Label(p.legacy, "legacy controls")
			o.Label(p.pos[len(p.chars)] < len(c.Text), "ends at a separator")
			o.Label(len(c.Text) > 65536, "more than 64 KB")
			o.NonTrivial = l.runs > 1
			step := 1 + len(p.chars)/5000
			for q := 0; q < len(p.chars); q += step {
				for at := p.pos[q]; at < p.pos[q+1]; at++ {
					if d := lv.DirectionAt(uint64(at)); d != bidi.Direction(l.dir[q]) {
						return o, fmt.Errorf("%v\n%v: DirectionAt(%d) is %v, but the run has %v", c, p, at, d, bidi.Direction(l.dir[q]))
					}
				}
			}
			return o, c.forLines(p, lv, func(part *bidi.ResolvedLevels, from, to, base int) error {
				line, err := p.line(part, from, to, base, c.embedding())
				if err != nil {
					return fmt.Errorf("%v\n%v: line %d-%d, base %d: %v", c, p, p.pos[from], p.pos[to], base, err)
				}
				if line.split {
					return fmt.Errorf("%v\n%v: neighbouring runs of one direction in line %d-%d", c, p, p.pos[from], p.pos[to])
				}
				for q := from; q < to; q++ {
					if p.visible[q] && line.dir[q] != l.dir[q] {
						return fmt.Errorf("%v\n%v: direction of %d is %v in the paragraph, but %v in line %d-%d", c, p, p.pos[q], bidi.Direction(l.dir[q]), bidi.Direction(line.dir[q]), p.pos[from], p.pos[to])
					}
				}
				return nil
			})
		},
	}.Run(t)
}

func genCuts(t *rapid.T, c *bidiCase, n int) {
	end := len(c.para().chars)
	c.Cuts = rapid.SliceOfN(rapid.IntRange(0, end), 0, n).Draw(t, "cuts")
	sort.Ints(c.Cuts)
	c.Shift = rapid.Bool().Draw(t, "shift")
}

// forLines splits levels into lines.
func (c bidiCase) forLines(p para, lv *bidi.ResolvedLevels, f func(part *bidi.ResolvedLevels, from, to, base int) error) error {
	rest, from, base := lv, 0, 0
	for _, to := range c.Cuts {
		if to < from || to > len(p.chars) {
			continue
		}
		for to > from && p.pos[to] == p.pos[to-1] {
			to-- // marks belong to the line of the character they precede
		}
		left, right := rest.Split(uint64(p.pos[to]-base), c.Shift)
		if err := f(left, from, to, base); err != nil {
			return err
		}
		if c.Shift {
			base = p.pos[to]
		}
		rest, from = right, to
	}
	return f(rest, from, len(p.chars), base)
}

func (c bidiCase) inDomain(p para) bool { return p.closed && !p.legacy }

// P16: directions follow UAX#9.
func TestBidiDirections(t *testing.T) {
	vh.Sub[bidiCase]{
		Prop: "P16", Quick: 400000, Thorough: 20000000,
		Rule: "texts over all Bidi classes with closed isolates (LRI, RLI, FSI; inline, in test mode and out-of-line), paired and unpaired brackets, illegal bytes and separators; the direction of each character, from the ordering and from DirectionAt, is compared with that of an own implementation of rules P2 to I2; non-trivial: at least two runs",
		Gen: func(t *rapid.T) bidiCase {
			return genBidi(t, bidiShape{max: 20, isolates: true, brackets: 1, marks: 20})
		},
		Check: func(c bidiCase) (vh.Obs, error) {
			var o vh.Obs
			p := c.para()
			if o.Skip = !c.inDomain(p); o.Skip {
				return o, nil
			}
			lev := p.levels(c.R2L)
			lv := c.resolve()
			l, err := p.line(lv, 0, len(p.chars), 0, c.embedding())
			if err == nil {
				err = p.compareDirections(lev, l, 0, len(p.chars))
			}
			if err != nil {
				return o, fmt.Errorf("%v\n%v: %v", c, p, err)
			}
			for q := range p.chars {
				if d := lv.DirectionAt(uint64(p.pos[q])); p.visible[q] && int(d) != lev[q]%2 {
					return o, fmt.Errorf("%v\n%v: DirectionAt(%d) is %v, want level %d", c, p, p.pos[q], d, lev[q])
				}
			}
			p.labels(&o, c, l)
			o.NonTrivial = l.runs > 1
			return o, nil
		},
	}.Run(t)
}

// P17: visual order follows UAX#9.
func TestBidiOrder(t *testing.T) {
	vh.Sub[bidiCase]{
		Prop: "P17", Quick: 400000, Thorough: 20000000,
		Rule: "texts as for the directions, with more numbers and nested isolates; the order of characters from left to right, as collected by a client which iterates over runs and segments, is compared with that of rule L2 applied to the levels of the reference; non-trivial: at least three runs",
		Gen: func(t *rapid.T) bidiCase {
			return genBidi(t, bidiShape{max: 24, isolates: true, brackets: 1, marks: 20, numbers: rapid.Bool().Draw(t, "numbers")})
		},
		Check: func(c bidiCase) (vh.Obs, error) {
			var o vh.Obs
			p := c.para()
			if o.Skip = !c.inDomain(p); o.Skip {
				return o, nil
			}
			lev := p.levels(c.R2L)
			l, err := p.line(c.resolve(), 0, len(p.chars), 0, c.embedding())
			if err == nil {
				err = p.compareOrder(lev, l, 0, len(p.chars))
			}
			if err != nil {
				return o, fmt.Errorf("%v\n%v: %v", c, p, err)
			}
			p.labels(&o, c, l)
			deep := 0
			for _, x := range lev {
				deep = max(deep, x)
			}
			o.Label(deep > 2, "levels above 2")
			o.NonTrivial = l.runs > 2
			return o, nil
		},
	}.Run(t)
}

// P18: lines cut off with Split are ordered as UAX#9 requires.
func TestBidiLines(t *testing.T) {
	vh.Sub[bidiCase]{
		Prop: "P18", Quick: 300000, Thorough: 15000000,
		Rule: "texts as for the visual order, cut at up to six positions (also within isolates, at their ends, at the start, the end and several times at the same position), with and without shifting positions; directions and order of each line are compared with those of the reference, with levels taken from the paragraph; the levels which were split must not change; non-trivial: at least two lines with more than one run in one of them",
		Gen: func(t *rapid.T) bidiCase {
			c := genBidi(t, bidiShape{max: 24, isolates: true, brackets: 1, marks: 20, numbers: rapid.Bool().Draw(t, "numbers")})
			genCuts(t, &c, 6)
			return c
		},
		Check: func(c bidiCase) (vh.Obs, error) {
			var o vh.Obs
			p := c.para()
			if o.Skip = !c.inDomain(p); o.Skip {
				return o, nil
			}
			lev := p.levels(c.R2L)
			lv := c.resolve()
			before := fmt.Sprint(lv, lv.Reorder().Runs)
			lines, runs, nested := 0, 0, false
			err := c.forLines(p, lv, func(part *bidi.ResolvedLevels, from, to, base int) error {
				l, err := p.line(part, from, to, base, c.embedding())
				if err == nil {
					err = p.compareDirections(lev, l, from, to)
				}
				if err == nil {
					err = p.compareOrder(lev, l, from, to)
				}
				for q := from; q < to && err == nil; q++ {
					if d := part.DirectionAt(uint64(p.pos[q] - base)); p.visible[q] && int(d) != lev[q]%2 {
						err = fmt.Errorf("DirectionAt(%d) is %v, want level %d", p.pos[q]-base, d, lev[q])
					}
				}
				if err != nil {
					return fmt.Errorf("%v\n%v: line %d-%d, base %d: %v", c, p, p.pos[from], p.pos[to], base, err)
				}
				p.labels(&o, c, l)
				if to > from {
					lines++
					runs = max(runs, l.runs)
				}
				if from > 0 && lev[from-1] > 1 && from < to && lev[from] > 1 {
					nested = true
				}
				return nil
			})
			if err != nil {
				return o, err
			}
			if after := fmt.Sprint(lv, lv.Reorder().Runs); after != before {
				return o, fmt.Errorf("%v\n%v: splitting changed the levels from %s to %s", c, p, before, after)
			}
			o.Labels = uniq(o.Labels)
			o.Label(nested, "cut at level 2 or more")
			o.Label(c.Shift, "shifted")
			o.NonTrivial = lines > 1 && runs > 1
			return o, nil
		},
	}.Run(t)
}

func uniq(x []string) []string {
	sort.Strings(x)
	var y []string
	for _, s := range x {
		if len(y) == 0 || y[len(y)-1] != s {
			y = append(y, s)
		}
	}
	return y
}

// P19: out-of-line markup is equivalent to isolate characters in the text.
func TestBidiMarkup(t *testing.T) {
	vh.Sub[bidiCase]{
		Prop: "P19", Quick: 300000, Thorough: 15000000,
		Rule: "texts with nested isolates, most of which are given as out-of-line markup, including markup at the start and the end of the text and an end and a start at the same position; directions and order must be those of the text with LRI, RLI and PDI inserted instead of the markup, and those of the reference; non-trivial: at least two isolates are out-of-line, and more than one run",
		Gen: func(t *rapid.T) bidiCase {
			return genBidi(t, bidiShape{max: 20, isolates: true, brackets: 1, marks: 85})
		},
		Check: func(c bidiCase) (vh.Obs, error) {
			var o vh.Obs
			p := c.para()
			if o.Skip = !c.inDomain(p); o.Skip {
				return o, nil
			}
			lev := p.levels(c.R2L)
			l, err := p.line(c.resolve(), 0, len(p.chars), 0, c.embedding())
			if err == nil {
				err = p.compareDirections(lev, l, 0, len(p.chars))
			}
			if err == nil {
				err = p.compareOrder(lev, l, 0, len(p.chars))
			}
			if err != nil {
				return o, fmt.Errorf("%v\n%v: %v", c, p, err)
			}
			p.labels(&o, c, l)
			// the same with inline isolates
			inline := c
			inline.Marks = nil
			var b strings.Builder
			for q, x := range p.chars {
				if p.pos[q] == p.pos[q+1] {
					b.WriteString(map[string]string{"LRI": "\u2066", "RLI": "\u2067", "PDI": "\u2069"}[x.Class])
				} else {
					b.WriteString(string(c.Text[p.pos[q]:p.pos[q+1]]))
				}
			}
			b.WriteString(string(c.Text[p.pos[len(p.chars)]:]))
			inline.Text = vh.Raw(b.String())
			p2 := inline.para()
			if len(p2.chars) != len(p.chars) {
				o.Skip = true // an isolate was inserted into an illegal sequence of bytes
				return o, nil
			}
			l2, err := p2.line(inline.resolve(), 0, len(p2.chars), 0, c.embedding())
			if err != nil {
				return o, fmt.Errorf("%v\n%v: %v", inline, p2, err)
			}
			visible := func(x []int) (y []int) {
				for _, q := range x {
					if p.visible[q] {
						y = append(y, q)
					}
				}
				return
			}
			if a, b := fmt.Sprint(visible(l.order)), fmt.Sprint(visible(l2.order)); a != b {
				return o, fmt.Errorf("%v\n%v: order of characters with markup %v, with isolates in the text %v", c, p, a, b)
			}
			for q := range p.chars {
				if p.visible[q] && l.dir[q] != l2.dir[q] {
					return o, fmt.Errorf("%v\n%v: character %d has direction %d with markup, %d with isolates in the text", c, p, q, l.dir[q], l2.dir[q])
				}
			}
			marks := 0
			for _, m := range c.Marks {
				if m.Kind != 2 {
					marks++
				}
				o.Label(m.At == 0, "at the start")
				o.Label(m.Kind > 2, "end and start")
			}
			o.Labels = uniq(o.Labels)
			o.NonTrivial = marks > 1 && l.runs > 1
			return o, nil
		},
	}.Run(t)
}

// genBracketText makes texts of letters, numbers and groups in brackets.
func genBracketText(t *rapid.T) bidiCase {
	c := bidiCase{R2L: rapid.Bool().Draw(t, "r2l")}
	brackets := rapid.SliceOfN(rapid.SampledFrom(bidiBrackets), 1, 2).Draw(t, "brackets")
	var b strings.Builder
	var seq func(depth int)
	seq = func(depth int) {
		for n := rapid.IntRange(0, 4).Draw(t, "pieces"); n > 0; n-- {
			k := rapid.IntRange(0, 15).Draw(t, "piece")
			br := brackets[rapid.IntRange(0, len(brackets)-1).Draw(t, "bracket")]
			switch {
			case k < 5 && depth > 0:
				b.WriteRune(br[0])
				if rapid.IntRange(0, 5).Draw(t, "mark") == 5 {
					b.WriteRune(0x301)
				}
				seq(depth - 1)
				b.WriteRune(br[1])
				if rapid.IntRange(0, 5).Draw(t, "mark") == 5 {
					b.WriteRune(0x301)
				}
			case k == 5 && depth > 0:
				b.WriteRune([]rune{0x2066, 0x2067, 0x2068}[rapid.IntRange(0, 2).Draw(t, "isolate")])
				seq(depth - 1)
				b.WriteRune(0x2069)
			case k == 6:
				b.WriteRune(br[rapid.IntRange(0, 1).Draw(t, "loner")])
			default:
				b.WriteRune(rapid.SampledFrom([]rune("aאaאع1٣ !,+%")).Draw(t, "char"))
			}
		}
	}
	seq(4)
	seq(2)
	c.Text = vh.Raw(b.String())
	return c
}

// P20: pairs of brackets get a common direction.
func TestBidiBrackets(t *testing.T) {
	var fixed []bidiCase
	for _, b := range bidiBrackets { // each pair of brackets in some contexts
		for _, x := range []string{"א %sa%s", "a %sא%s b", "a %sא%s א", "א%s1%s", "a%s\u0301א%s\u0301\u0301א"} {
			for _, r2l := range []bool{false, true} {
				fixed = append(fixed, bidiCase{Text: vh.Raw(fmt.Sprintf(x, string(b[0]), string(b[1]))), R2L: r2l})
			}
		}
	}
	vh.Sub[bidiCase]{
		Prop: "P20", Quick: 600000, Thorough: 15000000, Fixed: fixed,
		Rule: "texts with many brackets of up to three kinds, nested, crossing, unpaired, within and across isolates, with marks behind them, canonical equivalents, and nests of up to 80 brackets (the limit is 63); directions are compared with the reference; every pair of brackets is tried in ten contexts in every run; non-trivial: at least one bracket pair whose brackets do not have the direction neutral characters would get",
		Gen: func(t *rapid.T) bidiCase {
			switch k := rapid.IntRange(0, 30).Draw(t, "shape"); {
			case k < 15:
				return genBracketText(t)
			case k < 30:
				return genBidi(t, bidiShape{max: 16, isolates: true, brackets: 2, marks: 20})
			}
			c := bidiCase{R2L: rapid.Bool().Draw(t, "r2l")}
			piece := rapid.SampledFrom([]string{"", "a", "א", "1", " ", "(א)", "a[א]", "\u2067", "\u2069"})
			br := rapid.SampledFrom(bidiBrackets).Draw(t, "bracket")
			n := rapid.IntRange(58, 80).Draw(t, "depth")
			if rapid.Bool().Draw(t, "limit") {
				n = rapid.IntRange(62, 65).Draw(t, "depth")
			}
			var b strings.Builder
			put := func(s string) {
				if (s != "\u2069") || strings.Count(b.String(), "\u2067") > strings.Count(b.String(), "\u2069") {
					b.WriteString(s)
				}
			}
			put(piece.Draw(t, "before"))
			for i := 0; i < n; i++ {
				put(string(br[0]))
				if rapid.IntRange(0, 9).Draw(t, "sep") == 9 {
					put(piece.Draw(t, "inner"))
				}
			}
			put(piece.Draw(t, "middle"))
			for i := 0; i < n; i++ {
				put(string(br[1]))
				if rapid.IntRange(0, 9).Draw(t, "sep") == 9 {
					put(piece.Draw(t, "outer"))
				}
			}
			put(piece.Draw(t, "after"))
			put(piece.Draw(t, "after"))
			for strings.Count(b.String(), "\u2067") > strings.Count(b.String(), "\u2069") {
				put("\u2069")
			}
			c.Text = vh.Raw(b.String())
			return c
		},
		Check: func(c bidiCase) (vh.Obs, error) {
			var o vh.Obs
			p := c.para()
			if o.Skip = !c.inDomain(p); o.Skip {
				return o, nil
			}
			lev := p.levels(c.R2L)
			l, err := p.line(c.resolve(), 0, len(p.chars), 0, c.embedding())
			if err == nil {
				err = p.compareDirections(lev, l, 0, len(p.chars))
			}
			if err != nil {
				return o, fmt.Errorf("%v\n%v: %v", c, p, err)
			}
			p.labels(&o, c, l)
			plain := p // what if brackets were no brackets?
			plain.chars = append([]ref.BidiChar{}, p.chars...)
			opening := 0
			for q, x := range plain.chars {
				if ref.OpeningBracket(x.Rune) != 0 {
					opening++
				}
				plain.chars[q].Rune = 0
			}
			o.Label(opening > 63, "beyond the limit of 63")
			for q, x := range plain.levels(c.R2L) {
				if x != lev[q] {
					o.NonTrivial = true
				}
			}
			return o, nil
		},
	}.Run(t)
}

// bidiUse is a history of operations on a result.
type bidiUse struct {
	bidiCase
	Opts []bidiOpt `json:"opts"` // options, in this order; the last one of a kind counts
	Ops  []int     `json:"ops"`
}

type bidiOpt struct {
	Kind int  `json:"kind"`
	On   bool `json:"on"`
}

// variant is a similar case.
func (c bidiCase) variant(op int) bidiCase {
	switch op {
	case 6:
		c.R2L = !c.R2L
	case 7:
		c.TestMode = !c.TestMode
	case 8:
		c.IgnoreSep = !c.IgnoreSep
	case 9:
		c.Marks = nil
	case 10: // another character at the end
		c.Text += "ג"
	case 11: // and at the start
		c.Text = "ג" + c.Text
	case 12: // and in between, of the same length
		x := []rune(string(c.Text))
		for i := len(x) / 2; i < len(x); i++ {
			if r, ok := map[rune]rune{'a': '-', ' ': 'x', 'א': '\u00B1', '\u00B1': 'א', '1': '(', '-': 'b', '(': ')'}[x[i]]; ok && r > 0 {
				x[i] = r
				break
			}
		}
		c.Text = vh.Raw(string(x))
	}
	return c
}

// P21: results do not depend on how they are used.
func TestBidiUse(t *testing.T) {
	vh.Sub[bidiUse]{
		Prop: "P21", Quick: 120000, Thorough: 10000000,
		Rule: "a text, a sequence of options of which the last one of each kind counts (with legacy and nil options, which have no effect), and up to 16 operations on the result: reorder, iterate in both directions, look up directions, split, print, resolve another text, or the same with an option, the markup or a character changed (its directions are checked, too); every ordering must equal that of a new resolution with just the options which count, from another kind of reader; iterating in reverse must give the same segments in reverse order; EOF must hold after the last segment only; non-trivial: at least two runs and three operations",
		Gen: func(t *rapid.T) bidiUse {
			c := bidiUse{bidiCase: genBidi(t, bidiShape{max: 16, isolates: true, brackets: 1, marks: 30})}
			for n := rapid.IntRange(0, 6).Draw(t, "opts"); n > 0; n-- {
				c.Opts = append(c.Opts, bidiOpt{rapid.IntRange(0, 4).Draw(t, "kind"), rapid.Bool().Draw(t, "on")})
			}
			c.Ops = rapid.SliceOfN(rapid.IntRange(0, 12), 1, 16).Draw(t, "ops")
			return c
		},
		Check: func(c bidiUse) (vh.Obs, error) {
			var o vh.Obs
			eff := c.bidiCase // what counts
			var opts []bidi.Option
			for _, x := range c.Opts {
				switch x.Kind {
				case 0:
					eff.R2L = x.On
					d := bidi.LeftToRight
					if x.On {
						d = bidi.RightToLeft
					}
					opts = append(opts, bidi.DefaultDirection(d))
				case 1:
					eff.IgnoreSep = x.On
					opts = append(opts, bidi.IgnoreParagraphSeparators(x.On))
				case 2:
					eff.TestMode = x.On
					opts = append(opts, bidi.TestMode(x.On))
				case 3:
					opts = append(opts, bidi.RecognizeLegacy(x.On))
				case 4:
					opts = append(opts, nil)
				}
			}
			eff.Reader = (c.Reader + 1) % 4
			p := eff.para()
			want := bidiSegments(eff.resolve().Reorder(), false)
			reverse := bidiSegments(eff.resolve().Reorder(), true)
			lv := c.resolve(opts...)
			kept := lv.Reorder()
			for i, op := range c.Ops {
				var got [][]string
				var w [][]string
				switch op {
				case 0:
					got, w = bidiSegments(lv.Reorder(), false), want
				case 1:
					got, w = bidiSegments(lv.Reorder(), true), reverse
				case 2:
					got, w = bidiSegments(kept, i%2 == 1), want
					if i%2 == 1 {
						w = reverse
					}
				case 3:
					for q := range p.chars {
						a, b := lv.DirectionAt(uint64(p.pos[q])), eff.resolve().DirectionAt(uint64(p.pos[q]))
						if a != b {
							return o, fmt.Errorf("%v\n%v: operation %d: DirectionAt(%d) is %v, for a new result %v", c.bidiCase, p, i, p.pos[q], a, b)
						}
						if q > 4 {
							break
						}
					}
				case 4:
					at := p.pos[i*len(p.chars)/len(c.Ops)]
					a, b := lv.Split(uint64(at), i%2 == 0)
					a.Reorder()
					b.Reorder()
					b.Split(0, true)
					_ = lv.String()
				case 5: // resolve something else
					other := bidiCase{Text: "אבג abc (١2) \u2067x\u2069 " + c.Text, R2L: i%2 == 0}
					other.resolve().Reorder()
				default: // resolve it again with something changed, then as before
					v := eff.variant(op)
					if q := v.para(); v.inDomain(q) {
						l, err := q.line(v.resolve(), 0, len(q.chars), 0, v.embedding())
						if err == nil {
							err = q.compareDirections(q.levels(v.R2L), l, 0, len(q.chars))
						}
						if err != nil {
							return o, fmt.Errorf("%v\n%v: operation %d: resolved after %v: %v", v, q, i, c.bidiCase, err)
						}
						o.Label(len(v.Text) > 0, "resolved again with something changed")
					}
					got, w = bidiSegments(eff.resolve().Reorder(), false), want
				}
				if fmt.Sprint(got) != fmt.Sprint(w) {
					return o, fmt.Errorf("%v\n%v, options %v: operation %d (%d) gives segments %v, want %v", c.bidiCase, p, c.Opts, i, op, got, w)
				}
			}
			for k, run := range kept.Runs { // reverse iteration is the reverse of iteration
				var a, b []string
				for it := run.SegmentIterator(false); ; {
					if it.EOF() != (len(a) == len(want[k])) {
						return o, fmt.Errorf("%v\n%v: run %d, EOF is %v after %d of %d segments", c.bidiCase, p, k, it.EOF(), len(a), len(want[k]))
					}
					if !it.Next() {
						break
					}
					a = append(a, fmt.Sprint(it.Segment()))
				}
				for it := run.SegmentIterator(true); ; {
					if it.EOF() != (len(b) == len(want[k])) {
						return o, fmt.Errorf("%v\n%v: run %d in reverse, EOF is %v after %d of %d segments", c.bidiCase, p, k, it.EOF(), len(b), len(want[k]))
					}
					if !it.Next() {
						break
					}
					b = append([]string{fmt.Sprint(it.Segment())}, b...)
				}
				if fmt.Sprint(a) != fmt.Sprint(b) {
					return o, fmt.Errorf("%v\n%v: run %d has segments %v, and in reverse %v", c.bidiCase, p, k, a, b)
				}
				if run.IsOpposite(bidi.LeftToRight) != (run.Dir == bidi.RightToLeft) || run.IsOpposite(bidi.RightToLeft) != (run.Dir == bidi.LeftToRight) {
					return o, fmt.Errorf("%v: IsOpposite is wrong for run %d", c.bidiCase, k)
				}
			}
			p.labels(&o, eff, bidiLine{runs: len(want)})
			o.Label(len(c.Opts) > 1, "several options")
			o.NonTrivial = len(want) > 1 && len(c.Ops) > 2
			return o, nil
		},
	}.Run(t)
}

// bidiSegments lists the segments of each run.
func bidiSegments(o *bidi.Ordering, reverse bool) (all [][]string) {
	for k := range o.Runs {
		x := []string{fmt.Sprint(o.Runs[k].Dir, o.Runs[k].Length)}[:0]
		for it := o.Runs[k].SegmentIterator(reverse); it.Next(); {
			x = append(x, fmt.Sprint(it.Segment()))
		}
		all = append(all, x)
	}
	return all
}
