package props

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"unicode"

	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// programs returns the directory with the generator programs of the
// repository, named by their directory with "_" in place of "/".
var programs = sync.OnceValue(func() string {
	if d := os.Getenv("VERIF_PROGRAMS"); d != "" {
		return d
	}
	d, err := os.MkdirTemp("", "verif-programs-")
	if err != nil {
		panic(err)
	}
	for _, p := range []string{"internal/tablegen", "bidi/internal/gen", "uax29/internal/generator", "grapheme/internal/generator", "emoji/internal/generator", "uax14/internal/generator"} {
		cmd := exec.Command("go", "build", "-o", filepath.Join(d, strings.ReplaceAll(p, "/", "_")), "github.com/npillmayer/uax/"+p)
		cmd.Dir = os.Getenv("VERIF_HARNESS")
		if b, err := cmd.CombinedOutput(); err != nil {
			panic(fmt.Sprintf("%v: %s", err, b))
		}
	}
	return d
})

// a generator of class tables
type classTool struct {
	program string // name of the program
	input   string // file it reads below $GOPATH/etc
	output  string // file it writes to the current directory
	pkg     string
	typ     string // type of the class constants
	classes []string
}

var classTools = map[string]classTool{
	"uax29": {"uax29_internal_generator", "WordBreakProperty.txt", "uax29classes.go", "uax29", "UAX29Class",
		strings.Fields("ALetter CR Double_Quote Extend ExtendNumLet Format Hebrew_Letter Katakana LF MidLetter MidNum MidNumLet Newline Numeric Regional_Indicator Single_Quote WSegSpace ZWJ")},
	"grapheme": {"grapheme_internal_generator", "GraphemeBreakProperty.txt", "graphemeclasses.go", "grapheme", "GraphemeClass",
		strings.Fields("CR LF Prepend Control Extend Regional_Indicator SpacingMark L V T LV LVT ZWJ")},
	"emoji": {"emoji_internal_generator", "emoji-data.txt", "emojiclasses.go", "emoji", "EmojisClass",
		strings.Fields("Emoji Emoji_Presentation Emoji_Modifier Emoji_Modifier_Base Emoji_Component Extended_Pictographic")},
	"uax14": {"uax14_internal_generator", "LineBreak.txt", "uax14classes.go", "uax14", "UAX14Class",
		strings.Fields("AI AL B2 BA BB BK CB CJ CL CM CP CR EB EM EX GL H2 H3 HL HY ID IN IS JL JT JV LF NL NS NU OP PO PR QU RI SA SG SP SY WJ XX ZW ZWJ")},
}

type generatorCase struct {
	Tool   string    `json:"tool"`
	Lines  []ucdLine `json:"lines"`
	Field  int       `json:"field,omitempty"`  // tablegen: number of the category field, counted from 1 for the code points
	Prefix string    `json:"prefix,omitempty"` // tablegen
	Pkg    string    `json:"pkg,omitempty"`    // tablegen and brackets
	Out    string    `json:"out,omitempty"`
	Fail   string    `json:"fail,omitempty"` // missing, bad, status, cut
	Old    bool      `json:"old,omitempty"`  // a file from an earlier run is there
}

var genGeneratorCase = rapid.Custom(func(t *rapid.T) generatorCase {
	c := generatorCase{Tool: rapid.SampledFrom([]string{"tablegen", "tablegen", "brackets", "uax29", "grapheme", "emoji", "uax14"}).Draw(t, "tool")}
	n := rapid.IntRange(0, 14).Draw(t, "n")
	if rapid.IntRange(0, 20).Draw(t, "many") == 0 {
		n *= 8
	}
	c.Old = rapid.Bool().Draw(t, "old")
	var classes []string
	switch c.Tool {
	case "tablegen":
		c.Field = rapid.IntRange(2, 4).Draw(t, "field")
		c.Prefix = rapid.SampledFrom([]string{"", "EAW", "X_Y"}).Draw(t, "prefix")
		c.Pkg = rapid.SampledFrom([]string{"uax11", "mypackage"}).Draw(t, "pkg")
		c.Out = rapid.SampledFrom([]string{"tables.go", "out.go"}).Draw(t, "out")
		classes = []string{"A", "F", "Na", "Top_And_Bottom", "W1", "N", "EAW", "EAW_A", "X_Yes", "a"}
	case "brackets":
		c.Pkg = rapid.SampledFrom([]string{"bidi", "main"}).Draw(t, "pkg")
		c.Out = rapid.SampledFrom([]string{"_bracketpairs.go", "b.go"}).Draw(t, "out")
	default:
		classes = classTools[c.Tool].classes
	}
	if classes != nil {
		k := rapid.IntRange(1, min(5, len(classes))).Draw(t, "classes")
		classes = rapid.Permutation(classes).Draw(t, "perm")[:k]
	}
	at := rapid.SampledFrom([]rune{0, 1, 9, 0x28, 0xE0, 0x300, 0x2018, 0xD700, 0xD7FE, 0xDFFF, 0xFFE0, 0x1F000, 0x10FF00}).Draw(t, "start")
	for i := 0; i < n; i++ {
		l := genUcdLine.Draw(t, "line")
		if l.Kind != "data" {
			c.Lines = append(c.Lines, l)
			continue
		}
		at += rapid.OneOf(rapid.Int32Range(0, 2), rapid.Int32Range(0, 100), rapid.Int32Range(0, 0x3000)).Draw(t, "skip")
		l.From, l.To = at, at
		if !l.Single {
			l.To += rapid.OneOf(rapid.Int32Range(0, 3), rapid.Int32Range(0, 60)).Draw(t, "len")
		}
		if l.To > 0x10FFFF {
			break
		}
		at = l.To + 1
		if c.Tool == "brackets" {
			l.Single, l.To = true, l.From
			for l.From >= 0xD800 && l.From <= 0xDFFF {
				l.From, l.To, at = 0xE000, 0xE000, 0xE002
			}
			other := rapid.SampledFrom([]rune{l.From ^ 1, 0x29, 0x232A, 0x10FFFF}).Draw(t, "other")
			l.Fields = []string{fmt.Sprintf("%04X", other), rapid.SampledFrom([]string{"o", "o", "c", "n"}).Draw(t, "type")}
		} else {
			f := max(2, c.Field) - 2
			class := rapid.SampledFrom(classes).Draw(t, "class")
			if c.Tool == "tablegen" {
				if len(l.Fields) > f {
					l.Fields[f] = class
				}
				if rapid.IntRange(0, 8).Draw(t, "empty") == 0 && len(l.Fields) > f && f > 0 {
					l.Fields[f] = ""
				}
			} else {
				l.Fields[0] = class
			}
		}
		c.Lines = append(c.Lines, l)
	}
	if c.Tool != "tablegen" && rapid.Bool().Draw(t, "shuffle") {
		c.Lines = rapid.Permutation(c.Lines).Draw(t, "order")
	}
	if n := len(c.Lines); n > 0 && c.Lines[n-1].EOL != "" && rapid.IntRange(0, 3).Draw(t, "no final eol") == 0 {
		c.Lines[n-1].EOL = ""
	}
	for i := range c.Lines { // a line without its end would run into the next one
		if c.Lines[i].EOL == "" && i < len(c.Lines)-1 {
			c.Lines[i].EOL = "\n"
		}
	}
	if rapid.IntRange(0, 7).Draw(t, "fails") == 0 {
		c.Fail = rapid.SampledFrom(map[bool][]string{true: {"missing", "bad", "status", "cut"}, false: {"missing", "bad"}}[c.Tool == "tablegen"]).Draw(t, "fail")
	}
	return c
})

// fakeImporter provides what generated files import.
var fakeImporter = sync.OnceValue(func() types.Importer {
	m := mapImporter{}
	for path, src := range map[string]string{
		"strconv": "package strconv\nfunc FormatInt(i int64, base int) string",
		"unicode": "package unicode\ntype Range16 struct { Lo, Hi, Stride uint16 }\ntype Range32 struct { Lo, Hi, Stride uint32 }\ntype RangeTable struct { R16 []Range16; R32 []Range32; LatinOffset int }",
	} {
		m[path] = mustCheck(path, src, m)
	}
	m["golang.org/x/text/unicode/rangetable"] = mustCheck("golang.org/x/text/unicode/rangetable", "package rangetable\nimport \"unicode\"\nfunc New(r ...rune) *unicode.RangeTable", m)
	return m
})

type mapImporter map[string]*types.Package

func (m mapImporter) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("unexpected import of %s", path)
}

func mustCheck(path, src string, imp types.Importer) *types.Package {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		panic(err)
	}
	conf := types.Config{Importer: imp, IgnoreFuncBodies: true}
	p, err := conf.Check(path, fset, []*ast.File{f}, nil)
	if err != nil && p == nil {
		panic(err)
	}
	return p
}

// a generated file which compiles
type goFile struct {
	file *ast.File
	pkg  *types.Package
	info *types.Info
}

// compile parses and type-checks a generated file; extra is declared in other
// files of the package.
func compile(src []byte, extra string) (*goFile, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "out.go", src, 0)
	if err != nil {
		return nil, err
	}
	files := []*ast.File{f}
	if extra != "" {
		x, err := parser.ParseFile(fset, "extra.go", "package "+f.Name.Name+"\n"+extra, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, x)
	}
	g := &goFile{file: f, info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}}
	conf := types.Config{Importer: fakeImporter()}
	g.pkg, err = conf.Check(f.Name.Name, fset, files, g.info)
	return g, err
}

func (g *goFile) num(e ast.Expr) (int64, error) {
	v := g.info.Types[e].Value
	if v == nil {
		return 0, fmt.Errorf("not a constant")
	}
	n, ok := constant.Int64Val(constant.ToInt(v))
	if !ok {
		return 0, fmt.Errorf("not an integer: %v", v)
	}
	return n, nil
}

// table evaluates a composite literal of a range table.
func (g *goFile) table(e ast.Expr) (map[rune]bool, error) {
	if u, ok := e.(*ast.UnaryExpr); ok {
		e = u.X
	}
	lit, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil, fmt.Errorf("table is a %T", e)
	}
	tab := &unicode.RangeTable{}
	for _, el := range lit.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return nil, fmt.Errorf("table without keys")
		}
		key := kv.Key.(*ast.Ident).Name
		if key == "LatinOffset" {
			n, err := g.num(kv.Value)
			if err != nil {
				return nil, err
			}
			tab.LatinOffset = int(n)
			continue
		}
		for _, r := range kv.Value.(*ast.CompositeLit).Elts {
			var v [3]int64
			for i, x := range r.(*ast.CompositeLit).Elts {
				if k, ok := x.(*ast.KeyValueExpr); ok {
					x = k.Value
					i = map[string]int{"Lo": 0, "Hi": 1, "Stride": 2}[k.Key.(*ast.Ident).Name]
				}
				n, err := g.num(x)
				if err != nil {
					return nil, err
				}
				v[i] = n
			}
			if key == "R16" {
				tab.R16 = append(tab.R16, unicode.Range16{Lo: uint16(v[0]), Hi: uint16(v[1]), Stride: uint16(v[2])})
			} else {
				tab.R32 = append(tab.R32, unicode.Range32{Lo: uint32(v[0]), Hi: uint32(v[1]), Stride: uint32(v[2])})
			}
		}
	}
	set := map[rune]bool{}
	for _, r := range tab.R16 { // candidates
		for c := rune(r.Lo); c <= rune(r.Hi); c++ {
			set[c] = unicode.Is(tab, c)
		}
	}
	for _, r := range tab.R32 {
		for c := rune(r.Lo); c <= rune(r.Hi); c++ {
			set[c] = unicode.Is(tab, c)
		}
	}
	for c, in := range set {
		if !in {
			return nil, fmt.Errorf("unicode.Is does not find %U in the table, its ranges are out of order", c)
		}
	}
	return set, nil
}

// vars returns the values of package level variables.
func (g *goFile) vars() map[string]ast.Expr {
	m := map[string]ast.Expr{}
	for _, d := range g.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR && gd.Tok != token.CONST {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				m[n.Name] = nil
				if i < len(vs.Values) {
					m[n.Name] = vs.Values[i]
				}
			}
		}
	}
	return m
}

func setsDiffer(name string, got, want map[rune]bool) error {
	diff := func(a, b map[rune]bool) (d []rune) {
		for r := range a {
			if !b[r] {
				d = append(d, r)
			}
		}
		sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
		return d[:min(len(d), 10)]
	}
	m, x := diff(want, got), diff(got, want)
	if len(m)+len(x) > 0 {
		return fmt.Errorf("class %s lacks %U, has %U in excess", name, m, x)
	}
	return nil
}

// checkTables looks at the output of tablegen.
func (c generatorCase) checkTables(src []byte, want map[string]map[rune]bool) error {
	g, err := compile(src, "")
	if err != nil {
		return err
	}
	if g.file.Name.Name != c.Pkg {
		return fmt.Errorf("package is called %s", g.file.Name.Name)
	}
	vars := g.vars()
	for name := range vars {
		if _, ok := want[strings.TrimPrefix(name, "_")]; !ok {
			return fmt.Errorf("there is a variable %s for no category", name)
		}
	}
	for name, set := range want {
		v, ok := vars[name]
		if !ok {
			return fmt.Errorf("no table %s", name)
		}
		for i := 0; i < 5; i++ {
			if id, ok := v.(*ast.Ident); ok {
				v = vars[id.Name]
			}
		}
		if v == nil {
			return fmt.Errorf("table %s has no value", name)
		}
		got, err := g.table(v)
		if err != nil {
			return fmt.Errorf("table %s: %v", name, err)
		}
		if err := setsDiffer(name, got, set); err != nil {
			return err
		}
	}
	return nil
}

// checkClasses looks at the output of a generator of classes.
func (c generatorCase) checkClasses(src []byte, want map[string]map[rune]bool) error {
	tool := classTools[c.Tool]
	extra := ""
	if f, err := parser.ParseFile(token.NewFileSet(), "", src, 0); err == nil && f.Scope.Lookup("sot") == nil && c.Tool == "uax14" {
		extra = "const sot, eot " + tool.typ + " = 1000, 1001"
	}
	g, err := compile(src, extra)
	if err != nil {
		return err
	}
	if g.file.Name.Name != tool.pkg {
		return fmt.Errorf("package is called %s", g.file.Name.Name)
	}
	vars := g.vars()
	// class constants and their names
	index, ok := vars["_"+tool.typ+"_index"].(*ast.CompositeLit)
	names, ok2 := g.pkg.Scope().Lookup("_" + tool.typ + "_name").(*types.Const)
	values := map[int64]string{}
	for _, cl := range tool.classes {
		k, ok := g.pkg.Scope().Lookup(cl + "Class").(*types.Const)
		if !ok {
			return fmt.Errorf("no constant for class %s", cl)
		}
		n, _ := constant.Int64Val(k.Val())
		if values[n] != "" {
			return fmt.Errorf("classes %s and %s have the same value", cl, values[n])
		}
		values[n] = cl
	}
	if ok && ok2 {
		s := constant.StringVal(names.Val())
		for n, cl := range values {
			if n < 0 || int(n) >= len(index.Elts)-1 {
				return fmt.Errorf("class %s is out of range", cl)
			}
			a, _ := g.num(index.Elts[n])
			b, _ := g.num(index.Elts[n+1])
			if a < 0 || b < a || b > int64(len(s)) || s[a:b] != cl+"Class" {
				return fmt.Errorf("class %s has a wrong name at [%d:%d]", cl, a, b)
			}
		}
	}
	// assignments of tables
	got := map[string]map[rune]bool{}
	slots := map[int64]string{}
	size := int64(-1)
	var bad error
	ast.Inspect(g.file, func(n ast.Node) bool {
		if x, ok := n.(*ast.CallExpr); ok && len(x.Args) == 2 {
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" {
				size, bad = g.num(x.Args[1])
			}
		}
		as, ok := n.(*ast.AssignStmt)
		if !ok || len(as.Lhs) != 1 {
			return true
		}
		switch l := as.Lhs[0].(type) {
		case *ast.Ident:
			call, ok := as.Rhs[0].(*ast.CallExpr)
			if !ok {
				return true
			}
			if sel, ok := call.Fun.(*ast.SelectorExpr); !ok || sel.Sel.Name != "New" {
				return true
			}
			if got[l.Name] != nil {
				bad = fmt.Errorf("%s is assigned twice", l.Name)
			}
			got[l.Name] = map[rune]bool{}
			for _, a := range call.Args {
				r, err := g.num(a)
				if err != nil {
					bad = err
				}
				got[l.Name][rune(r)] = true
			}
		case *ast.IndexExpr:
			id, ok := as.Rhs[0].(*ast.Ident)
			i, err := g.num(l.Index)
			if !ok || err != nil || got[id.Name] == nil {
				bad = fmt.Errorf("table is set at [%d] to an unknown class (%v)", i, err)
				return true
			}
			slots[i] = id.Name
		}
		return true
	})
	if bad != nil {
		return bad
	}
	for i, cl := range slots {
		if values[i] != cl || i >= size {
			return fmt.Errorf("table of class %s is at [%d] of %d, which is class %s", cl, i, size, values[i])
		}
	}
	for cl := range got {
		if want[cl] == nil {
			return fmt.Errorf("table for class %s which is not in the file", cl)
		}
	}
	for cl, set := range want {
		if got[cl] == nil {
			return fmt.Errorf("no table for class %s", cl)
		}
		if !vh.Strict() { // known finding: surrogates are written as U+FFFD
			for r := range set {
				if r >= 0xD800 && r <= 0xDFFF && !got[cl][r] {
					delete(set, r)
					set[0xFFFD] = true
				}
			}
		}
		if err := setsDiffer(cl, got[cl], set); err != nil {
			return err
		}
		found := false
		for _, x := range slots {
			found = found || x == cl
		}
		if !found {
			return fmt.Errorf("table of class %s is not in the list of tables", cl)
		}
	}
	return nil
}

// checkPairs looks at the output of the generator for brackets.
func (c generatorCase) checkPairs(src []byte, want map[[2]rune]bool) error {
	g, err := compile(src, "")
	if err != nil {
		return err
	}
	if g.file.Name.Name != c.Pkg {
		return fmt.Errorf("package is called %s", g.file.Name.Name)
	}
	lit, ok := g.vars()["UAX9BracketPairs"].(*ast.CompositeLit)
	if !ok {
		return fmt.Errorf("no list of pairs")
	}
	got := map[[2]rune]bool{}
	for _, e := range lit.Elts {
		p, ok := e.(*ast.CompositeLit)
		if !ok || len(p.Elts) != 2 {
			return fmt.Errorf("not a pair")
		}
		var v [2]rune
		for i, x := range p.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				x = kv.Value
				i = map[string]int{"o": 0, "c": 1}[kv.Key.(*ast.Ident).Name]
			}
			n, err := g.num(x)
			if err != nil {
				return err
			}
			v[i] = rune(n)
		}
		if got[v] {
			return fmt.Errorf("pair %U is there twice", v)
		}
		got[v] = true
		if !want[v] {
			return fmt.Errorf("pair %U in excess", v)
		}
	}
	for v := range want {
		if !got[v] {
			return fmt.Errorf("pair %U is missing", v)
		}
	}
	return nil
}

// serve provides the file for tablegen.
func serve(fail string, text []byte) (url string, done func()) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		switch fail {
		case "missing": // no answer at all; a closed port might be taken by a server of another process
			panic(http.ErrAbortHandler)
		case "status":
			w.WriteHeader([]int{404, 500, 403, 503}[len(text)%4])
		case "cut":
			w.Header().Set("Content-Length", strconv.Itoa(len(text)+7))
		}
		w.Write(text)
	}))
	return s.URL + "/UCD.txt", s.Close
}

func TestGenerators(t *testing.T) {
	vh.Sub[generatorCase]{
		Prop: "P28", Quick: 6000, Thorough: 300000,
		Rule: "a generator program (tablegen with a local web server, bracket pairs, classes for uax29, grapheme, emoji, uax14) is run on a UCD file of random ranges, classes, comments and white space, or one it cannot get or which contains an error; its output is type-checked, evaluated and compared to the file; non-trivial: at least two data lines of which two have the same class",
		Gen:  func(t *rapid.T) generatorCase { return genGeneratorCase.Draw(t, "case") },
		Check: func(c generatorCase) (vh.Obs, error) {
			var o vh.Obs
			var text bytes.Buffer
			want := map[string]map[rune]bool{}
			pairs := map[[2]rune]bool{}
			data, dup := 0, false
			for i, l := range c.Lines {
				if c.Fail == "bad" && i == len(c.Lines)/2 {
					text.WriteString("110000000; " + "A; A; A\n")
				}
				text.WriteString(l.String())
				if l.Kind != "data" {
					continue
				}
				data++
				if c.Tool == "brackets" {
					if l.Fields[1] == "o" {
						r, _ := strconv.ParseUint(l.Fields[0], 16, 32)
						dup = dup || len(pairs) > 0
						pairs[[2]rune{l.From, rune(r)}] = true
					}
					continue
				}
				class := ""
				if f := max(2, c.Field) - 2; f < len(l.Fields) {
					class = l.Fields[f]
				}
				if class == "" {
					continue
				}
				if c.Prefix != "" {
					class = c.Prefix + "_" + class
				}
				dup = dup || want[class] != nil
				if want[class] == nil {
					want[class] = map[rune]bool{}
				}
				for r := l.From; r <= l.To; r++ {
					want[class][r] = true
				}
			}
			if c.Fail == "bad" && len(c.Lines) == 0 {
				text.WriteString("110000000; A; A; A\n")
			}
			o.NonTrivial = data > 1 && dup
			o.Label(true, c.Tool)
			o.Label(c.Fail != "", "failure: "+c.Fail)

			dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "gen")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			work := filepath.Join(dir, "work")
			os.MkdirAll(filepath.Join(dir, "etc"), 0o755)
			os.MkdirAll(work, 0o755)
			var cmd *exec.Cmd
			out, input := c.Out, ""
			switch c.Tool {
			case "tablegen":
				url, done := serve(c.Fail, text.Bytes())
				defer done()
				args := []string{"-u", url, "-p", c.Pkg, "-f", strconv.Itoa(c.Field), "-o", out}
				if c.Prefix != "" {
					args = append(args, "-x", c.Prefix)
				}
				cmd = exec.Command(filepath.Join(programs(), "internal_tablegen"), args...)
			case "brackets":
				input = filepath.Join(work, "BidiBrackets.txt")
				cmd = exec.Command(filepath.Join(programs(), "bidi_internal_gen"), "-o", out, "-pkg", c.Pkg)
			default:
				tool := classTools[c.Tool]
				out = tool.output
				input = filepath.Join(dir, "etc", tool.input)
				cmd = exec.Command(filepath.Join(programs(), tool.program))
			}
			if input != "" && c.Fail != "missing" {
				if err := os.WriteFile(input, text.Bytes(), 0o644); err != nil {
					panic(err)
				}
			}
			out = filepath.Join(work, out)
			const old = "package old // from an earlier run\n"
			if c.Old {
				if err := os.WriteFile(out, []byte(old), 0o644); err != nil {
					panic(err)
				}
			}
			cmd.Dir = work
			cmd.Env = []string{"GOPATH=" + dir, "HOME=" + dir, "PATH=/usr/bin:/bin"}
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			err = cmd.Run()
			if _, ok := err.(*exec.ExitError); err != nil && !ok {
				panic(err)
			}
			bad := func(e error) (vh.Obs, error) {
				src, _ := os.ReadFile(out)
				return o, fmt.Errorf("%s %s of %q: %v\noutput: %.1500s\nmessages: %.500s", c.Tool, c.Fail, text.String(), e, src, stderr.String())
			}
			if c.Fail != "" || c.Tool == "brackets" && len(pairs) == 0 {
				if err == nil {
					return bad(fmt.Errorf("the program ends without an error"))
				}
				src, rerr := os.ReadFile(out)
				if c.Old && (rerr != nil || string(src) != old) || !c.Old && rerr == nil {
					return bad(fmt.Errorf("the program fails, but has written its output (%v)", err))
				}
				return o, nil
			}
			if err != nil {
				return bad(fmt.Errorf("the program fails: %v", err))
			}
			src, err := os.ReadFile(out)
			if err != nil {
				return bad(err)
			}
			if len(want)+len(pairs) == 0 { // a file without tables need not compile (unused imports)
				return o, nil
			}
			switch c.Tool {
			case "tablegen":
				err = c.checkTables(src, want)
			case "brackets":
				err = c.checkPairs(src, pairs)
			default:
				err = c.checkClasses(src, want)
			}
			if err != nil {
				return bad(err)
			}
			return o, nil
		},
	}.Run(t)
}
