// Package conc holds the checks for concurrent use. It is a package of its own
// because each cold case starts this test binary, which has to be quick.
package conc

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/bidi/trie"
	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// newBreakers: one letter per breaker. w: words, g: graphemes, s: simple words.
func newBreakers(kinds string) []uax.UnicodeBreaker {
	var bb []uax.UnicodeBreaker
	for _, k := range kinds {
		switch k {
		case 'w':
			bb = append(bb, uax29.NewWordBreaker(1))
		case 'g':
			bb = append(bb, grapheme.NewBreaker(1))
		case 's':
			bb = append(bb, segment.NewSimpleWordBreaker())
		case 'l':
			bb = append(bb, newLineWrap())
		}
	}
	return bb
}

var breakerKinds = []string{"w", "g", "s", "wg", "gw", "sw", "gs", "sgw", "wsg"}

// Package uax14 does not compile without a generated file, see linewrap_test.go.
var (
	newLineWrap func() uax.UnicodeBreaker
	lineClass   func(r rune) string
	lineSetup   func()
)

var anyRune = rapid.SampledFrom([]rune("aábcдאבカ丂한각12३ \t\r\n\u0085.,:'\"_-\u00ad\u200d\u0301\u0903\u0600\ufe0f" +
	"😀👩👍🏽🇩🇪🇫☺©\u3000Ａｱ…\u2028\ue000()[]\u2067\u2069عב٣"))

var setup = sync.OnceFunc(func() {
	uax29.SetupUAX29Classes()
	grapheme.SetupGraphemeClasses()
})

type job struct {
	Kind string  `json:"kind"`
	Arg  string  `json:"arg,omitempty"`
	Text vh.Text `json:"text"`
	Rep  int     `json:"rep,omitempty"` // the text that many times more
}

type jobsCase struct {
	Cold bool  `json:"cold,omitempty"` // in a process of its own, where nothing has been used before
	Jobs []job `json:"jobs"`
	Reps int   `json:"reps"`
}

// run does the job the way a client does who knows nothing about others.
func (j job) run() string {
	var b strings.Builder
	j.Text = slices.Repeat(j.Text, j.Rep+1)
	str := string(j.Text)
	switch j.Kind {
	case "segment":
		if strings.ContainsAny(j.Arg, "g") {
			grapheme.SetupGraphemeClasses()
		}
		s := segment.NewSegmenter(newBreakers(j.Arg)...)
		s.Init(strings.NewReader(str))
		for s.Next() {
			p, q := s.Penalties()
			fmt.Fprintf(&b, "%+q %d %d ", s.Text(), p, q)
		}
		fmt.Fprint(&b, s.Err())
	case "bounded":
		if strings.ContainsAny(j.Arg, "g") {
			grapheme.SetupGraphemeClasses()
		}
		s := segment.NewSegmenter(newBreakers(j.Arg)...)
		s.RuneBuffer(make([]rune, 0, 16), 5000)
		for k := 0; k < 2; k++ {
			s.InitFromSlice(j.Text)
			for bound := 3; s.BoundedNext(bound); bound += 1 + bound/4 {
				fmt.Fprintf(&b, "%+q %+q ", s.Bytes(), s.Runes())
			}
			for k == 1 && s.Next() {
				fmt.Fprintf(&b, "%+q ", s.Text())
			}
			fmt.Fprint(&b, s.Err())
		}
	case "string":
		if j.Arg != "bare" { // it does its own set-up
			grapheme.SetupGraphemeClasses()
		}
		x := grapheme.StringFromString(str)
		if j.Arg == "bytes" {
			x = grapheme.StringFromBytes([]byte(str))
		}
		all := func() string {
			var b strings.Builder
			for i := 0; i < x.Len(); i++ {
				fmt.Fprintf(&b, "%+q ", x.Nth(i))
			}
			return b.String()
		}
		if j.Arg == "shared" { // grapheme strings are read-only
			var other string
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				other = all()
			}()
			b.WriteString(all())
			wg.Wait()
			b.WriteString(other)
			break
		}
		b.WriteString(all())
	case "first":
		for i := 0; i < 3; i++ {
			at, rest := uax.PositionOfFirstLegalRune(strings.Repeat("\x80", i*9) + str)
			fmt.Fprint(&b, at, rest, " ")
		}
	case "trie":
		tr, err := trie.NewTinyHashTrie(199, 40)
		if err != nil {
			panic(err)
		}
		var words [][]byte
		for i := 0; i+3 <= len(j.Text) && i < 24; i += 3 {
			w := []byte{byte(j.Text[i] % 40), byte(j.Text[i+1] % 40), byte(j.Text[i+2] % 40)}
			words = append(words, w)
			tr.AllocPositionForWord(w)
		}
		tr.Freeze()
		look := func() string {
			var b strings.Builder
			for _, w := range words {
				it := tr.Iterator()
				for _, x := range w {
					fmt.Fprint(&b, it.Next(int8(x)), " ")
				}
			}
			for i := 0; i+2 <= len(j.Text); i += 2 { // maybe not in the trie
				fmt.Fprint(&b, tr.AllocPositionForWord([]byte{byte(j.Text[i] % 40), byte(j.Text[i+1] % 40)}), " ")
			}
			return b.String()
		}
		if j.Arg == "shared" { // a frozen trie is read-only
			var other string
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				other = look()
			}()
			b.WriteString(look())
			wg.Wait()
			b.WriteString(other)
			break
		}
		b.WriteString(look())
	case "width":
		ctx := uax11.LatinContext
		if j.Arg == "ea" {
			ctx = uax11.EastAsianContext
		} else if j.Arg == "nil" {
			ctx = nil
		}
		for _, r := range j.Text {
			fmt.Fprint(&b, uax11.Width([]byte(string(r)), ctx), " ")
		}
	case "stringwidth":
		grapheme.SetupGraphemeClasses()
		x := grapheme.StringFromString(str)
		fmt.Fprint(&b, uax11.StringWidth(x, &uax11.Context{Locale: j.Arg}), uax11.StringWidth(x, nil),
			uax11.StringWidth(x, uax11.LatinContext), uax11.StringWidth(x, uax11.EastAsianContext))
	case "words":
		uax29.SetupUAX29Classes()
		for _, r := range j.Text {
			fmt.Fprint(&b, uax29.ClassForRune(r), " ")
		}
	case "graphemes":
		grapheme.SetupGraphemeClasses()
		for _, r := range j.Text {
			fmt.Fprint(&b, grapheme.ClassForRune(r), " ")
		}
	case "bidi":
		var opts []bidi.Option
		if j.Arg == "rtl" {
			opts = append(opts, bidi.DefaultDirection(bidi.RightToLeft))
		}
		var markup bidi.OutOfLineBidiMarkup
		if j.Arg == "markup" {
			markup = func(pos uint64) int {
				switch pos {
				case 2:
					return bidi.MarkupRLI
				case uint64(len(str)):
					return bidi.MarkupPDI
				}
				return 0
			}
			opts = append(opts, bidi.IgnoreParagraphSeparators(true), bidi.TestMode(true))
		}
		lv := bidi.ResolveParagraph(strings.NewReader(str), markup, opts...)
		for _, run := range lv.Reorder().Runs {
			fmt.Fprint(&b, run.Dir, ":")
			for it := run.SegmentIterator(j.Arg == "rtl"); it.Next(); {
				_, l, r := it.Segment()
				fmt.Fprint(&b, l, "-", r, " ")
			}
		}
		x, y := lv.Split(uint64(len(str)/2), true)
		fmt.Fprint(&b, x.Reorder().Runs, y.Reorder().Runs, lv.DirectionAt(0))
	case "lines":
		if j.Arg == "setup" {
			lineSetup()
			for _, r := range j.Text {
				b.WriteString(lineClass(r))
			}
			break
		}
		s := segment.NewSegmenter(newBreakers(j.Arg)...)
		s.Init(strings.NewReader(str))
		for s.Next() {
			p, q := s.Penalties()
			fmt.Fprintf(&b, "%+q %d %d ", s.Text(), p, q)
		}
		fmt.Fprint(&b, s.Err())
	case "env":
		ctx := uax11.ContextFromEnvironment()
		fmt.Fprint(&b, ctx.Locale, uax11.Width([]byte("ä"), ctx))
	case "emoji":
		emoji.SetupEmojisClasses()
		for _, r := range j.Text {
			fmt.Fprint(&b, emoji.EmojisClassForRune(r), " ")
		}
	default:
		panic("unknown job " + j.Kind)
	}
	return b.String()
}

func (c jobsCase) run() error {
	got := make([][]string, len(c.Jobs))
	errs := make([]error, len(c.Jobs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range c.Jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			errs[i] = vh.Guard(func() error {
				for n := 0; n < c.Reps; n++ {
					got[i] = append(got[i], c.Jobs[i].run())
				}
				return nil
			})
		}(i)
	}
	close(start)
	wg.Wait()
	for i, j := range c.Jobs {
		if errs[i] != nil {
			return errs[i]
		}
		want := j.run()
		for n, g := range got[i] {
			if g != want {
				return fmt.Errorf("job %d (%s %s %+q), run %d of several at the same time\n got %s\nwant %s", i, j.Kind, j.Arg, string(j.Text), n, g, want)
			}
		}
	}
	return nil
}

// TestConcurrentChild is the other process of cold cases.
func TestConcurrentChild(t *testing.T) {
	js := os.Getenv("VERIF_CHILD")
	if js == "" {
		t.Skip("for cold cases only")
	}
	var c jobsCase
	if err := json.Unmarshal([]byte(js), &c); err != nil {
		t.Fatal(err)
	}
	if err := c.run(); err != nil {
		t.Fatal(err)
	}
	fmt.Println("CHILD-OK")
}

func cold(c jobsCase) error {
	js, _ := json.Marshal(c)
	cmd := exec.Command(os.Args[0], "-test.run", "^TestConcurrentChild$", "-test.timeout", "60s")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(js), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
	out, err := cmd.CombinedOutput()
	if err == nil && strings.Contains(string(out), "CHILD-OK") {
		return nil
	}
	msg := string(out)
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	if strings.Contains(msg, "DATA RACE") || strings.Contains(msg, "job ") || strings.Contains(msg, "panic:") ||
		strings.Contains(msg, "fatal error:") || strings.Contains(msg, "test timed out") {
		return fmt.Errorf("first use by several goroutines at the same time: %v\n%s", err, msg)
	}
	fmt.Println("NO ANSWER: cold case could not be run:", err, msg)
	os.Exit(4)
	return nil
}

func genJobs(t *rapid.T) jobsCase {
	var c jobsCase
	c.Reps = rapid.IntRange(1, 4).Draw(t, "reps")
	kinds := []string{"segment", "segment", "segment", "bounded", "string", "first", "trie", "width", "stringwidth", "words", "graphemes", "emoji", "bidi", "bidi", "env"}
	if newLineWrap != nil {
		kinds = append(kinds, "lines", "lines")
	}
	same := rapid.IntRange(0, 3).Draw(t, "same") == 0
	var first job
	for n := rapid.IntRange(2, 8).Draw(t, "jobs"); n > 0; n-- {
		j := job{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		if same && len(c.Jobs) > 0 {
			j.Kind = first.Kind
		}
		switch j.Kind {
		case "segment", "bounded":
			j.Arg = rapid.SampledFrom(breakerKinds).Draw(t, "breakers")
		case "width":
			j.Arg = rapid.SampledFrom([]string{"", "ea", "nil"}).Draw(t, "context")
		case "string":
			j.Arg = rapid.SampledFrom([]string{"", "bare", "bytes", "shared"}).Draw(t, "setup")
		case "trie":
			j.Arg = rapid.SampledFrom([]string{"", "shared"}).Draw(t, "sharing")
		case "lines":
			j.Arg = rapid.SampledFrom([]string{"l", "l", "setup", "lw", "sl"}).Draw(t, "breakers")
		case "bidi":
			j.Arg = rapid.SampledFrom([]string{"", "rtl", "markup"}).Draw(t, "direction")
		case "stringwidth":
			j.Arg = rapid.SampledFrom([]string{"", "ja", "de", "zh-Hant"}).Draw(t, "locale")
		}
		j.Text = rapid.SliceOfN(anyRune, 0, 20).Draw(t, "text")
		if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
			j.Rep = rapid.IntRange(1, 30).Draw(t, "rep")
		}
		if len(c.Jobs) == 0 {
			first = j
		}
		c.Jobs = append(c.Jobs, j)
	}
	return c
}

// P14: independent objects can be used by several goroutines at the same time.
func TestConcurrent(t *testing.T) {
	vh.Sub[jobsCase]{
		Prop: "P14", Quick: 16000, Thorough: 600000,
		Rule: "2-8 goroutines doing different jobs at the same time (segmenting with any breakers, line breaking, grapheme strings, widths, class look up, bidi resolution with and without markup, tries), with short and longer texts, each with objects of its own, under the race detector; results must be those of the same job alone, with no data race, panic or deadlock; non-trivial: two or more jobs with texts of at least 3 runes",
		Gen:  genJobs,
		Check: func(c jobsCase) (vh.Obs, error) {
			setup()
			return checkJobs(c)
		},
	}.Run(t)
}

// P14, first use: the same in a process which has not used the module before.
func TestConcurrentFirstUse(t *testing.T) {
	vh.Sub[jobsCase]{
		Prop: "P14", Quick: 1600, Thorough: 60000,
		Rule: "the same as TestConcurrent, in a new process for each case, such that the goroutines meet in the set-up of class tables and pools",
		Gen: func(t *rapid.T) jobsCase {
			c := genJobs(t)
			c.Cold = true
			return c
		},
		Check: checkJobs,
	}.Run(t)
}

func checkJobs(c jobsCase) (vh.Obs, error) {
	var o vh.Obs
	n := 0
	for _, j := range c.Jobs {
		if len(j.Text) >= 3 {
			n++
		}
	}
	o.NonTrivial = n >= 2
	if c.Cold {
		return o, cold(c)
	}
	return o, c.run()
}
