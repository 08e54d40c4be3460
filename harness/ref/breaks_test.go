package ref

import (
	"bufio"
	"os"
	"strconv"
	"strings"
	"testing"
)

func parseTest(t *testing.T, fn string, f func(line string, text []rune, br []bool)) {
	fd, err := os.Open(fn)
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(fd)
	for sc.Scan() {
		l, _, _ := strings.Cut(sc.Text(), "#")
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		var text []rune
		var br []bool
		for _, w := range strings.Fields(l) {
			switch w {
			case "÷":
				br = append(br, true)
			case "×":
				br = append(br, false)
			default:
				v, _ := strconv.ParseInt(w, 16, 32)
				text = append(text, rune(v))
			}
		}
		f(l, text, br)
	}
}

// The reference models reproduce the conformance files of the Unicode consortium.
func TestModels(t *testing.T) {
	for _, x := range []struct {
		fn string
		f  func([]rune) []bool
	}{{"/repo/uax29/WordBreakTest.txt", WordBreaks}, {"/repo/grapheme/testfile/GraphemeBreakTest.txt", GraphemeBreaks}} {
		n := 0
		parseTest(t, x.fn, func(l string, text []rune, br []bool) {
			n++
			got := x.f(text)
			for i := range br {
				if got[i] != br[i] {
					t.Errorf("%s: position %d", l, i)
					return
				}
			}
		})
		t.Log(x.fn, n)
	}
}

// Line breaks as well, as far as classes did not change since version 10.
func TestLineBreaks(t *testing.T) {
	n, bad := 0, 0
	parseTest(t, "/repo/uax14/LineBreakTest.txt", func(l string, text []rune, br []bool) {
		n++
		var cl []string
		for _, r := range text {
			gc := Load("Gc").Of(r)
			cl = append(cl, LineClass(LB(r), gc == "Mn" || gc == "Mc"))
		}
		got := LineBreaks(cl)
		for i := range text {
			if (got[i] != NoBreak) != br[i+1] {
				bad++
				t.Errorf("%s: %v: %v", l, cl, got)
				return
			}
		}
	})
	t.Log(n, bad)
}
