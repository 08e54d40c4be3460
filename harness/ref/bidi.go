package ref

import (
	"bufio"
	"strconv"
	"strings"
	"sync"
)

// The bidirectional algorithm (UAX#9) for a paragraph with a given direction,
// written from the text of the annex: isolates LRI, RLI, FSI and PDI, without
// the legacy embeddings and overrides, and without rule L1.

// Bc returns the Bidi_Class.
func Bc(r rune) string { return Load("Bc").Of(r) }

var pairs = sync.OnceValue(func() map[rune]rune {
	f, err := files.Open("data/Bpb.txt")
	if err != nil {
		panic(err)
	}
	m := map[rune]rune{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		fl := strings.Fields(sc.Text())
		a, _ := strconv.ParseInt(fl[0], 16, 32)
		b, _ := strconv.ParseInt(fl[len(fl)-1], 16, 32)
		m[rune(a)] = rune(b)
	}
	return m
})

func canonicalBracket(r rune) rune {
	switch r {
	case 0x2329:
		return 0x3008
	case 0x232A:
		return 0x3009
	}
	return r
}

// OpeningBracket returns the closing one for an opening paired bracket, or 0.
func OpeningBracket(r rune) rune {
	if Load("Bpt").Of(r) == "O" || Load("Bpt").Of(r) == "o" {
		return canonicalBracket(pairs()[r])
	}
	return 0
}

// ClosingBracket tells whether r is a closing paired bracket.
func ClosingBracket(r rune) bool {
	return Load("Bpt").Of(r) == "C" || Load("Bpt").Of(r) == "c"
}

// BidiChar is a character or an out-of-line mark (Rune 0) of the given class.
type BidiChar struct {
	Rune  rune
	Class string
}

type bidiPara struct {
	chars []BidiChar
	level []int
	match []int // index of the PDI for an initiator and vice versa, -1: none
}

// BidiLevels returns the resolved embedding levels of the characters, and
// for each isolate initiator (PDI) the index of its partner, -1 if it has none.
func BidiLevels(chars []BidiChar, base int) (level, match []int) {
	p := &bidiPara{chars: chars, level: make([]int, len(chars)), match: make([]int, len(chars))}
	var stack []int
	for i, c := range chars { // BD9
		p.match[i] = -1
		switch c.Class {
		case "LRI", "RLI", "FSI":
			stack = append(stack, i)
		case "PDI":
			if n := len(stack); n > 0 {
				p.match[i], p.match[stack[n-1]] = stack[n-1], i
				stack = stack[:n-1]
			}
		}
	}
	p.sequence(0, len(chars), base, base)
	return p.level, p.match
}

// sequence resolves the isolating run sequence which starts at a and ends
// before b; characters within nested isolates form sequences of their own.
func (p *bidiPara) sequence(a, b, lev, base int) {
	var at []int // positions of the sequence's characters
	eosLevel := lev
	for i := a; i < b; i++ {
		at = append(at, i)
		switch c := p.chars[i].Class; c {
		case "LRI", "RLI", "FSI":
			end := p.match[i]
			if end < 0 {
				end, eosLevel = b, base
			}
			if c == "FSI" {
				c = p.firstStrong(i+1, end)
			}
			inner := lev + 1
			if (inner%2 == 0) != (c == "LRI") {
				inner++
			}
			p.sequence(i+1, end, inner, base)
			i = end - 1
		}
	}
	if eosLevel < lev {
		eosLevel = lev
	}
	e, sos, eos := dirOf(lev), dirOf(lev), dirOf(eosLevel)
	// X9 and 5.2: BN characters are as if they were not there
	var idx []int
	for _, i := range at {
		if p.chars[i].Class != "BN" {
			idx = append(idx, i)
		}
	}
	n := len(idx)
	t := make([]string, n)
	orig := make([]string, n)
	for k, i := range idx {
		t[k] = p.chars[i].Class
		orig[k] = t[k]
	}
	isolate := func(c string) bool { return c == "LRI" || c == "RLI" || c == "FSI" || c == "PDI" }
	for k := range t { // W1
		if t[k] == "NSM" {
			switch {
			case k == 0:
				t[k] = sos
			case isolate(t[k-1]):
				t[k] = "ON"
			default:
				t[k] = t[k-1]
			}
		}
	}
	strong := sos
	for k := range t { // W2
		switch t[k] {
		case "R", "L", "AL":
			strong = t[k]
		case "EN":
			if strong == "AL" {
				t[k] = "AN"
			}
		}
	}
	for k := range t { // W3
		if t[k] == "AL" {
			t[k] = "R"
		}
	}
	for k := 1; k+1 < n; k++ { // W4
		if t[k] == "ES" && t[k-1] == "EN" && t[k+1] == "EN" {
			t[k] = "EN"
		}
		if t[k] == "CS" && t[k-1] == t[k+1] && (t[k-1] == "EN" || t[k-1] == "AN") {
			t[k] = t[k-1]
		}
	}
	for k := 0; k < n; k++ { // W5
		if t[k] != "ET" {
			continue
		}
		j := k
		for j < n && t[j] == "ET" {
			j++
		}
		if k > 0 && t[k-1] == "EN" || j < n && t[j] == "EN" {
			for i := k; i < j; i++ {
				t[i] = "EN"
			}
		}
		k = j - 1
	}
	for k := range t { // W6
		if t[k] == "ET" || t[k] == "ES" || t[k] == "CS" {
			t[k] = "ON"
		}
	}
	strong = sos
	for k := range t { // W7
		switch t[k] {
		case "R", "L":
			strong = t[k]
		case "EN":
			if strong == "L" {
				t[k] = "L"
			}
		}
	}
	// N0
	asStrong := func(c string) string {
		switch c {
		case "L":
			return "L"
		case "R", "EN", "AN":
			return "R"
		}
		return ""
	}
	for _, pr := range p.bracketPairs(idx, t) {
		o, c := pr[0], pr[1]
		var found, opp bool
		for k := o + 1; k < c; k++ {
			switch asStrong(t[k]) {
			case e:
				found = true
			case "":
			default:
				opp = true
			}
		}
		set := ""
		if found {
			set = e
		} else if opp {
			set = e
			before := sos
			for k := o - 1; k >= 0; k-- {
				if s := asStrong(t[k]); s != "" {
					before = s
					break
				}
			}
			if before != e {
				set = before
			}
		}
		if set == "" {
			continue
		}
		for _, k := range []int{o, c} {
			t[k] = set
			for j := k + 1; j < n && orig[j] == "NSM"; j++ {
				t[j] = set
			}
		}
	}
	// N1, N2
	neutral := func(c string) bool { return c == "B" || c == "S" || c == "WS" || c == "ON" || isolate(c) }
	for k := 0; k < n; k++ {
		if !neutral(t[k]) {
			continue
		}
		j := k
		for j < n && neutral(t[j]) {
			j++
		}
		l, r := sos, eos
		if k > 0 {
			l = asStrong(t[k-1])
		}
		if j < n {
			r = asStrong(t[j])
		}
		d := e
		if l == r {
			d = l
		}
		for i := k; i < j; i++ {
			t[i] = d
		}
		k = j - 1
	}
	for k, i := range idx { // I1, I2
		p.level[i] = lev
		switch {
		case lev%2 == 0 && t[k] == "R":
			p.level[i] = lev + 1
		case lev%2 == 0 && (t[k] == "AN" || t[k] == "EN"):
			p.level[i] = lev + 2
		case lev%2 == 1 && (t[k] == "L" || t[k] == "EN" || t[k] == "AN"):
			p.level[i] = lev + 1
		}
	}
	prev := lev
	for _, i := range at {
		if p.chars[i].Class == "BN" {
			p.level[i] = prev
		}
		prev = p.level[i]
	}
}

// firstStrong implements X5c: rules P2 and P3 for the text of an FSI.
func (p *bidiPara) firstStrong(a, b int) string {
	for i := a; i < b; i++ {
		switch p.chars[i].Class {
		case "L":
			return "LRI"
		case "R", "AL":
			return "RLI"
		case "LRI", "RLI", "FSI":
			if p.match[i] < 0 {
				return "LRI"
			}
			i = p.match[i]
		}
	}
	return "LRI"
}

func dirOf(level int) string {
	if level%2 == 0 {
		return "L"
	}
	return "R"
}

// bracketPairs implements BD16; pairs are sorted by their opening brackets.
func (p *bidiPara) bracketPairs(idx []int, t []string) [][2]int {
	type open struct {
		closing rune
		k       int
	}
	var stack []open
	partner := map[int]int{}
scan:
	for k, i := range idx {
		r := p.chars[i].Rune
		if t[k] != "ON" || r == 0 {
			continue
		}
		if c := OpeningBracket(r); c != 0 {
			if len(stack) == 63 {
				break scan
			}
			stack = append(stack, open{c, k})
		} else if ClosingBracket(r) {
			for s := len(stack) - 1; s >= 0; s-- {
				if stack[s].closing == canonicalBracket(r) {
					partner[stack[s].k] = k
					stack = stack[:s]
					break
				}
			}
		}
	}
	var res [][2]int
	for k := range idx {
		if c, ok := partner[k]; ok {
			res = append(res, [2]int{k, c})
		}
	}
	return res
}

// VisualOrder implements L2: the indices of the characters from left to right.
func VisualOrder(level []int) []int {
	order := make([]int, len(level))
	max := 0
	for i := range order {
		order[i] = i
		if level[i] > max {
			max = level[i]
		}
	}
	lev := append([]int{}, level...)
	for m := max; m > 0; m-- {
		for i := 0; i < len(lev); i++ {
			if lev[i] < m {
				continue
			}
			j := i
			for j < len(lev) && lev[j] >= m {
				j++
			}
			for a, b := i, j-1; a < b; a, b = a+1, b-1 {
				lev[a], lev[b] = lev[b], lev[a]
				order[a], order[b] = order[b], order[a]
			}
			i = j - 1
		}
	}
	return order
}
