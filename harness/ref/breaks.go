package ref

// Class data for text segmentation, Unicode 11 (the version of the annexes
// the repository implements).  The dump is Unicode 15; code points whose
// property changed in between are listed here with their Unicode 11 value.
var wb11 = map[rune]string{
	0x1CF2: "Extend", 0x1CF3: "Extend", 0x055A: "Other", 0x058A: "Other", 0x055F: "Other",
}
var gcb11 = map[rune]string{
	0x1B35: "SpacingMark", 0xA9BD: "SpacingMark", 0x1CF2: "SpacingMark", 0x1CF3: "SpacingMark",
	0x11720: "SpacingMark", 0x11721: "SpacingMark", 0x1734: "Extend",
}

func init() {
	for r := rune(0x2E5); r <= 0x2EB; r++ {
		wb11[r] = "Other"
	}
	for r := rune(0xA708); r <= 0xA716; r++ {
		wb11[r] = "Other"
	}
	for r := rune(0xFF10); r <= 0xFF19; r++ {
		wb11[r] = "Other"
	}
}

// WB returns the Word_Break property of Unicode 11; only meaningful for
// code points with InU11.
func WB(r rune) string {
	if v, ok := wb11[r]; ok {
		return v
	}
	switch r {
	case 0x9, 0xA0, 0x2007:
		return "Other" // Perl tailors these to horizontal space
	}
	switch v := Load("WB").Of(r); v {
	case "Perl_Tailored_HSpace":
		return "WSegSpace"
	case "ExtPict_XX", "":
		return "Other"
	case "ExtPict_LE":
		return "ALetter"
	default:
		return v
	}
}

// GCB returns the Grapheme_Cluster_Break property of Unicode 11.
func GCB(r rune) string {
	if v, ok := gcb11[r]; ok {
		return v
	}
	if r >= 0xD800 && r <= 0xDFFF {
		return "Control" // surrogates
	}
	switch v := Load("GCB").Of(r); v {
	case "ExtPict_XX", "ExtPict_LE", "":
		return "Other"
	default:
		return v
	}
}

// ExtPict returns the Extended_Pictographic property.
func ExtPict(r rune) bool { return Load("ExtPict").Of(r) == "Y" }

// InU11 tells whether r is a character of Unicode 11 which these tables
// classify (no surrogates, no unassigned code points).
func InU11(r rune) bool {
	a := Age(r)
	return a > 0 && a <= 110 && (r < 0xD800 || r > 0xDFFF)
}

// GraphemeBreaks returns b with b[i] = true iff UAX#29 (Unicode 11) puts an
// extended grapheme cluster boundary before text[i]; b[0] and b[len(text)]
// are true for non-empty text.
func GraphemeBreaks(text []rune) []bool {
	n := len(text)
	b := make([]bool, n+1)
	if n == 0 {
		return b
	}
	b[0], b[n] = true, true // GB1, GB2
	c := make([]string, n)
	for i, r := range text {
		c[i] = GCB(r)
	}
	for i := 1; i < n; i++ {
		b[i] = gbreak(text, c, i)
	}
	return b
}

func gbreak(text []rune, c []string, i int) bool {
	l, r := c[i-1], c[i]
	ctl := func(s string) bool { return s == "Control" || s == "CR" || s == "LF" }
	switch {
	case l == "CR" && r == "LF": // GB3
		return false
	case ctl(l): // GB4
		return true
	case ctl(r): // GB5
		return true
	case l == "L" && (r == "L" || r == "V" || r == "LV" || r == "LVT"): // GB6
		return false
	case (l == "LV" || l == "V") && (r == "V" || r == "T"): // GB7
		return false
	case (l == "LVT" || l == "T") && r == "T": // GB8
		return false
	case r == "Extend" || r == "ZWJ": // GB9
		return false
	case r == "SpacingMark": // GB9a
		return false
	case l == "Prepend": // GB9b
		return false
	}
	if l == "ZWJ" && ExtPict(text[i]) { // GB11
		j := i - 2
		for j >= 0 && c[j] == "Extend" {
			j--
		}
		if j >= 0 && ExtPict(text[j]) {
			return false
		}
	}
	if l == "Regional_Indicator" && r == "Regional_Indicator" { // GB12, GB13
		k := 0
		for j := i - 1; j >= 0 && c[j] == "Regional_Indicator"; j-- {
			k++
		}
		if k%2 == 1 {
			return false
		}
	}
	return true // GB999
}

// WordBreaks is the same for word boundaries.
func WordBreaks(text []rune) []bool {
	n := len(text)
	b := make([]bool, n+1)
	if n == 0 {
		return b
	}
	b[0], b[n] = true, true // WB1, WB2
	c := make([]string, n)
	for i, r := range text {
		c[i] = WB(r)
	}
	for i := 1; i < n; i++ {
		b[i] = wbreak(text, c, i)
	}
	return b
}

func wbreak(text []rune, c []string, i int) bool {
	nl := func(s string) bool { return s == "Newline" || s == "CR" || s == "LF" }
	ign := func(s string) bool { return s == "Extend" || s == "Format" || s == "ZWJ" }
	l, r := c[i-1], c[i]
	switch {
	case l == "CR" && r == "LF": // WB3
		return false
	case nl(l): // WB3a
		return true
	case nl(r): // WB3b
		return true
	case l == "ZWJ" && ExtPict(text[i]): // WB3c
		return false
	case l == "WSegSpace" && r == "WSegSpace": // WB3d
		return false
	case ign(r): // WB4
		return false
	}
	// left and left-left neighbours, WB4 applied
	prev := func(j int) int { // significant position at or left of j, -1 = none
		for j >= 0 && ign(c[j]) {
			if j == 0 || nl(c[j-1]) {
				return j // not ignored after sot and line breaks
			}
			j--
		}
		return j
	}
	p := prev(i - 1)
	l = c[p]
	ll := ""
	if p > 0 {
		if q := prev(p - 1); q >= 0 {
			ll = c[q]
		}
	}
	rr := ""
	j := i + 1
	for j < len(c) && ign(c[j]) {
		j++
	}
	if j < len(c) {
		rr = c[j]
	}
	ah := func(s string) bool { return s == "ALetter" || s == "Hebrew_Letter" }
	mnlq := func(s string) bool { return s == "MidNumLet" || s == "Single_Quote" }
	switch {
	case ah(l) && ah(r): // WB5
		return false
	case ah(l) && (r == "MidLetter" || mnlq(r)) && ah(rr): // WB6
		return false
	case ah(ll) && (l == "MidLetter" || mnlq(l)) && ah(r): // WB7
		return false
	case l == "Hebrew_Letter" && r == "Single_Quote": // WB7a
		return false
	case l == "Hebrew_Letter" && r == "Double_Quote" && rr == "Hebrew_Letter": // WB7b
		return false
	case ll == "Hebrew_Letter" && l == "Double_Quote" && r == "Hebrew_Letter": // WB7c
		return false
	case l == "Numeric" && r == "Numeric": // WB8
		return false
	case ah(l) && r == "Numeric": // WB9
		return false
	case l == "Numeric" && ah(r): // WB10
		return false
	case ll == "Numeric" && (l == "MidNum" || mnlq(l)) && r == "Numeric": // WB11
		return false
	case l == "Numeric" && (r == "MidNum" || mnlq(r)) && rr == "Numeric": // WB12
		return false
	case l == "Katakana" && r == "Katakana": // WB13
		return false
	case (ah(l) || l == "Numeric" || l == "Katakana" || l == "ExtendNumLet") && r == "ExtendNumLet": // WB13a
		return false
	case l == "ExtendNumLet" && (ah(r) || r == "Numeric" || r == "Katakana"): // WB13b
		return false
	}
	if l == "Regional_Indicator" && r == "Regional_Indicator" { // WB15, WB16
		k := 1
		for q := p; q > 0; {
			q = prev(q - 1)
			if q < 0 || c[q] != "Regional_Indicator" {
				break
			}
			k++
		}
		if k%2 == 1 {
			return false
		}
	}
	return true // WB999
}
