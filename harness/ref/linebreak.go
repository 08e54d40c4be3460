package ref

// Line breaking by UAX#14 (Unicode 10, the version of the test file in the
// repository).  Number expressions are kept together as described in section
// 8.2 of the annex, which the test file does as well.

// Kinds of break.
const (
	NoBreak  = 0
	MayBreak = 1
	MustBrk  = 2
)

// LB returns the Line_Break property of a code point as it is in the data
// file.
func LB(r rune) string {
	switch v := Load("Lb").Of(r); v {
	case "":
		return "XX"
	default:
		return v
	}
}

// LineClass resolves a class as LB1 does; comb tells that the code point has
// General_Category Mn or Mc.
func LineClass(c string, comb bool) string {
	switch c {
	case "AI", "SG", "XX":
		return "AL"
	case "SA":
		if comb {
			return "CM"
		}
		return "AL"
	case "CJ":
		return "NS"
	}
	return c
}

func anyOf(c string, list ...string) bool {
	for _, x := range list {
		if c == x {
			return true
		}
	}
	return false
}

// LineBreaks returns the kind of break after each of the (resolved) classes.
func LineBreaks(cl []string) []int {
	n := len(cl)
	res := make([]int, n)
	if n == 0 {
		return res
	}
	res[n-1] = MustBrk // LB3
	// LB9, LB10: eff[i] is the class of the sequence a code point belongs to, base[i] tells that it starts one
	eff := make([]string, n)
	base := make([]bool, n)
	for i, c := range cl {
		eff[i], base[i] = c, true
		if c == "CM" || c == "ZWJ" {
			if i > 0 && !anyOf(eff[i-1], "BK", "CR", "LF", "NL", "SP", "ZW") {
				eff[i], base[i] = eff[i-1], false
			} else {
				eff[i] = "AL"
			}
		}
	}
	var seq []int // starts of sequences
	for i := range cl {
		if base[i] {
			seq = append(seq, i)
		}
	}
	at := func(k int) string { // class of sequence k
		if k < 0 || k >= len(seq) {
			return ""
		}
		return eff[seq[k]]
	}
	number := numbers(len(seq), at)
	k := -1
	for i := 0; i < n-1; i++ {
		if base[i] {
			k++
		}
		if !base[i+1] {
			res[i] = NoBreak // LB9
			continue
		}
		res[i] = lineBreak(cl[i], cl[i+1], k, at, number)
	}
	return res
}

// numbers tells for each sequence whether there is no break before it within
// a number (LB25).
func numbers(n int, at func(int) string) []bool {
	no := make([]bool, n+1)
	for i := 0; i < n; i++ {
		k := i
		if anyOf(at(k), "PR", "PO") {
			k++
		}
		if anyOf(at(k), "OP", "HY") {
			k++
		}
		if at(k) != "NU" {
			continue
		}
		for k++; anyOf(at(k), "NU", "SY", "IS"); k++ {
		}
		if anyOf(at(k), "CL", "CP") {
			k++
		}
		if anyOf(at(k), "PR", "PO") {
			k++
		}
		for j := i + 1; j < k; j++ {
			no[j] = true
		}
	}
	return no
}

// lineBreak decides about the break between sequence k and the next one; last
// and next are the code points' own classes.
func lineBreak(last, next string, k int, at func(int) string, number []bool) int {
	a, b := at(k), at(k+1)
	spaces := k // the last sequence which is not a space
	for spaces >= 0 && at(spaces) == "SP" {
		spaces--
	}
	s := at(spaces)
	switch {
	case a == "BK": // LB4
		return MustBrk
	case a == "CR" && b == "LF": // LB5
		return NoBreak
	case anyOf(a, "CR", "LF", "NL"):
		return MustBrk
	case anyOf(b, "BK", "CR", "LF", "NL"): // LB6
		return NoBreak
	case anyOf(b, "SP", "ZW"): // LB7
		return NoBreak
	case s == "ZW": // LB8
		return MayBreak
	case last == "ZWJ" && anyOf(next, "ID", "EB", "EM"): // LB8a
		return NoBreak
	case a == "WJ" || b == "WJ": // LB11
		return NoBreak
	case a == "GL": // LB12
		return NoBreak
	case b == "GL" && !anyOf(a, "SP", "BA", "HY"): // LB12a
		return NoBreak
	case anyOf(b, "CL", "CP", "IS", "SY") && a != "NU", b == "EX": // LB13
		return NoBreak
	case s == "OP": // LB14
		return NoBreak
	case s == "QU" && b == "OP": // LB15
		return NoBreak
	case anyOf(s, "CL", "CP") && b == "NS": // LB16
		return NoBreak
	case s == "B2" && b == "B2": // LB17
		return NoBreak
	case a == "SP": // LB18
		return MayBreak
	case a == "QU" || b == "QU": // LB19
		return NoBreak
	case a == "CB" || b == "CB": // LB20
		return MayBreak
	case anyOf(b, "BA", "HY", "NS") || a == "BB": // LB21
		return NoBreak
	case at(k-1) == "HL" && anyOf(a, "HY", "BA"): // LB21a
		return NoBreak
	case a == "SY" && b == "HL": // LB21b
		return NoBreak
	case b == "IN" && anyOf(a, "AL", "HL", "EX", "ID", "EB", "EM", "IN", "NU"): // LB22
		return NoBreak
	case anyOf(a, "AL", "HL") && b == "NU" || a == "NU" && anyOf(b, "AL", "HL"): // LB23
		return NoBreak
	case a == "PR" && anyOf(b, "ID", "EB", "EM") || anyOf(a, "ID", "EB", "EM") && b == "PO": // LB23a
		return NoBreak
	case anyOf(a, "PR", "PO") && anyOf(b, "AL", "HL") || anyOf(a, "AL", "HL") && anyOf(b, "PR", "PO"): // LB24
		return NoBreak
	case number[k+1]: // LB25
		return NoBreak
	case a == "JL" && anyOf(b, "JL", "JV", "H2", "H3"), anyOf(a, "JV", "H2") && anyOf(b, "JV", "JT"), anyOf(a, "JT", "H3") && b == "JT": // LB26
		return NoBreak
	case anyOf(a, "JL", "JV", "JT", "H2", "H3") && anyOf(b, "IN", "PO"), a == "PR" && anyOf(b, "JL", "JV", "JT", "H2", "H3"): // LB27
		return NoBreak
	case anyOf(a, "AL", "HL") && anyOf(b, "AL", "HL"): // LB28
		return NoBreak
	case a == "IS" && anyOf(b, "AL", "HL"): // LB29
		return NoBreak
	case anyOf(a, "AL", "HL", "NU") && b == "OP", a == "CP" && anyOf(b, "AL", "HL", "NU"): // LB30
		return NoBreak
	case a == "RI" && b == "RI": // LB30a
		n := 0
		for ; at(k-n) == "RI"; n++ {
		}
		if n%2 == 1 {
			return NoBreak
		}
		return MayBreak
	case a == "EB" && b == "EM": // LB30b
		return NoBreak
	}
	return MayBreak // LB31
}
