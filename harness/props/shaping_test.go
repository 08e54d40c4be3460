package props

import (
	"fmt"
	"sort"
	"sync"
	"testing"
	"unicode"

	"github.com/npillmayer/uax/shaping"
	"github.com/npillmayer/uax/verif/ref"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

// all exported tables of package shaping
func shapingTables() map[string]*unicode.RangeTable {
	return map[string]*unicode.RangeTable{
		"ARAB_C":                           shaping.ARAB_C,
		"ARAB_D":                           shaping.ARAB_D,
		"ARAB_L":                           shaping.ARAB_L,
		"ARAB_R":                           shaping.ARAB_R,
		"ARAB_T":                           shaping.ARAB_T,
		"ARAB_U":                           shaping.ARAB_U,
		"UIPC_Bottom":                      shaping.UIPC_Bottom,
		"UIPC_Bottom_And_Left":             shaping.UIPC_Bottom_And_Left,
		"UIPC_Bottom_And_Right":            shaping.UIPC_Bottom_And_Right,
		"UIPC_Left":                        shaping.UIPC_Left,
		"UIPC_Left_And_Right":              shaping.UIPC_Left_And_Right,
		"UIPC_Overstruck":                  shaping.UIPC_Overstruck,
		"UIPC_Right":                       shaping.UIPC_Right,
		"UIPC_Top":                         shaping.UIPC_Top,
		"UIPC_Top_And_Bottom":              shaping.UIPC_Top_And_Bottom,
		"UIPC_Top_And_Bottom_And_Left":     shaping.UIPC_Top_And_Bottom_And_Left,
		"UIPC_Top_And_Bottom_And_Right":    shaping.UIPC_Top_And_Bottom_And_Right,
		"UIPC_Top_And_Left":                shaping.UIPC_Top_And_Left,
		"UIPC_Top_And_Left_And_Right":      shaping.UIPC_Top_And_Left_And_Right,
		"UIPC_Top_And_Right":               shaping.UIPC_Top_And_Right,
		"UIPC_Visual_Order_Left":           shaping.UIPC_Visual_Order_Left,
		"UISC_Avagraha":                    shaping.UISC_Avagraha,
		"UISC_Bindu":                       shaping.UISC_Bindu,
		"UISC_Brahmi_Joining_Number":       shaping.UISC_Brahmi_Joining_Number,
		"UISC_Cantillation_Mark":           shaping.UISC_Cantillation_Mark,
		"UISC_Consonant":                   shaping.UISC_Consonant,
		"UISC_Consonant_Dead":              shaping.UISC_Consonant_Dead,
		"UISC_Consonant_Final":             shaping.UISC_Consonant_Final,
		"UISC_Consonant_Head_Letter":       shaping.UISC_Consonant_Head_Letter,
		"UISC_Consonant_Initial_Postfixed": shaping.UISC_Consonant_Initial_Postfixed,
		"UISC_Consonant_Killer":            shaping.UISC_Consonant_Killer,
		"UISC_Consonant_Medial":            shaping.UISC_Consonant_Medial,
		"UISC_Consonant_Placeholder":       shaping.UISC_Consonant_Placeholder,
		"UISC_Consonant_Preceding_Repha":   shaping.UISC_Consonant_Preceding_Repha,
		"UISC_Consonant_Prefixed":          shaping.UISC_Consonant_Prefixed,
		"UISC_Consonant_Subjoined":         shaping.UISC_Consonant_Subjoined,
		"UISC_Consonant_Succeeding_Repha":  shaping.UISC_Consonant_Succeeding_Repha,
		"UISC_Consonant_With_Stacker":      shaping.UISC_Consonant_With_Stacker,
		"UISC_Gemination_Mark":             shaping.UISC_Gemination_Mark,
		"UISC_Invisible_Stacker":           shaping.UISC_Invisible_Stacker,
		"UISC_Joiner":                      shaping.UISC_Joiner,
		"UISC_Modifying_Letter":            shaping.UISC_Modifying_Letter,
		"UISC_Non_Joiner":                  shaping.UISC_Non_Joiner,
		"UISC_Nukta":                       shaping.UISC_Nukta,
		"UISC_Number":                      shaping.UISC_Number,
		"UISC_Number_Joiner":               shaping.UISC_Number_Joiner,
		"UISC_Pure_Killer":                 shaping.UISC_Pure_Killer,
		"UISC_Register_Shifter":            shaping.UISC_Register_Shifter,
		"UISC_Syllable_Modifier":           shaping.UISC_Syllable_Modifier,
		"UISC_Tone_Letter":                 shaping.UISC_Tone_Letter,
		"UISC_Tone_Mark":                   shaping.UISC_Tone_Mark,
		"UISC_Virama":                      shaping.UISC_Virama,
		"UISC_Visarga":                     shaping.UISC_Visarga,
		"UISC_Vowel":                       shaping.UISC_Vowel,
		"UISC_Vowel_Dependent":             shaping.UISC_Vowel_Dependent,
		"UISC_Vowel_Independent":           shaping.UISC_Vowel_Independent,
	}
}

var shapingNames = func() (n []string) {
	for k := range shapingTables() {
		n = append(n, k)
	}
	sort.Strings(n)
	return
}()

// values of Unicode 13 which differ from those of the reference data (15)
var shaping13 = map[string]map[rune]string{
	"UIPC": {0x1734: "Bottom", 0x953: "Top", 0x954: "Top", 0xA926: "NA", 0xA927: "NA", 0xA928: "NA", 0xA929: "NA", 0xA92A: "NA"},
	"UISC": {0xAFB: "Cantillation_Mark", 0x1B03: "Consonant_Succeeding_Repha", 0x1B81: "Consonant_Succeeding_Repha", 0xA982: "Consonant_Succeeding_Repha"},
}

// characters listed as non-joining or transparent in ArabicShaping.txt, where
// these are the defaults for all other characters, too
var arabListed = map[string][][2]rune{
	"ARAB_T": {{0x70F, 0x70F}, {0x1885, 0x1886}, {0x1E94B, 0x1E94B}},
	"ARAB_U": {{0x600, 0x605}, {0x608, 0x608}, {0x60B, 0x60B}, {0x621, 0x621}, {0x674, 0x674}, {0x6DD, 0x6DD},
		{0x861, 0x861}, {0x866, 0x866}, {0x8AD, 0x8AD}, {0x8E2, 0x8E2}, {0x1806, 0x1806}, {0x180E, 0x180E},
		{0x1880, 0x1884}, {0x200C, 0x200C}, {0x202F, 0x202F}, {0x2066, 0x2069}, {0xA873, 0xA873},
		{0x10AC6, 0x10AC6}, {0x10AC8, 0x10AC8}, {0x10ACB, 0x10ACC}, {0x10AE2, 0x10AE3}, {0x10BAF, 0x10BAF},
		{0x10F45, 0x10F45}, {0x10FB1, 0x10FB1}, {0x10FB7, 0x10FB7}, {0x10FC0, 0x10FC0}, {0x10FC5, 0x10FC8},
		{0x110BD, 0x110BD}, {0x110CD, 0x110CD}},
}

func refShaping(name string, r rune) bool {
	if l, ok := arabListed[name]; ok {
		for _, x := range l {
			if x[0] <= r && r <= x[1] {
				return true
			}
		}
		return false
	}
	if a := ref.Age(r); a == 0 || a > 130 {
		return false
	}
	if v, ok := shaping13[name[:4]][r]; ok {
		return v == name[5:]
	}
	p := map[string]string{"ARAB": "Jt", "UIPC": "InPC", "UISC": "InSC"}[name[:4]]
	return ref.Load(p).Of(r) == name[5:]
}

var shapingMembers = sync.OnceValue(func() map[string][]rune {
	m := map[string][]rune{}
	for r := rune(0); r < 0x20000; r++ {
		for _, n := range shapingNames {
			if refShaping(n, r) {
				m[n] = append(m[n], r)
			}
		}
	}
	return m
})

type shapingCase struct {
	Table string `json:"table"`
	From  rune   `json:"from"`
	To    rune   `json:"to"`
}

func TestShapingTables(t *testing.T) {
	vh.Sub[shapingCase]{
		Prop: "P27", Quick: 20000, Thorough: 100000,
		Rule: "a table of package shaping and a range of code points, each looked up and compared to the Unicode 13 property value; all tables are compared for all code points first; non-trivial: the range has members and non-members",
		Fixed: func() (f []shapingCase) {
			for _, n := range shapingNames {
				f = append(f, shapingCase{n, 0, 0x10FFFF})
			}
			return
		}(),
		Gen: func(t *rapid.T) shapingCase {
			n := rapid.SampledFrom(shapingNames).Draw(t, "table")
			from := rapid.Int32Range(0, 0x10FF00).Draw(t, "from")
			if rapid.IntRange(0, 3).Draw(t, "near") > 0 { // around a member
				from = max(0, rapid.SampledFrom(shapingMembers()[n]).Draw(t, "member")-rapid.Int32Range(0, 20).Draw(t, "before"))
			}
			return shapingCase{n, from, min(0x10FFFE, from+rapid.Int32Range(0, 100).Draw(t, "n"))}
		},
		Check: func(c shapingCase) (vh.Obs, error) {
			var o vh.Obs
			tab := shapingTables()[c.Table]
			in, out := 0, 0
			for r := c.From; r <= c.To; r++ {
				want := refShaping(c.Table, r)
				if unicode.Is(tab, r) != want {
					return o, fmt.Errorf("%U in shaping.%s: %v, want %v", r, c.Table, !want, want)
				}
				if want {
					in++
				} else {
					out++
				}
			}
			o.NonTrivial = in > 0 && out > 0
			if c.From == 0 && c.To == 0x10FFFF { // form of the table, which fast lookups rely on
				lat := 0
				for i, x := range tab.R16 {
					if x.Hi <= unicode.MaxLatin1 {
						lat++
					}
					if x.Lo > x.Hi || x.Stride != 1 || i > 0 && x.Lo <= tab.R16[i-1].Hi {
						return o, fmt.Errorf("shaping.%s: malformed range %v", c.Table, x)
					}
				}
				for i, x := range tab.R32 {
					if x.Lo > x.Hi || x.Stride != 1 || i > 0 && x.Lo <= tab.R32[i-1].Hi {
						return o, fmt.Errorf("shaping.%s: malformed range %v", c.Table, x)
					}
				}
				if tab.LatinOffset > lat {
					return o, fmt.Errorf("shaping.%s: LatinOffset is %d for %d ranges of Latin-1", c.Table, tab.LatinOffset, lat)
				}
			}
			return o, nil
		},
	}.Run(t)
}
