package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/npillmayer/uax/bidi/trie"
	"github.com/npillmayer/uax/verif/vh"
	"pgregory.net/rapid"
)

type trieCase struct {
	Size    uint8    `json:"size"`
	Cats    int8     `json:"categories"`
	Words   [][]byte `json:"words"`
	Queries [][]byte `json:"queries"`
	Again   []int    `json:"again"` // words inserted a second time
}

// tries to insert a word; false if the trie is full (it panics then).
func tryInsert(tr *trie.TinyHashTrie, w []byte) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, is := r.(string); is && strings.Contains(s, "abort find") {
				ok = false
				return
			}
			panic(r)
		}
	}()
	tr.AllocPositionForWord(w)
	return true
}

var triePrimes = []uint8{61, 67, 71, 79, 83, 97, 101, 113, 127, 139, 151, 167, 181, 193, 199, 211, 223, 227, 229, 233, 239, 241, 251}

// P22: a frozen trie contains exactly the prefixes of the words inserted.
func TestTrie(t *testing.T) {
	vh.Sub[trieCase]{
		Prop: "P22", Quick: 1600000, Thorough: 20000000,
		Rule: "up to 40 words of up to 8 categories (a third of the cases: up to 60), with shared prefixes, inserted in any order and repeatedly into a trie of some prime size, then frozen; every prefix of a word must have a position of its own, other words none, and iterators must agree with look up; words which do not fit end the insertion, but a fifth of the table must be usable; non-trivial: at least 5 different prefixes and a query for a word not contained",
		Gen: func(t *rapid.T) trieCase {
			c := trieCase{Size: rapid.SampledFrom(triePrimes).Draw(t, "size")}
			c.Cats = int8(rapid.IntRange(2, min(50, int(c.Size)/5)).Draw(t, "cats"))
			g := rapid.IntRange(0, int(c.Cats)-1)
			if rapid.Bool().Draw(t, "few") {
				g = rapid.SampledFrom(rapid.SliceOfN(g, 1, 5).Draw(t, "palette"))
			}
			longest := rapid.SampledFrom([]int{8, 8, 8, 8, 24, 60}).Draw(t, "longest")
			word := func(t *rapid.T, pool [][]byte) []byte {
				var w []byte
				if len(pool) > 0 && rapid.Bool().Draw(t, "prefix") {
					p := rapid.SampledFrom(pool).Draw(t, "of")
					w = append(w, p[:rapid.IntRange(0, len(p)).Draw(t, "upto")]...)
				}
				for _, x := range rapid.SliceOfN(g, 0, longest/2).Draw(t, "rest") {
					w = append(w, byte(x))
				}
				if len(w) == 0 {
					w = []byte{byte(g.Draw(t, "letter"))}
				}
				if len(w) > longest {
					w = w[:longest]
				}
				return w
			}
			for n := rapid.IntRange(1, 40).Draw(t, "words"); n > 0; n-- {
				c.Words = append(c.Words, word(t, c.Words))
			}
			for n := rapid.IntRange(0, 10).Draw(t, "queries"); n > 0; n-- {
				c.Queries = append(c.Queries, word(t, c.Words))
			}
			c.Again = rapid.SliceOfN(rapid.IntRange(0, len(c.Words)-1), 0, 5).Draw(t, "again")
			return c
		},
		Check: func(c trieCase) (vh.Obs, error) {
			var o vh.Obs
			tr, err := trie.NewTinyHashTrie(c.Size, c.Cats)
			if err != nil {
				return o, err
			}
			if tr, err := trie.NewTinyHashTrie(c.Size, 50+c.Cats/2); tr != nil || err == nil {
				return o, fmt.Errorf("a trie of %d categories is accepted", 50+c.Cats/2)
			}
			prefixes := map[string]bool{}
			n := 0 // words inserted
			inner := map[string]bool{}
			for _, w := range c.Words {
				if !tryInsert(tr, w) {
					break
				}
				for i := 1; i <= len(w); i++ {
					prefixes[string(w[:i])] = true
					if i > 1 {
						inner[string(w[:i])] = true
					}
				}
				n++
			}
			if n < len(c.Words) { // what the table did not have room for
				for i := 2; i <= len(c.Words[n]); i++ {
					inner[string(c.Words[n][:i])] = true
				}
			}
			if n < len(c.Words) && len(inner) < (int(c.Size)-2*int(c.Cats))/10 {
				return o, fmt.Errorf("trie of size %d claims to be full with %d words", c.Size, n)
			}
			if n < len(c.Words) { // a trie which overflowed may contain a part of the word
				o.Labels = append(o.Labels, "full")
				tr, _ = trie.NewTinyHashTrie(c.Size, c.Cats)
				for _, w := range c.Words[:n] {
					tr.AllocPositionForWord(w)
				}
			} else {
				before := map[int]int{}
				for _, i := range c.Again {
					p := tr.AllocPositionForWord(c.Words[i])
					if p == 0 {
						return o, fmt.Errorf("no position for word %v", c.Words[i])
					}
					if q, ok := before[i]; ok && p != q {
						return o, fmt.Errorf("word %v moved from %d to %d without an insertion", c.Words[i], q, p)
					}
					before[i] = p
				}
			}
			tr.Freeze()
			seen := map[int]string{}
			for p := range prefixes {
				pos := tr.AllocPositionForWord([]byte(p))
				if pos <= 0 || pos >= int(c.Size) {
					return o, fmt.Errorf("prefix %v of a word has position %d", []byte(p), pos)
				}
				if q, ok := seen[pos]; ok {
					return o, fmt.Errorf("%v and %v have the same position %d", []byte(p), []byte(q), pos)
				}
				seen[pos] = p
			}
			absent := false
			all := append(append([][]byte{}, c.Words...), c.Queries...)
			for _, w := range all {
				it := tr.Iterator()
				dead := false
				for i := 1; i <= len(w); i++ {
					in := prefixes[string(w[:i])] || i == 1
					pos := it.Next(int8(w[i-1]))
					look := tr.AllocPositionForWord(w[:i])
					if !in {
						absent, dead = true, true
						if look != 0 {
							return o, fmt.Errorf("%v is not in the trie but has position %d", w[:i], look)
						}
					} else if look == 0 {
						return o, fmt.Errorf("%v is in the trie but has no position", w[:i])
					}
					if dead && pos != 0 || !dead && pos != look {
						return o, fmt.Errorf("iterator is at %d after %v, look up says %d", pos, w[:i], look)
					}
				}
			}
			o.NonTrivial = len(prefixes) >= 5 && absent
			o.Label(len(prefixes) > 40, "more than 40 prefixes")
			return o, nil
		},
	}.Run(t)
}
