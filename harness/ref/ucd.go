// Package ref holds reference models: obviously-correct, slow implementations
// of the Unicode algorithms, written from the text of the annexes, and the
// Unicode character data they need (UCD 15.0 as shipped with Perl, dumped by
// dump.pl), independent of the tables and of the code in the repository.
package ref

import (
	"bufio"
	"embed"
	"fmt"
	"strconv"
	"strings"
	"sync"
)

//go:embed data/*.txt
var files embed.FS

// Prop maps each code point to a property value.
type Prop struct {
	names []string
	idx   []uint8
}

var (
	mx     sync.Mutex
	loaded = map[string]*Prop{}
)

// Load reads a property table.
func Load(name string) *Prop {
	mx.Lock()
	defer mx.Unlock()
	if p, ok := loaded[name]; ok {
		return p
	}
	f, err := files.Open("data/" + name + ".txt")
	if err != nil {
		panic(err)
	}
	p := &Prop{names: []string{""}, idx: make([]uint8, 0x110000)}
	m := map[string]uint8{"": 0}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		fl := strings.Fields(sc.Text())
		if len(fl) != 3 {
			panic(fmt.Sprintf("bad line %q in %s", sc.Text(), name))
		}
		a, _ := strconv.ParseInt(fl[0], 16, 32)
		b, _ := strconv.ParseInt(fl[1], 16, 32)
		i, ok := m[fl[2]]
		if !ok {
			i = uint8(len(p.names))
			p.names = append(p.names, fl[2])
			m[fl[2]] = i
		}
		for c := a; c <= b && c < 0x110000; c++ {
			p.idx[c] = i
		}
	}
	loaded[name] = p
	return p
}

// Of returns the property value of r.
func (p *Prop) Of(r rune) string {
	if r < 0 || r >= 0x110000 {
		return ""
	}
	return p.names[p.idx[r]]
}

var ages = sync.OnceValue(func() []uint8 {
	p := Load("Age")
	val := make([]uint8, len(p.names))
	for i, v := range p.names {
		if v == "" || v == "Unassigned" {
			continue
		}
		f := strings.FieldsFunc(strings.TrimPrefix(v, "V"), func(c rune) bool { return c == '.' || c == '_' })
		a, _ := strconv.Atoi(f[0])
		b := 0
		if len(f) > 1 {
			b, _ = strconv.Atoi(f[1])
		}
		val[i] = uint8(a*10 + b)
	}
	return val
})

// Age returns the Unicode version (major*10+minor) which introduced r,
// 0 for unassigned code points.
func Age(r rune) int {
	if r < 0 || r > 0x10FFFF {
		return 0
	}
	return int(ages()[Load("Age").idx[r]])
}
