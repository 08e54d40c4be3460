// Package vh is the engine shared by all property checks: it drives a
// generator (pgregory.net/rapid) against an oracle, counts and classifies what
// was generated, writes the shrunk counterexample as a replay file, and turns
// hangs and crashes into replayable failures.
//
// All settings come from the environment (set by /verif/check.py):
//
//	VERIF_OUT     directory for statistics and failing cases
//	VERIF_TIER    quick | thorough
//	VERIF_SHARD   index of this process, VERIF_SHARDS number of processes
//	VERIF_REPLAY  file with one case; only that case is run
//	VERIF_BUDGET  seconds after which no further cases are generated
//	VERIF_STRICT  set when a known finding is replayed
//	VERIF_FACTOR  percentage applied to the case counts (default 100)
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs describes one evaluated case.
type Obs struct {
	NonTrivial bool
	Labels     []string
	// Skip: the case lies outside the property's domain (counted separately).
	Skip bool
}

// Label adds a class label to the observation.
func (o *Obs) Label(ok bool, l string) {
	if ok {
		o.Labels = append(o.Labels, l)
	}
}

// Sub is one executable check (a property may have several).
type Sub[C any] struct {
	Prop     string // property ID
	Rule     string // what a case is, and what makes one non-trivial
	Quick    int    // number of cases in the quick tier (all shards together)
	Thorough int    // ditto, thorough tier
	Fixed    []C    // cases that are always run first (shard 0 only)
	Gen      func(*rapid.T) C
	Check    func(C) (Obs, error)
}

type record struct {
	Prop  string          `json:"property"`
	Test  string          `json:"test"`
	Error string          `json:"error"`
	Case  json.RawMessage `json:"case"`
}

type stats struct {
	Prop    string         `json:"property"`
	Test    string         `json:"test"`
	Rule    string         `json:"rule"`
	Evals   int            `json:"evaluations"`
	Skipped int            `json:"skipped"`
	Classes map[string]int `json:"classes"`
	Samples []string       `json:"samples"`
	Hashes  []uint64       `json:"hashes"`
	Cut     bool           `json:"cut_short"`
}

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Strict tells that a known finding is replayed: the oracle drops its
// allowances for behaviour which is listed as known to be wrong.
func Strict() bool { return os.Getenv("VERIF_STRICT") != "" }

// Shard returns index and number of shards.
func Shard() (int, int) { return envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1) }

// maxHashes bounds the number of distinct non-trivial cases a process keeps
// track of; beyond it the reported number is a lower bound.
const maxHashes = 400000

const hangTicks = 90 // a case is declared hung after that many 1 s ticks of the watchdog

type running struct {
	js []byte
}

var (
	current  atomic.Pointer[running]
	dogOnce  sync.Once
	curFile  *os.File
	curMutex sync.Mutex
)

func outDir() string { return os.Getenv("VERIF_OUT") }

func failFile(test string) string {
	s, _ := Shard()
	return filepath.Join(outDir(), fmt.Sprintf("fail.%s.%d.json", test, s))
}

func writeFailure(prop, test string, js []byte, msg string) {
	if outDir() == "" {
		return
	}
	b, _ := json.MarshalIndent(record{Prop: prop, Test: test, Error: msg, Case: js}, "", " ")
	tmp := failFile(test) + ".tmp"
	if os.WriteFile(tmp, b, 0o644) == nil {
		os.Rename(tmp, failFile(test))
	}
}

// watchdog: ticks are counted, not wall-clock time, so that a suspended
// sandbox does not look like a hang.
func watchdog(prop, test string) {
	go func() {
		var last *running
		ticks := 0
		for {
			time.Sleep(time.Second)
			c := current.Load()
			if c == nil || c != last {
				last, ticks = c, 0
				continue
			}
			if ticks++; ticks >= hangTicks {
				msg := fmt.Sprintf("case did not terminate (%d s; such cases take milliseconds)", ticks)
				writeFailure(prop, test, c.js, msg)
				fmt.Printf("HANG %s: %s\n%s\n", test, msg, c.js)
				os.Exit(3)
			}
		}
	}()
}

// noteCurrent stores the case about to run, such that a crash of the whole
// process (panic in another goroutine, fatal runtime error) is replayable.
func noteCurrent(prop, test string, js []byte) {
	current.Store(&running{js: js})
	if outDir() == "" {
		return
	}
	if curFile == nil {
		s, _ := Shard()
		curFile, _ = os.Create(filepath.Join(outDir(), fmt.Sprintf("current.%d.json", s)))
	}
	if curFile != nil {
		b := make([]byte, 0, len(js)+100)
		b = append(b, fmt.Sprintf(`{"property":%q,"test":%q,"error":"process crashed","case":`, prop, test)...)
		b = append(b, js...)
		b = append(b, "}\n"...)
		curFile.Truncate(int64(len(b)))
		curFile.WriteAt(b, 0)
	}
}

// Guard runs f and converts a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return f()
}

func (s Sub[C]) runOne(test string, c C) (Obs, []byte, error) {
	js, err := json.Marshal(c)
	if err != nil {
		panic("case not serialisable: " + err.Error())
	}
	noteCurrent(s.Prop, test, js)
	var obs Obs
	err = Guard(func() error {
		var e error
		obs, e = s.Check(c)
		return e
	})
	current.Store(nil)
	if err != nil {
		writeFailure(s.Prop, test, js, err.Error())
	}
	return obs, js, err
}

// Run executes the check.
func (s Sub[C]) Run(t *testing.T) {
	test := t.Name()
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		var r record
		if err := json.Unmarshal(b, &r); err != nil {
			t.Fatal(err)
		}
		if r.Test != test {
			t.Skip("replay file belongs to " + r.Test)
		}
		dogOnce.Do(func() { watchdog(s.Prop, test) })
		var c C
		if err := json.Unmarshal(r.Case, &c); err != nil {
			t.Fatal(err)
		}
		if _, _, err := s.runOne(test, c); err != nil {
			t.Fatalf("case %s\n%v", r.Case, err)
		}
		fmt.Printf("REPLAY-OK %s\n", test)
		return
	}
	dogOnce.Do(func() { watchdog(s.Prop, test) })
	shard, shards := Shard()
	st := &stats{Prop: s.Prop, Test: test, Rule: s.Rule, Classes: map[string]int{}}
	seen := map[uint64]bool{}
	defer func() {
		if outDir() == "" {
			t.Logf("%d evaluations, %d distinct non-trivial, skipped %d, classes %v", st.Evals, len(seen), st.Skipped, st.Classes)
			return
		}
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
		b, _ := json.Marshal(st)
		os.WriteFile(filepath.Join(outDir(), fmt.Sprintf("stats.%s.%d.json", test, shard)), b, 0o644)
	}()
	failed := false
	eval := func(c C) error {
		obs, js, err := s.runOne(test, c)
		if failed || err != nil { // do not count shrinking
			failed = failed || err != nil
			return err
		}
		if obs.Skip {
			st.Skipped++
			return nil
		}
		st.Evals++
		for _, l := range obs.Labels {
			st.Classes[l]++
		}
		if obs.NonTrivial {
			h := fnv.New64a()
			h.Write(js)
			if !seen[h.Sum64()] && len(seen) < maxHashes {
				seen[h.Sum64()] = true
				n := len(seen)
				if n&(n-1) == 0 && len(st.Samples) < 12 && len(js) < 2000 {
					st.Samples = append(st.Samples, string(js))
				}
			}
		}
		return nil
	}
	if shard == 0 {
		for _, c := range s.Fixed {
			if err := eval(c); err != nil {
				t.Fatalf("fixed case fails: %v", err)
			}
		}
	}
	if s.Gen == nil {
		return
	}
	n := s.Quick
	if Thorough() {
		n = s.Thorough
	}
	n = n * envInt("VERIF_FACTOR", 100) / 100
	n = (n + shards - 1) / shards
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	budget := time.Duration(envInt("VERIF_BUDGET", 0)) * time.Second
	start := time.Now()
	rapid.Check(t, func(rt *rapid.T) {
		if budget > 0 && !failed && time.Since(start) > budget {
			st.Cut = true
			return
		}
		c := s.Gen(rt)
		if err := eval(c); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}
