// Package props states goidc's properties as checks over generated cases.
package props

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/lyokato/goidc/log"
	"pgregory.net/rapid"
)

// Result of running one case.
type Result struct {
	Fail       []string // violations of the property
	Known      []string // occurrences of listed known findings
	Classes    []string // classification, for the evidence
	NonTrivial bool
}

func (r *Result) class(c ...string) { r.Classes = append(r.Classes, c...) }

// Prop is one property's check.
type Prop struct {
	ID       string
	Level    string
	Rule     string
	Quick    int // cases
	Thorough int
	Gen      func(t *rapid.T) interface{}
	New      func() interface{}
	Check    func(c interface{}) *Result
	// Extra, if set, runs once (deterministic part); cases counted by it.
	Extra     func(thorough bool, note func(c interface{}, r *Result))
	ExtraLast bool // after the search
	Assume    []string
	Exhaust   bool
}

var Registry = map[string]*Prop{}

func register(p *Prop) { Registry[p.ID] = p }

// Register adds a property from another package.
func Register(p *Prop) { register(p) }

// ---- guarded calls into the code under test

// guard calls f and returns a description of its panic, "" if none.
func guard(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	var keep []string
	lines := strings.Split(s, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "lyokato/goidc") || strings.Contains(lines[i], "golang-jwt") {
			keep = append(keep, strings.TrimSpace(lines[i])+" "+strings.TrimSpace(lines[i+1]))
		}
		if len(keep) >= 6 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// nopLogger accepts everything the library logs, checking only that it can be
// rendered.
type nopLogger struct{}

func (nopLogger) Debug(a ...interface{})            {}
func (nopLogger) Info(a ...interface{})             {}
func (nopLogger) Warn(a ...interface{})             {}
func (nopLogger) Error(a ...interface{})            {}
func (nopLogger) Fatal(a ...interface{})            {}
func (nopLogger) Debugf(f string, a ...interface{}) { fmt.Fprintf(io.Discard, f, a...) }
func (nopLogger) Infof(f string, a ...interface{})  { fmt.Fprintf(io.Discard, f, a...) }
func (nopLogger) Warnf(f string, a ...interface{})  { fmt.Fprintf(io.Discard, f, a...) }
func (nopLogger) Errorf(f string, a ...interface{}) { fmt.Fprintf(io.Discard, f, a...) }
func (nopLogger) Fatalf(f string, a ...interface{}) { fmt.Fprintf(io.Discard, f, a...) }

var _ log.Logger = nopLogger{}

// theLogger is given to every endpoint made.
var theLogger log.Logger = nopLogger{}

// ---- counting

type Stats struct {
	mu       sync.Mutex
	Evals    int
	NonTriv  int
	distinct map[[16]byte]bool
	Classes  map[string]int
	Samples  []json.RawMessage
	Known    map[string]int
	Skipped  int // cases not made for lack of time
}

func NewStats() *Stats {
	return &Stats{distinct: map[[16]byte]bool{}, Classes: map[string]int{}, Known: map[string]int{}}
}

func (s *Stats) Note(c interface{}, r *Result) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evals++
	seen := map[string]bool{}
	for _, k := range r.Classes {
		if !seen[k] {
			s.Classes[k]++
			seen[k] = true
		}
	}
	for _, k := range r.Known {
		s.Known[k]++
	}
	if r.NonTrivial {
		b, err := json.Marshal(c)
		if err != nil {
			b = []byte(fmt.Sprintf("%q", fmt.Sprint(c)))
		}
		h := sha256.Sum256(b)
		var k [16]byte
		copy(k[:], h[:])
		if !s.distinct[k] {
			s.distinct[k] = true
			if len(s.Samples) < 4 || (len(s.Samples) < 6 && s.Evals%997 == 0) {
				if len(b) > 6000 {
					b, _ = json.Marshal(string(b[:6000]) + "…")
				}
				s.Samples = append(s.Samples, b)
			}
		}
	}
}

func (s *Stats) Distinct() int { return len(s.distinct) }

// ---- small helpers

type set map[string]bool

func newSet(v ...string) set {
	s := set{}
	for _, x := range v {
		s[x] = true
	}
	return s
}

func (s set) add(v ...string) {
	for _, x := range v {
		s[x] = true
	}
}

func (s set) list() []string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (s set) String() string { return "{" + strings.Join(s.list(), " ") + "}" }

func words(s string) set { return newSet(strings.Fields(s)...) }

func sameWords(a, b string) bool { return words(a).String() == words(b).String() }

func hasStr(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func q(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q…(%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// muteStdout discards what the code under test prints.
func muteStdout() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}
