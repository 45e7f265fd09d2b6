package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type status struct {
	Status string // ok, violation, error
	Replay string
	Fail   []string
	Known  []string
}

// RunProp decides the property named by VERIF_PROP.
func RunProp(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	p := Registry[id]
	if p == nil {
		t.Skip("VERIF_PROP names no property")
	}
	start := time.Now()
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	tier := "quick"
	checks := p.Quick
	if thorough {
		tier = "thorough"
		checks = p.Thorough
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_CHECKS")); err == nil && n > 0 {
		checks = n
	}
	replayDir := os.Getenv("VERIF_REPLAYS")
	stats := NewStats()
	st := &status{Status: "error"}
	out := os.Getenv("VERIF_STATUS")
	save := func() {
		b, _ := json.MarshalIndent(st, "", " ")
		if err := os.WriteFile(out, b, 0o644); err != nil {
			t.Fatal(err)
		}
	}
	save()

	writeReplay := func(c interface{}, fail []string) string {
		os.MkdirAll(replayDir, 0o755)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "failures": fail, "case": c}, "", " ")
		f := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", id, os.Getpid()))
		os.WriteFile(f, b, 0o644)
		return f
	}
	finish := func(s string, replay string, fail []string) {
		st.Status, st.Replay, st.Fail = s, replay, fail
		for k, n := range stats.Known {
			st.Known = append(st.Known, fmt.Sprintf("%s (%d times)", k, n))
		}
		sort.Strings(st.Known)
		save()
	}

	// a single replay
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		c, err := loadCase(p, f)
		if err != nil {
			t.Fatal(err)
		}
		r := p.Check(c)
		stats.Note(c, r)
		if len(r.Fail) > 0 {
			finish("violation", f, r.Fail)
		} else {
			finish("ok", "", nil)
		}
		return
	}

	var lastFail []string
	var lastCase interface{}
	fail := func(c interface{}, f []string) {
		lastCase, lastFail = c, f
	}

	// saved inputs first
	first := os.Getenv("VERIF_SHARD") == "" || os.Getenv("VERIF_SHARD") == "0"
	corpus, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_CORPUS"), id, "*.json"))
	sort.Strings(corpus)
	if !first {
		corpus = nil
	}
	for _, f := range corpus {
		c, err := loadCase(p, f)
		if err != nil {
			t.Fatal(err)
		}
		r := p.Check(c)
		stats.Note(c, r)
		if len(r.Fail) > 0 {
			fail(c, r.Fail)
			break
		}
	}
	extra := func() {
		if first && lastFail == nil && p.Extra != nil {
			p.Extra(thorough, func(c interface{}, r *Result) {
				stats.Note(c, r)
				if len(r.Fail) > 0 && lastFail == nil {
					fail(c, r.Fail)
				}
			})
		}
	}
	if !p.ExtraLast {
		extra()
	}
	searched := true
	// The time allowed for the search, for slow machines and deep runs: cases
	// beyond it are not made. What was explored is in the evidence.
	var deadline time.Time
	if n, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil && n > 0 {
		deadline = start.Add(time.Duration(n * float64(time.Second)))
	}
	if lastFail == nil && p.Gen != nil {
		flag.Set("rapid.checks", fmt.Sprint(checks))
		ok := t.Run("search", func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				if lastFail == nil && !deadline.IsZero() && time.Now().After(deadline) {
					stats.Skipped++
					return
				}
				c := p.Gen(rt)
				r := p.Check(c)
				stats.Note(c, r)
				if len(r.Fail) > 0 {
					fail(c, r.Fail)
					rt.Fatalf("%s", r.Fail[0])
				}
			})
		})
		searched = ok || lastFail != nil
	}
	if p.ExtraLast {
		extra()
	}
	nv := 0
	if lastFail != nil {
		nv = 1
	}
	writeEvidence(p, tier, stats, time.Since(start).Seconds(), nv)
	switch {
	case lastFail != nil:
		finish("violation", writeReplay(lastCase, lastFail), lastFail)
	case !searched:
		finish("error", "", []string{"the search itself failed"})
	default:
		finish("ok", "", nil)
	}
}

func loadCase(p *Prop, f string) (interface{}, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	var x struct{ Case json.RawMessage }
	if err := json.Unmarshal(b, &x); err != nil {
		return nil, err
	}
	c := p.New()
	return c, json.Unmarshal(x.Case, c)
}

func writeEvidence(p *Prop, tier string, s *Stats, wall float64, violations int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := make([]interface{}, 0)
	for _, x := range s.Samples {
		samples = append(samples, x)
	}
	cov := map[string]interface{}{
		"evaluations":         s.Evals,
		"distinct_nontrivial": s.Distinct(),
		"rule":                p.Rule,
		"samples":             samples,
		"classes":             s.Classes,
	}
	if p.Exhaust {
		cov["exhaustive"] = true
	}
	if s.Skipped > 0 {
		cov["not_reached_in_time"] = s.Skipped
	}
	if len(s.Known) > 0 {
		cov["known_findings_met"] = s.Known
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{"The host (data interface, clients, callbacks) is an honest in-memory implementation of the documented interfaces; it shares no code with goidc's test helpers."}, p.Assume...),
		"wall_s":      wall, "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	f := os.Getenv("VERIF_EVIDENCE")
	os.MkdirAll(filepath.Dir(f), 0o755)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		panic(err)
	}
	// what counted as distinct, for tools/merge.py
	var l strings.Builder
	for k := range s.distinct {
		fmt.Fprintf(&l, "%x\n", k[:8])
	}
	os.WriteFile(f+".seen", []byte(l.String()), 0o644)
}

// RunMain runs the tests, discarding what the code under test prints.
func RunMain(m *testing.M) {
	flag.Parse()
	muteStdout()
	os.Exit(m.Run())
}
