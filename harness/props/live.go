package props

import (
	"os"
	"strconv"
	"time"

	"github.com/golang-jwt/jwt"
	"pgregory.net/rapid"
	"verif/world"
)

// Histories under the clock and the logger that endpoints have when the host
// sets none. Such a case is the seed of its generator: times in it are relative
// to the moment it is run. All cases of a batch are built at one moment; each
// then waits for one to three seconds before its requests are made, so that
// what expires at about the moment of building has expired in between for a
// clock that runs.

// liveNow is the moment a batch is generated for, 0 outside of batches.
var liveNow int64

const liveWaits = 3

type liveRun struct {
	w     *world.World
	wait  int64
	steps []func()
	done  func() *Result
}

// liver is a case that may stand for a live one.
type liver interface{ liveSeed() int }

func (c *ResCase) liveSeed() int   { return c.Live }
func (c *TokenCase) liveSeed() int { return c.Live }
func (c *AuthzCase) liveSeed() int { return c.Live }
func (c *IDTCase) liveSeed() int   { return c.Live }

// startLive builds the endpoint of a case.
func startLive(id string, c interface{}) *liveRun {
	f, res := &findings{}, &Result{}
	l := &liveRun{done: func() *Result {
		res.Fail = f.forProp(id)
		res.Known = nil
		res.NonTrivial = true
		return res
	}}
	switch x := c.(type) {
	case *IDTCase:
		if x.Authz != nil {
			return startLive(id, x.Authz)
		}
		return startLive(id, x.Token)
	case *ResCase:
		r := newResRun(x.Spec, &x.Cfg, f, res)
		l.w = r.W
		for i := range x.Steps {
			st := &x.Steps[i]
			if st.Op != "advance" {
				l.steps = append(l.steps, func() { r.Step(st) })
			}
		}
	case *TokenCase:
		r := newTokenRun(x.Spec, &x.Cfg, f, res)
		l.w = r.W
		for i := range x.Steps {
			st := &x.Steps[i]
			if st.Op != "advance" {
				l.steps = append(l.steps, func() { r.Step(st) })
			}
		}
	case *AuthzCase:
		r := newAuthzRun(x.Spec, x.Policy, f, res)
		l.w = r.W
		for i := range x.Steps {
			st := &x.Steps[i]
			if st.Op != "advance" {
				l.steps = append(l.steps, func() { r.Step(st) })
			}
		}
	}
	return l
}

// liveBatch runs the cases of the seeds.
func liveBatch(id string, gen *rapid.Generator[interface{}], seeds []int) []*Result {
	out := make([]*Result, len(seeds))
	for i := range out {
		out[i] = &Result{Classes: []string{"live: too slow, not judged"}}
	}
	until := func(sec int64) { time.Sleep(time.Until(time.Unix(sec, 20e6))) }
	liveNow = time.Now().Unix() + 1
	defer func() { liveNow = 0 }()
	until(liveNow)
	jwt.TimeFunc = time.Now
	runs := make([]*liveRun, len(seeds))
	for i, s := range seeds {
		if time.Now().Unix() != liveNow {
			break
		}
		c := gen.Example(s)
		if p := guard(func() { runs[i] = startLive(id, c) }); p != "" {
			out[i] = &Result{Fail: []string{p}}
			runs[i] = nil
			continue
		}
		runs[i].wait = 1 + int64(s)%liveWaits
	}
	for d := int64(1); d <= liveWaits; d++ {
		sec := liveNow + d
		until(sec)
		for i, l := range runs {
			if l == nil || l.wait != d {
				continue
			}
			if time.Now().Unix() != sec {
				break
			}
			l.w.Mu.Lock()
			l.w.Now = sec
			l.w.Mu.Unlock()
			for _, st := range l.steps {
				st()
			}
			if time.Now().Unix() == sec {
				out[i] = l.done()
				out[i].class("live clock")
			}
		}
	}
	return out
}

// withLive adds live histories to a property.
func withLive(id string, mk func(seed int) interface{}) {
	p := Registry[id]
	check := p.Check
	gen := rapid.Custom(func(t *rapid.T) interface{} { return p.Gen(t) })
	p.Check = func(c interface{}) *Result {
		if s := c.(liver).liveSeed(); s != 0 {
			return liveBatch(id, gen, []int{s})[0]
		}
		return check(c)
	}
	p.Extra = func(thorough bool, note func(c interface{}, r *Result)) {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		batches := 1
		if thorough {
			batches = 10
		}
		for b := 0; b < batches; b++ {
			var seeds []int
			for i := 0; i < 240; i++ {
				seeds = append(seeds, (seed*100+b)*1000+i+1)
			}
			for i, r := range liveBatch(id, gen, seeds) {
				note(mk(seeds[i]), r)
			}
		}
	}
}
