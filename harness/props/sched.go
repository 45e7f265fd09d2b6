package props

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// sched runs functions concurrently but one at a time, switching only at the
// host calls they make, in an order given by a list of choices. A function
// that does not reach its next host call in time (because it waits for a lock
// that another one holds) is left alone while the others run.
type sched struct {
	mu       sync.Mutex
	byGID    map[int64]int
	resume   []chan struct{}
	event    chan schedEvent
	Trace    []string
	free     bool // no more scheduling
	stalls   int
	switches int
	lastRun  int
}

type schedEvent struct {
	who  int
	done bool
}

const schedPatience = 2 * time.Second

func gid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	if len(f) < 2 {
		return -1
	}
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

func newSched(n int) *sched {
	s := &sched{byGID: map[int64]int{}, event: make(chan schedEvent, 4*n+16)}
	for i := 0; i < n; i++ {
		s.resume = append(s.resume, make(chan struct{}, 1))
	}
	return s
}

// Who is the number of the calling function, -1 if it is none of ours.
func (s *sched) Who() int {
	g := gid()
	s.mu.Lock()
	defer s.mu.Unlock()
	if i, ok := s.byGID[g]; ok {
		return i
	}
	return -1
}

// Gate is to be called at every host call.
func (s *sched) Gate(method string) {
	i := s.Who()
	if i < 0 {
		return
	}
	s.mu.Lock()
	free := s.free
	s.mu.Unlock()
	if free {
		return
	}
	s.event <- schedEvent{i, false}
	<-s.resume[i]
}

// Run executes the functions under the given choices; choice k picks among the
// functions that are ready, in order of number. It returns for every function
// whether it came to an end.
func (s *sched) Run(fs []func(), choices []int) []bool {
	n := len(fs)
	ended := make([]bool, n)
	ready := make([]bool, n)
	running := make([]bool, n)
	for i := range fs {
		i := i
		started := make(chan struct{})
		go func() {
			s.mu.Lock()
			s.byGID[gid()] = i
			s.mu.Unlock()
			close(started)
			<-s.resume[i]
			fs[i]()
			s.event <- schedEvent{i, true}
		}()
		<-started
		ready[i] = true
	}
	take := func(e schedEvent) {
		running[e.who] = false
		if e.done {
			ended[e.who] = true
		} else {
			ready[e.who] = true
		}
	}
	k := 0
	for {
		var l []int
		left, busy := false, false
		for i := range fs {
			if ready[i] {
				l = append(l, i)
			}
			if !ended[i] {
				left = true
			}
			if running[i] {
				busy = true
			}
		}
		if !left {
			return ended
		}
		if len(l) == 0 {
			// all are blocked
			if !busy {
				return ended
			}
			select {
			case e := <-s.event:
				take(e)
				continue
			case <-time.After(5 * schedPatience):
				return ended
			}
		}
		c := 0
		if k < len(choices) {
			c = choices[k]
		}
		k++
		i := l[((c%len(l))+len(l))%len(l)]
		ready[i], running[i] = false, true
		if i != s.lastRun {
			s.switches++
			s.lastRun = i
		}
		s.resume[i] <- struct{}{}
		// wait for i; events of functions that were blocked may come too
		patience := schedPatience
		if s.stalls > 2 {
			patience = 20 * time.Millisecond
		}
		deadline := time.After(patience)
	wait:
		for running[i] {
			select {
			case e := <-s.event:
				take(e)
			case <-deadline:
				s.stalls++
				break wait
			}
		}
	}
}
