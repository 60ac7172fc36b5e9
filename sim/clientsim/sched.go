package clientsim

import (
	"context"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/sim/internal/core"
)

// Hooks connect the simulator with the patched runtime.
type Hooks struct {
	Run     func(func()) // runs a function in a bubble with virtual time
	Wait    func()       // waits till everything else in the bubble is blocked
	SetSeed func(uint64) // seeds the random numbers of the runtime
	Goid    func() uint64
	Yield   func(func()) // sets the function called before statements of the generated code
}

type task struct {
	id   int
	name string
	done bool
	bad  *bad
	busy int
	rng  *core.Rng
	in   int // nesting of simulator code: no yields there
}

type park struct {
	t     *task
	point string
	due   time.Time
	ctx   context.Context
	ch    chan bool
	seq   int
}

type sched struct {
	h      Hooks
	rng    *core.Rng
	tasks  []*task
	byGo   map[uint64]*task
	parked []*park
	notify chan struct{}
	hash   uint64
	steps  int
	yields int
	start  time.Time
	yield  int
	trace  bool
	log    []string
	digest uint64
	key    uint64
	seq    int
	stuck  string
	active bool
	onBusy func()
}

const (
	horizon   = 1000 * time.Hour
	maxSteps  = 1000000
	maxYields = 8000
	maxBusy   = 3000000
)

func (s *sched) now() int64 { return int64(time.Since(s.start)) }

func (s *sched) note(t *task, format string, args ...any) {
	text := fmt.Sprintf(format, args...)
	who := "?"
	if t != nil {
		who = t.name
	}
	s.digest = core.MixStr(s.digest, who+text)
	s.digest = core.Mix(s.digest, uint64(s.now()))
	if s.trace {
		s.log = append(s.log, fmt.Sprintf("%12s %s: %s", time.Duration(s.now()), who, text))
	}
}

func (s *sched) current() *task { return s.byGo[s.h.Goid()] }

// park blocks the caller till the scheduler chooses it, which can't happen before the delay has passed unless the
// context is done. It tells if the context ended the wait.
func (s *sched) park(point string, d time.Duration, ctx context.Context) bool {
	if !s.active {
		return false
	}
	p := &park{t: s.current(), point: point, due: time.Now().Add(d), ctx: ctx, ch: make(chan bool, 1), seq: s.seq}
	s.seq++
	if p.t != nil && point != "yield" {
		p.t.busy = 0
	}
	s.parked = append(s.parked, p)
	s.poke()
	return <-p.ch
}

func (s *sched) poke() {
	select {
	case s.notify <- struct{}{}:
	default:
	}
}

func (s *sched) spawn(name string, f func(t *task)) {
	t := &task{id: len(s.tasks), name: name, rng: core.NewRng(core.Mix(s.rng.Next(), uint64(len(s.tasks))))}
	s.tasks = append(s.tasks, t)
	go func() {
		s.byGo[s.h.Goid()] = t
		defer func() {
			if r := recover(); r != nil {
				t.bad = panicked(r, string(debug.Stack()))
				s.note(t, "panic: %v", r)
			}
			t.done = true
			delete(s.byGo, s.h.Goid())
			s.poke()
		}()
		t.in++
		s.park("start", 0, nil)
		t.in--
		f(t)
	}()
}

// yieldPoint is called before every statement of the generated code.
func (s *sched) yieldPoint() {
	if !s.active {
		return
	}
	t := s.current()
	if t == nil || t.in > 0 {
		return
	}
	if t.busy++; t.busy > maxBusy {
		s.active = false
		s.stuck = t.name + " never ends: it runs " + fmt.Sprint(maxBusy) + " statements without doing anything else"
		s.onBusy()
	}
	if s.yield == 0 || s.yields >= maxYields || !t.rng.Chance(s.yield, 1000) {
		return
	}
	t.in++
	s.yields++
	s.park("yield", 0, nil)
	t.in--
}

func ctxDone(ctx context.Context) bool { return ctx != nil && ctx.Err() != nil }

// loop runs the tasks till all of them have finished.
func (s *sched) loop() {
	for {
		s.h.Wait()
		now := time.Now()
		var run []*park
		for _, p := range s.parked {
			if !p.due.After(now) || ctxDone(p.ctx) {
				run = append(run, p)
			}
		}
		if len(run) > 0 {
			s.steps++
			if s.steps > maxSteps {
				s.stuck = "the tasks never end: too many steps"
				return
			}
			sort.SliceStable(run, func(i, j int) bool { return run[i].id() < run[j].id() })
			p := run[s.rng.Intn(len(run))]
			for i, q := range s.parked {
				if q == p {
					s.parked = append(s.parked[:i], s.parked[i+1:]...)
					break
				}
			}
			cancelled := ctxDone(p.ctx)
			if cancelled && !p.due.After(now) && s.rng.Chance(1, 2) {
				cancelled = false // both things happened: either may win
			}
			if len(run) > 1 {
				s.key = core.Mix(s.key, uint64(p.id()), uint64(len(run)))
			}
			s.key = core.MixStr(s.key, p.point)
			if p.point != "yield" || s.trace {
				s.note(p.t, "runs at %s (one of %d)", p.point, len(run))
			}
			s.h.SetSeed(core.Mix(s.hash, uint64(s.steps)))
			p.ch <- cancelled
			continue
		}
		all := true
		for _, t := range s.tasks {
			all = all && t.done
		}
		if all && len(s.parked) == 0 {
			return
		}
		if now.Sub(s.start) >= horizon {
			var w []string
			for _, t := range s.tasks {
				if !t.done {
					w = append(w, t.name)
				}
			}
			s.stuck = "no progress: " + strings.Join(w, ", ") + " never ends"
			return
		}
		// Let time pass till something happens.
		next := s.start.Add(horizon)
		cases := []reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.notify)}}
		for _, p := range s.parked {
			if p.due.Before(next) {
				next = p.due
			}
			if p.ctx != nil && p.ctx.Done() != nil {
				cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(p.ctx.Done())})
			}
		}
		timer := time.NewTimer(next.Sub(now))
		cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(timer.C)})
		reflect.Select(cases)
		timer.Stop()
	}
}

func (p *park) id() int {
	if p.t == nil {
		return 1000000 + p.seq
	}
	return p.t.id
}
