// Package mcrt is a controlled scheduler: of the goroutines it knows, one runs at a time, and at
// every scheduling point an explorer decides which one that is.
package mcrt

import "fmt"

// Chooser returns the alternative to take among n at a choice point. cost is what every alternative
// but the first costs of the deviation bound of its kind.
type Chooser func(kind string, n int, cost int) int

type thread struct {
	id    int
	name  string
	wake  chan struct{}
	ready func() bool // nil: runnable
	why   string
	done  bool
}

var (
	active  bool
	threads []*thread
	cur     *thread
	choose  Chooser
	finish  chan string
	steps   int
	kill    bool
	// Finalizers counts the calls of SetFinalizer in this execution.
	Finalizers int
	// Trace is called with what happens, if it is not nil.
	Trace func(string)
	// MaxSteps bounds an execution.
	MaxSteps = 20000
)

type killed struct{}

// Steps returns the number of scheduling points passed: a clock of the execution.
func Steps() int { return steps }

// Active tells whether an execution is under way.
func Active() bool { return active }

// Self returns the number of the running thread.
func Self() int {
	if !active || cur == nil {
		return -1
	}
	return cur.id
}

// Choose is a choice point for data.
func Choose(kind string, n int, cost int) int {
	if !active || n < 2 {
		return 0
	}
	return choose(kind, n, cost)
}

// Run runs main and what it starts with Go until all of it has ended. It returns "" or what went
// wrong.
func Run(c Chooser, main func()) string {
	choose, threads, cur, steps, kill, Finalizers = c, nil, nil, 0, false, 0
	finish = make(chan string, 64)
	active = true
	start("main", main)
	threads[0].wake <- struct{}{}
	res := <-finish
	active = false
	if res != "" {
		// The goroutines that are left end at their next scheduling point, which they are woken to.
		kill = true
		for _, t := range threads {
			if !t.done {
				select {
				case t.wake <- struct{}{}:
				default:
				}
			}
		}
	}
	return res
}

// Go starts a thread.
func Go(f func()) {
	if !active {
		go f()
		return
	}
	start(fmt.Sprintf("T%d", len(threads)), f)
	Point("go")
}

// Spawn starts a thread of the given name without a scheduling point.
func Spawn(name string, f func()) { start(name, f) }

func start(name string, f func()) {
	t := &thread{id: len(threads), name: name, wake: make(chan struct{}, 1)}
	threads = append(threads, t)
	go func() {
		<-t.wake
		cur = t
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); ok || kill {
					return
				}
				t.done = true
				finish <- fmt.Sprintf("panic in %s: %v", t.name, r)
				return
			}
			if kill {
				return
			}
			t.done = true
			next(nil)
		}()
		if kill {
			return
		}
		f()
	}()
}

// next hands over to another thread; self is nil if the running one has ended.
func next(self *thread) {
	var en []*thread
	if self != nil && (self.ready == nil || self.ready()) {
		en = append(en, self)
	}
	for _, t := range threads {
		if t != self && !t.done && (t.ready == nil || t.ready()) {
			en = append(en, t)
		}
	}
	if len(en) == 0 {
		for _, t := range threads {
			if !t.done {
				s := "deadlock:"
				for _, t := range threads {
					if !t.done {
						s += fmt.Sprintf(" %s waits for %s;", t.name, t.why)
					}
				}
				finish <- s
				if self != nil {
					<-self.wake
					panic(killed{})
				}
				return
			}
		}
		finish <- ""
		return
	}
	i := 0
	if len(en) > 1 {
		cost := 0
		if en[0] == self {
			cost = 1
		}
		i = choose("thread", len(en), cost)
	}
	t := en[i]
	if t == self {
		return
	}
	if Trace != nil {
		Trace("-> " + t.name)
	}
	t.wake <- struct{}{}
	if self != nil {
		<-self.wake
		if kill {
			panic(killed{})
		}
		cur = self
	}
}

// Point is a scheduling point.
func Point(why string) {
	if !active || cur == nil {
		return
	}
	steps++
	if steps > MaxSteps {
		finish <- "no end in sight after " + fmt.Sprint(steps) + " steps"
		<-cur.wake
		panic(killed{})
	}
	next(cur)
}

// P is the scheduling point before a statement.
func P() { Point("") }

// Block waits until ready returns true.
func Block(why string, ready func() bool) {
	if !active || cur == nil {
		if !ready() {
			panic("would block forever: " + why)
		}
		return
	}
	if ready() {
		return
	}
	self := cur
	self.ready, self.why = ready, why
	steps++
	next(self)
	self.ready, self.why = nil, ""
}

// Join waits for all threads but the caller.
func Join() {
	self := cur
	Block("the other threads", func() bool {
		for _, t := range threads {
			if t != self && !t.done {
				return false
			}
		}
		return true
	})
}
