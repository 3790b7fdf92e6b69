// Package chansync stands in for github.com/anacrolix/chansync, which is not installed here.
package chansync

import "gomc.local/mcrt/sync"

type Done = <-chan struct{}

// SetOnce is a flag that can only go from unset to set.
type SetOnce struct {
	mu     sync.Mutex
	ch     chan struct{}
	closed bool
}

func (me *SetOnce) init() {
	if me.ch == nil {
		me.ch = make(chan struct{})
	}
}

// Done is closed when the flag is set.
func (me *SetOnce) Done() Done {
	me.mu.Lock()
	defer me.mu.Unlock()
	me.init()
	return me.ch
}

// Set returns true only the first time it is called.
func (me *SetOnce) Set() (first bool) {
	me.mu.Lock()
	defer me.mu.Unlock()
	if me.closed {
		return false
	}
	me.init()
	me.closed = true
	close(me.ch)
	return true
}

func (me *SetOnce) IsSet() bool {
	me.mu.Lock()
	defer me.mu.Unlock()
	return me.closed
}
