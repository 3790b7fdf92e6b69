// Package rec has the record of calls of the library.
package rec

import "time"

// Call is a call of the library.
type Call struct {
	Tid, Start, End int
	Fn              string
	Obj, Obj2       uintptr
	Key, Val        string
	Num             uint64
	Flag            bool
	Code            int
	N               uint64
	Out             string
	OutObj          uintptr
	Stat            Stat
	Items           []Item
	BufLen          int
}

type Stat struct {
	Secs  int64
	Nanos uint32
	Size  uint64
}

func (s Stat) Time() time.Time { return time.Unix(s.Secs, int64(s.Nanos)) }

type Item struct {
	Key string
	Stat
}
