package main

import (
	"fmt"
	"strconv"
	"strings"

	possum "github.com/anacrolix/possum/go"

	h "gomc.local/mc/harness"
	"gomc.local/mcrt"
)

func units(tier string) (us []*unit) {
	thorough := tier == "thorough"
	pick := func(quick, deep int) int {
		if thorough {
			return deep
		}
		return quick
	}
	add := func(group string, p, f int, threads ...[]h.Op) {
		name := group + ": "
		for i, t := range threads {
			if i > 0 {
				name += " || "
			}
			for j, op := range t {
				if j > 0 {
					name += "; "
				}
				name += op.Name
			}
		}
		us = append(us, &unit{name: clean(name), threads: threads, preempt: p, fails: f})
	}
	ops := h.Ops()
	one := func(op h.Op) []h.Op { return []h.Op{op} }
	// Counted references on their own.
	for n := 1; n <= 3; n++ {
		n := n
		us = append(us, &unit{name: fmt.Sprint("rc: ", n), preempt: pick(2, 3), own: func(u *unit, x *execution) { rc(x, n) }})
	}
	us = append(us, &unit{name: "rc: finalizers", own: func(u *unit, x *execution) { rcNew(x) }})
	// The model against the real library.
	var seqs [][]int
	for i := range ops {
		for j := range ops {
			seqs = append(seqs, []int{i, j})
			if thorough {
				for k := range ops {
					seqs = append(seqs, []int{i, j, k})
				}
			}
		}
	}
	for i := 0; i*50 < len(seqs); i++ {
		us = append(us, &unit{name: fmt.Sprint("real: ", i), real: seqs[i*50 : min(len(seqs), i*50+50)]})
	}
	// Sequences, in which a call may fail.
	for _, a := range ops {
		add("sequence1", 0, 2, one(a))
		for _, b := range ops[1:] {
			add("sequence2", 0, 1, []h.Op{a, b})
		}
	}
	if thorough {
		for _, a := range ops {
			for _, b := range ops {
				for _, c := range ops {
					add("sequence3", 0, 0, []h.Op{a, b, c})
				}
			}
		}
	}
	// Every operation while the handle is closed, once and twice.
	for i, a := range ops[1:] {
		add("close", pick(2, 4), 0, one(a), one(h.Close()))
		add("close-failing", pick(1, 2), 1, one(a), one(h.Close()))
		twice := 1
		if a.Single && i%4 == 0 {
			twice = 2
		}
		add("close-twice", pick(twice, 3), 0, one(a), one(h.Close()), one(h.Close()))
	}
	add("close", 4, 0, one(h.Close()), one(h.Close()))
	// Operations at the same time.
	var few []h.Op
	put := h.Put("a", "changed")
	few = append(few, h.Put("a", "hello"), h.Stat("a"), h.List(""), h.Delete("a"), h.ReadAt("a", 0, 5),
		h.Reader([]string{"a"}, false, &put, false), h.Writer(map[string][]string{"a": {"one"}}, []string{"a"}, nil),
		h.Limits(-1, true), h.Cleanup(), h.Move("a", "c"), h.DeletePrefix("a"), h.Rename("a", "c"), h.ResGet("a", nil),
		h.ResPut("a", false, "part"), h.Second())
	for i, a := range few {
		for _, b := range few[i:] {
			add("pair", pick(1, 3), 0, one(a), one(b))
			add("pair-close", pick(1, 2), 0, one(a), one(b), one(h.Close()))
			add("close-between", pick(1, 2), 0, []h.Op{a, h.Close()}, one(b))
		}
	}
	return
}

// rc has n threads that clone a counted reference and drop it.
func rc(x *execution, n int) {
	bad := func(f string, a ...any) { x.errs = append(x.errs, fmt.Sprintf(f, a...)) }
	drops := 0
	live := 1
	var r possum.Rc[int]
	r.Init(42, func(v int) {
		mcrt.P()
		drops++
		if v != 42 {
			bad("%d was dropped for 42", v)
		}
		if live > 0 {
			bad("dropped with %d references", live)
		}
	})
	use := func(c *possum.Rc[int]) {
		if v := c.Deref(); v != 42 || drops > 0 || c.ValueDropped().IsSet() {
			bad("a reference gives %d after %d drops", v, drops)
		}
	}
	for i := 0; i < n; i++ {
		c := r.Clone()
		live++
		mcrt.Spawn(fmt.Sprint("T", i+1), func() {
			use(c)
			d := c.Clone()
			live++
			live--
			c.Drop()
			use(d)
			live--
			d.Drop()
		})
	}
	use(&r)
	live--
	r.Drop()
	mcrt.Join()
	if drops != 1 || !r.ValueDropped().IsSet() {
		bad("dropped %d times, said to be dropped: %v", drops, r.ValueDropped().IsSet())
	}
}

// rcNew lets a reference that was dropped become garbage.
func rcNew(x *execution) {
	drops := 0
	r := possum.NewRc(42, func(int) { drops++ })
	c := r.Clone()
	r.Drop()
	c.Drop()
	r, c = nil, nil
	if drops != 1 {
		x.errs = append(x.errs, fmt.Sprintf("dropped %d times", drops))
	}
}

// clean makes s printable.
func clean(s string) string {
	q := strconv.QuoteToASCII(s)
	return strings.ReplaceAll(q[1:len(q)-1], `\"`, `"`)
}
