// Package stub is a model of the library behind possum.h that watches how it is called.
package stub

/*
#cgo CFLAGS: -I${SRCDIR}
#include <stdlib.h>
#include <stdbool.h>
#include <possum.h>
#include "api.h"
*/
import "C"

import (
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"gomc.local/mc/rec"
	"gomc.local/mcrt"
)

type (
	Call = rec.Call
	Stat = rec.Stat
	Item = rec.Item
)

type value struct {
	data string
	id   int
	stat Stat
}

type store map[string]*value

type object struct {
	kind     string
	live     bool
	inUse    []string
	released string
	// of handles
	store   store
	writers int
	// of writers
	handle  *object
	pending []pending
	// of readers
	begun  bool
	values []*object
	// of values
	key    string
	v      *value
	reader *object
	// of value writers
	path string
	f    *os.File
}

type pending struct {
	key   string
	data  string
	value *value
	from  string
}

var (
	objects map[uintptr]*object
	nextID  uintptr
	arena   unsafe.Pointer
	stores  map[string]store
	tick    int
	log     []*Call
	bad     []string
	files   []string
	nfiles  int
	fails   bool
	nextVal int
	// OnState is told the states that are reached.
	OnState func(uint64)
	// Scratch is a directory for files of value writers.
	Scratch string
)

const arenaSize = 1 << 16

// Reset starts an execution. With fail, calls may fail.
func Reset(pathLen int, fail bool) {
	if arena == nil {
		arena = C.malloc(arenaSize)
	}
	objects = map[uintptr]*object{}
	nextID = 0
	stores = map[string]store{}
	tick = 0
	log = nil
	bad = nil
	for _, o := range files {
		os.Remove(o)
	}
	files = nil
	fails = fail
	nextVal = 0
	C.gomc_mem_reset(C.size_t(pathLen))
}

// Log returns the calls so far.
func Log() []*Call { return log }

// Bad returns what has been found wrong so far.
func Bad() []string { return bad }

func violate(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }

// Leaks returns what has not been released.
func Leaks(allowValueWriters bool) (l []string) {
	var ids []uintptr
	for p := range objects {
		ids = append(ids, p)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, p := range ids {
		o := objects[p]
		if o.live && o.kind != "value" && !(o.kind == "value writer" && allowValueWriters) {
			l = append(l, "a "+o.kind+" was never released")
		}
		if o.f != nil && o.live {
			o.f.Close()
			o.f = nil
		}
	}
	var live, doubly C.int
	C.gomc_mem_stat(&live, &doubly)
	if live > 0 {
		l = append(l, fmt.Sprintf("%d pieces of memory were never freed", int(live)))
	}
	if doubly > 0 {
		l = append(l, fmt.Sprintf("memory was freed twice"))
	}
	for _, p := range files {
		fd, err := syscall.Open(p, syscall.O_RDWR|syscall.O_CLOEXEC, 0)
		if err != nil {
			panic(err)
		}
		if err := syscall.Flock(fd, syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
			l = append(l, "a file of a value writer is still open")
		}
		syscall.Close(fd)
	}
	return
}

func create(o *object) uintptr {
	nextID++
	if nextID*16 >= arenaSize {
		panic("arena")
	}
	p := uintptr(arena) + nextID*16
	o.live = true
	objects[p] = o
	return p
}

func get(fn string, p unsafe.Pointer, kind string) *object {
	o := objects[uintptr(p)]
	switch {
	case p == nil:
		violate("%s got a null %s", fn, kind)
	case o == nil:
		violate("%s got a %s that the library never returned", fn, kind)
	case o.kind != kind:
		violate("%s got a %s for a %s", fn, o.kind, kind)
	case !o.live:
		violate("%s got a %s released by %s", fn, kind, o.released)
	default:
		return o
	}
	return nil
}

func release(fn string, o *object) {
	if len(o.inUse) > 1 {
		violate("%s released a %s in use by %s", fn, o.kind, strings.Join(o.inUse, ", "))
	}
	o.live = false
	o.released = fn
	for _, v := range o.values {
		if len(v.inUse) > 0 {
			violate("%s released a value in use by %s", fn, strings.Join(v.inUse, ", "))
		}
		v.live = false
		v.released = fn
	}
}

func now() (s Stat) {
	tick++
	return Stat{Secs: 1_700_000_000 + int64(tick)*3601, Nanos: uint32(123_456_789 + tick)}
}

func newValue(data string) *value {
	nextVal++
	v := &value{data: data, id: nextVal, stat: now()}
	v.stat.Size = uint64(len(data))
	return v
}

func str(p unsafe.Pointer, n C.size_t) string {
	if n == 0 {
		return ""
	}
	return C.GoStringN((*C.char)(p), C.int(n))
}

var names = map[C.int]string{
	C.FN_NEW: "possum_new", C.FN_START_NEW_VALUE: "possum_start_new_value",
	C.FN_VALUE_WRITER_FD: "possum_value_writer_fd", C.FN_WRITER_RENAME: "possum_writer_rename",
	C.FN_READER_ADD: "possum_reader_add", C.FN_READER_BEGIN: "possum_reader_begin",
	C.FN_READER_END: "possum_reader_end", C.FN_VALUE_READ_AT: "possum_value_read_at",
	C.FN_VALUE_STAT: "possum_value_stat", C.FN_READER_LIST_ITEMS: "possum_reader_list_items",
	C.FN_WRITER_COMMIT: "possum_writer_commit", C.FN_WRITER_STAGE: "possum_writer_stage",
	C.FN_DROP: "possum_drop", C.FN_SET_INSTANCE_LIMITS: "possum_set_instance_limits",
	C.FN_CLEANUP_SNAPSHOTS: "possum_cleanup_snapshots", C.FN_SINGLE_WRITE_BUF: "possum_single_write_buf",
	C.FN_NEW_WRITER: "possum_new_writer", C.FN_SINGLE_STAT: "possum_single_stat",
	C.FN_LIST_ITEMS: "possum_list_items", C.FN_SINGLE_READ_AT: "possum_single_read_at",
	C.FN_SINGLE_DELETE: "possum_single_delete", C.FN_READER_NEW: "possum_reader_new",
	C.FN_MOVE_PREFIX: "possum_handle_move_prefix", C.FN_DELETE_PREFIX: "possum_handle_delete_prefix",
}

var firstArg = map[C.int]string{
	C.FN_START_NEW_VALUE: "writer", C.FN_WRITER_RENAME: "writer", C.FN_WRITER_COMMIT: "writer",
	C.FN_WRITER_STAGE: "writer", C.FN_READER_ADD: "reader", C.FN_READER_BEGIN: "reader",
	C.FN_READER_END: "reader", C.FN_READER_LIST_ITEMS: "reader", C.FN_VALUE_WRITER_FD: "value writer",
	C.FN_VALUE_READ_AT: "value", C.FN_VALUE_STAT: "value",
}

//export gomcApi
func gomcApi(c *C.struct_api_call) {
	k := &Call{Tid: mcrt.Self(), Start: mcrt.Steps(), Fn: names[c.fn], Obj: uintptr(c.obj), Obj2: uintptr(c.obj2),
		Key: str(c.key, c.key_size), Num: uint64(c.num), BufLen: int(c.val_size)}
	switch c.fn {
	case C.FN_SINGLE_WRITE_BUF, C.FN_MOVE_PREFIX:
		k.Val = str(c.val, c.val_size)
	case C.FN_SET_INSTANCE_LIMITS:
		k.Flag = c.n != 0
	}
	log = append(log, k)
	var o, o2 *object
	ok := true
	if c.fn != C.FN_NEW {
		kind := firstArg[c.fn]
		if kind == "" {
			kind = "handle"
		}
		o = get(k.Fn, c.obj, kind)
		ok = o != nil
	}
	switch c.fn {
	case C.FN_WRITER_RENAME:
		o2 = get(k.Fn, c.obj2, "value")
		ok = ok && o2 != nil
	case C.FN_WRITER_STAGE:
		o2 = get(k.Fn, c.obj2, "value writer")
		ok = ok && o2 != nil
	}
	use := func(o *object, n int) {
		if o == nil {
			return
		}
		if n > 0 {
			o.inUse = append(o.inUse, k.Fn)
		} else {
			for i, f := range o.inUse {
				if f == k.Fn {
					o.inUse = append(o.inUse[:i:i], o.inUse[i+1:]...)
					break
				}
			}
		}
	}
	if ok {
		use(o, 1)
		use(o2, 1)
		mcrt.Point(k.Fn)
		api(c, k, o, o2)
		mcrt.Point(k.Fn + " returns")
		use(o, -1)
		use(o2, -1)
	} else {
		c.code = C.AnyhowError
		c.n = 0
	}
	if OnState != nil {
		OnState(State())
	}
	k.Code = int(c.code)
	k.End = mcrt.Steps()
	k.OutObj = uintptr(c.out)
	if mcrt.Trace != nil {
		mcrt.Trace(fmt.Sprintf("%s(obj %#x, %q, %q) -> code %d n %d out %#x", k.Fn, k.Obj, k.Key, k.Val, k.Code, k.N, k.OutObj))
	}
}

// failing decides whether the call fails, and how.
func failing(c *C.struct_api_call) bool {
	if !fails || mcrt.Choose("fail", 2, 1) == 0 {
		return false
	}
	codes := []C.PossumError{C.SqliteError, C.IoError, C.AnyhowError, C.UnsupportedFilesystem}
	c.code = codes[mcrt.Choose("code", len(codes), 0)]
	return true
}

func (s store) list(prefix string) (items []Item) {
	for k, v := range s {
		if strings.HasPrefix(k, prefix) {
			items = append(items, Item{k[len(prefix):], v.stat})
		}
	}
	sort.Slice(items, func(i, j int) bool { return items[i].Key < items[j].Key })
	return
}

func cStat(s Stat) (c C.PossumStat) {
	c.size = C.uint64_t(s.Size)
	c.last_used.secs = C.int64_t(s.Secs)
	c.last_used.nanos = C.uint32_t(s.Nanos)
	return
}

func give(c *C.struct_api_call, k *Call, items []Item) {
	k.Items = items
	c.n = C.size_t(len(items))
	c.out = C.gomc_alloc(C.size_t(len(items)) * C.sizeof_PossumItem)
	out := unsafe.Slice((*C.PossumItem)(c.out), len(items))
	for i, it := range items {
		p := C.gomc_alloc(C.size_t(len(it.Key)))
		copy(unsafe.Slice((*byte)(p), len(it.Key)), it.Key)
		out[i].key.ptr = (*C.char)(p)
		out[i].key.size = C.size_t(len(it.Key))
		out[i].stat = cStat(it.Stat)
	}
}

func readInto(c *C.struct_api_call, k *Call, data string) {
	n := 0
	if uint64(c.num) < uint64(len(data)) {
		n = copy(unsafe.Slice((*byte)(c.val), int(c.val_size)), data[c.num:])
	}
	k.Out = data[min(int(c.num), len(data)):][:n]
	c.n = C.size_t(n)
	k.N = uint64(n)
}

// File returns the contents of the file of a value writer.
func contents(o *object) string {
	b, err := os.ReadFile(o.path)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func api(c *C.struct_api_call, k *Call, o, o2 *object) {
	switch c.fn {
	case C.FN_NEW:
		if failing(c) {
			return
		}
		s := stores[k.Key]
		if s == nil {
			s = store{}
			stores[k.Key] = s
		}
		c.out = unsafe.Pointer(create(&object{kind: "handle", store: s}))
	case C.FN_DROP:
		if o.writers > 0 {
			violate("possum_drop released a handle while a writer of it was outstanding")
		}
		release(k.Fn, o)
	case C.FN_SET_INSTANCE_LIMITS, C.FN_CLEANUP_SNAPSHOTS:
		failing(c)
	case C.FN_SINGLE_WRITE_BUF:
		if failing(c) {
			c.code = 0
			c.n = ^C.size_t(0)
			k.N = ^uint64(0)
			return
		}
		o.store[k.Key] = newValue(k.Val)
		c.n = C.size_t(len(k.Val))
		k.N = uint64(len(k.Val))
	case C.FN_SINGLE_STAT:
		v := o.store[k.Key]
		if v == nil {
			return
		}
		v.touch()
		k.Stat = v.stat
		k.N = 1
		c.n = 1
		c.stat = cStat(v.stat)
	case C.FN_LIST_ITEMS:
		if failing(c) {
			return
		}
		give(c, k, o.store.list(k.Key))
	case C.FN_SINGLE_READ_AT:
		if failing(c) {
			return
		}
		v := o.store[k.Key]
		if v == nil {
			c.code = C.NoSuchKey
			return
		}
		v.touch()
		readInto(c, k, v.data)
	case C.FN_SINGLE_DELETE:
		if failing(c) {
			return
		}
		v := o.store[k.Key]
		if v == nil {
			c.code = C.NoSuchKey
			return
		}
		delete(o.store, k.Key)
		k.Stat = v.stat
		c.stat = cStat(v.stat)
	case C.FN_MOVE_PREFIX:
		if failing(c) {
			return
		}
		for key := range o.store {
			if strings.HasPrefix(key, k.Key) && o.store[k.Val+key[len(k.Key):]] != nil {
				c.code = C.SqliteError
				return
			}
		}
		moved := store{}
		for key, v := range o.store {
			if strings.HasPrefix(key, k.Key) {
				moved[k.Val+key[len(k.Key):]] = v
				delete(o.store, key)
			}
		}
		for key, v := range moved {
			o.store[key] = v
		}
	case C.FN_DELETE_PREFIX:
		if failing(c) {
			return
		}
		for key := range o.store {
			if strings.HasPrefix(key, k.Key) {
				delete(o.store, key)
			}
		}
	case C.FN_READER_NEW:
		if failing(c) {
			return
		}
		c.out = unsafe.Pointer(create(&object{kind: "reader", store: o.store}))
	case C.FN_READER_ADD:
		if failing(c) {
			return
		}
		v := o.store[k.Key]
		if v == nil {
			c.code = C.NoSuchKey
			return
		}
		v.touch()
		cp := *v
		vo := &object{kind: "value", key: k.Key, v: &cp, reader: o}
		o.values = append(o.values, vo)
		c.out = unsafe.Pointer(create(vo))
	case C.FN_READER_BEGIN:
		if o.begun {
			violate("possum_reader_begin called twice")
		}
		o.begun = true
		failing(c)
	case C.FN_READER_END:
		release(k.Fn, o)
	case C.FN_READER_LIST_ITEMS:
		if failing(c) {
			return
		}
		give(c, k, o.store.list(k.Key))
	case C.FN_VALUE_READ_AT:
		if failing(c) {
			return
		}
		readInto(c, k, o.v.data)
	case C.FN_VALUE_STAT:
		k.Stat = o.v.stat
		c.stat = cStat(o.v.stat)
	case C.FN_NEW_WRITER:
		o.writers++
		c.out = unsafe.Pointer(create(&object{kind: "writer", handle: o, store: o.store}))
	case C.FN_START_NEW_VALUE:
		if failing(c) {
			return
		}
		nfiles++
		p := fmt.Sprintf("%s/vw-%d", Scratch, nfiles)
		f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if err != nil {
			panic(err)
		}
		if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
			panic(err)
		}
		files = append(files, p)
		c.out = unsafe.Pointer(create(&object{kind: "value writer", f: f, path: p}))
	case C.FN_VALUE_WRITER_FD:
		c.n = C.size_t(o.f.Fd())
	case C.FN_WRITER_STAGE:
		k.Out = contents(o2)
		release(k.Fn, o2)
		o2.f.Close()
		o2.f = nil
		if failing(c) {
			return
		}
		o.pending = append(o.pending, pending{key: k.Key, data: k.Out})
	case C.FN_WRITER_RENAME:
		o.pending = append(o.pending, pending{key: k.Key, value: o2.v, from: o2.key})
	case C.FN_WRITER_COMMIT:
		release(k.Fn, o)
		o.handle.writers--
		if failing(c) {
			return
		}
		// As the library does, first what was written and then what was renamed.
		for _, p := range o.pending {
			if p.value == nil {
				o.store[p.key] = newValue(p.data)
			}
		}
		for _, p := range o.pending {
			if p.value == nil {
				continue
			}
			for key, v := range o.store {
				if v.id == p.value.id {
					delete(o.store, key)
					v.touch()
					o.store[p.key] = v
					break
				}
			}
		}
	}
}

func (v *value) touch() {
	n := now()
	v.stat.Secs, v.stat.Nanos = n.Secs, n.Nanos
}

// SetFails says whether calls may fail from now on.
func SetFails(f bool) { fails = f }

// State returns a hash of the state of the library.
func State() uint64 {
	h := fnv.New64a()
	var ids []uintptr
	for p := range objects {
		ids = append(ids, p)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, p := range ids {
		o := objects[p]
		fmt.Fprint(h, o.kind, o.live, o.inUse, o.begun, o.key, len(o.pending))
	}
	var dirs []string
	for d := range stores {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		for _, it := range stores[d].list("") {
			fmt.Fprint(h, it.Key, "=", stores[d][it.Key].data, ";")
		}
	}
	return h.Sum64()
}
