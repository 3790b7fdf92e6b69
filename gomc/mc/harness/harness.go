// Package harness has operations on the Go binding and what must be true of them.
package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/anacrolix/generics"
	possum "github.com/anacrolix/possum/go"
	possumC "github.com/anacrolix/possum/go/cpossum"
	possumResource "github.com/anacrolix/possum/go/resource"

	"gomc.local/mc/rec"
	"gomc.local/mcrt"
)

// Env is a handle that operations share.
type Env struct {
	H   *possum.Handle
	Dir string
	// Log is nil with the real library.
	Log                     func() []*rec.Call
	Errs                    []string
	CloseStarted, CloseDone bool
	// LostValue is set when an operation failed between starting a value and staging it, since
	// there is no way to give the value back.
	LostValue bool
}

// Op is an operation of a program.
type Op struct {
	Name string
	Run  func(t *T) string
	// Single tells that the operation uses the handle once.
	Single bool
}

// T is an operation under way.
type T struct {
	*Env
	name   string
	from   int
	tid    int
	closed bool
}

// Do runs op and returns what was observed.
func (e *Env) Do(op Op) string {
	t := &T{Env: e, name: op.Name, tid: mcrt.Self(), closed: e.CloseDone}
	if e.Log != nil {
		t.from = len(e.Log())
	}
	if mcrt.Trace != nil {
		mcrt.Trace("start " + op.Name)
	}
	obs := op.Run(t)
	if mcrt.Trace != nil {
		mcrt.Trace(op.Name + ": " + obs)
	}
	return obs
}

func (t *T) fail(f string, a ...any) {
	t.Errs = append(t.Errs, t.name+": "+fmt.Sprintf(f, a...))
}

// calls returns the calls of fn that the operation has made, or all of its calls.
func (t *T) calls(fn string) (r []*rec.Call) {
	if t.Log == nil {
		return
	}
	for _, c := range t.Log()[t.from:] {
		if c.Tid == t.tid && (fn == "" || c.Fn == fn) {
			r = append(r, c)
		}
	}
	return
}

// last returns the only call of fn since the operation began; nil with the real library.
func (t *T) last(fn string) *rec.Call {
	if t.Log == nil {
		return nil
	}
	c := t.calls(fn)
	if len(c) == 0 {
		t.fail("did not call %s", fn)
		return nil
	}
	return c[len(c)-1]
}

// isClosed tells whether err says that the handle is closed, and whether it may.
func (t *T) isClosed(err error) bool {
	if errors.Is(err, possum.ErrHandleClosed) {
		if !t.CloseStarted {
			t.fail("the handle is said to be closed, and is not")
		}
		if c := t.calls(""); len(c) > 0 {
			t.fail("the handle is said to be closed, after a call of %s", c[0].Fn)
		}
		return true
	}
	if t.closed {
		t.fail("worked on a closed handle: %v", err)
	}
	return false
}

// code checks that err is what the library returned.
func (t *T) code(err error, c *rec.Call) string {
	if c == nil {
		return errText(err)
	}
	if c.Code == 0 {
		if err != nil {
			t.fail("%s succeeded and became %v", c.Fn, err)
		}
		return "ok"
	}
	if err == nil {
		t.fail("%s returned code %d and became nil", c.Fn, c.Code)
		return "ok"
	}
	noKey := c.Code == 1
	if errors.Is(err, possumC.NoSuchKey) != noKey || errors.Is(err, fs.ErrNotExist) != noKey {
		t.fail("%s returned code %d, errors.Is gives NoSuchKey %v ErrNotExist %v", c.Fn, c.Code,
			errors.Is(err, possumC.NoSuchKey), errors.Is(err, fs.ErrNotExist))
	}
	var pe possumC.Error
	if !errors.As(err, &pe) {
		t.fail("%s returned code %d and became %v", c.Fn, c.Code, err)
	} else if f := reflect.ValueOf(pe).FieldByName("pec"); f.IsValid() && f.CanUint() && f.Uint() != uint64(c.Code) {
		t.fail("%s returned code %d and became %v", c.Fn, c.Code, err)
	}
	return errText(err)
}

func errText(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, fs.ErrNotExist):
		return "no such key"
	case errors.Is(err, possum.ErrHandleClosed):
		return "closed"
	}
	return "error"
}

func (t *T) eq(what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		t.fail("%s is %v, should be %v", what, got, want)
	}
}

func (t *T) info(fi fs.FileInfo, key string, s rec.Stat) {
	t.eq("name", fi.Name(), key)
	if fi.IsDir() {
		t.fail("is a directory")
	}
	if t.Log == nil {
		if d := time.Since(fi.ModTime()); d < -time.Minute || d > time.Hour {
			t.fail("last used %v ago", d)
		}
		return
	}
	t.eq("size", fi.Size(), int64(s.Size))
	if !fi.ModTime().Equal(s.Time()) {
		t.fail("time is %v, should be %v", fi.ModTime(), s.Time())
	}
}

// read checks a read of the library against what was returned.
func (t *T) read(c *rec.Call, p []byte, off int64, n int, err error) string {
	if n < 0 || n > len(p) {
		t.fail("read %d bytes into %d", n, len(p))
		return "?"
	}
	for _, b := range p[n:] {
		if c != nil && c.Code == 0 && b != '#' {
			t.fail("the buffer changed after the %d bytes read", n)
			break
		}
	}
	obs := fmt.Sprintf("%d %q %s", n, p[:n], errText(err))
	if err == nil || err == io.EOF {
		obs = fmt.Sprintf("%d %q", n, p[:n])
	}
	if c == nil {
		return obs
	}
	t.eq("offset", c.Num, uint64(off))
	t.eq("buffer size", c.BufLen, len(p))
	if c.Code != 0 {
		t.code(err, c)
		t.eq("number of bytes of a failed read", n, 0)
		return obs
	}
	t.eq("number of bytes", uint64(n), c.N)
	t.eq("bytes", string(p[:n]), c.Out)
	switch {
	case n == 0 && len(p) != 0:
		if err != io.EOF {
			t.fail("nothing was read and the error is %v", err)
		}
	case n == len(p):
		if err != nil && !(err == io.EOF && n != 0) {
			t.fail("everything was read and the error is %v", err)
		}
	default:
		if err != nil && err != io.EOF {
			t.fail("%d of %d bytes were read and the error is %v", n, len(p), err)
		}
	}
	return obs
}

func buf(n int) []byte { return bytes.Repeat([]byte{'#'}, n) }

func Close() Op {
	return Op{Name: "Close", Run: func(t *T) string {
		t.CloseStarted = true
		err := t.H.Close()
		t.CloseDone = true
		t.eq("error", err, nil)
		return "closed"
	}}
}

func Stat(key string) Op {
	return Op{Name: "SingleStat " + key, Single: true, Run: func(t *T) string {
		fi, ok := t.H.SingleStat(key)
		if t.Log != nil && len(t.calls("possum_single_stat")) == 0 {
			if ok || !t.CloseStarted {
				t.fail("found %v without asking the library", ok)
			}
			return "no"
		}
		if t.closed && t.Log != nil {
			t.fail("used a closed handle")
		}
		c := t.last("possum_single_stat")
		if c != nil {
			t.eq("key", c.Key, key)
			t.eq("found", ok, c.N != 0)
		}
		if !ok {
			return "no"
		}
		if c != nil {
			t.info(fi, key, c.Stat)
		} else {
			t.info(fi, key, rec.Stat{})
		}
		return fmt.Sprint(fi.Size())
	}}
}

func Put(key, val string) Op {
	return Op{Name: "PutBuf " + key, Single: true, Run: func(t *T) string {
		b := []byte(val)
		err := t.H.PutBuf(key, b)
		t.eq("buffer", string(b), val)
		if t.isClosed(err) {
			return "closed"
		}
		if c := t.last("possum_single_write_buf"); c != nil {
			t.eq("key", c.Key, key)
			t.eq("value", c.Val, val)
			t.eq("calls", len(t.calls("possum_single_write_buf")), 1)
			t.eq("failed", err != nil, c.N == math.MaxUint64)
		}
		return errText(err)
	}}
}

func List(prefix string) Op {
	return Op{Name: "ListKeys " + prefix, Single: true, Run: func(t *T) string {
		keys, err := t.H.ListKeys(prefix)
		if t.isClosed(err) {
			return "closed"
		}
		if c := t.last("possum_list_items"); c != nil {
			t.eq("prefix", c.Key, prefix)
			t.code(err, c)
			if c.Code == 0 {
				t.eq("number of keys", len(keys), len(c.Items))
				for i, it := range c.Items {
					if i < len(keys) {
						t.eq("key", keys[i], it.Key)
					}
				}
			} else {
				t.eq("number of keys", len(keys), 0)
			}
		}
		return fmt.Sprintf("%q %s", keys, errText(err))
	}}
}

func Delete(key string) Op {
	return Op{Name: "SingleDelete " + key, Single: true, Run: func(t *T) string {
		fi, err := t.H.SingleDelete(key)
		if t.isClosed(err) {
			return "closed"
		}
		if c := t.last("possum_single_delete"); c != nil {
			t.eq("key", c.Key, key)
			if c.Code == 1 {
				t.eq("error", err, nil)
			} else {
				t.code(err, c)
			}
			t.eq("found", fi.Ok, c.Code == 0)
			if fi.Ok {
				t.info(fi.Value, key, c.Stat)
			}
		}
		if fi.Ok {
			return fmt.Sprintf("%d %s", fi.Value.Size(), errText(err))
		}
		return "none " + errText(err)
	}}
}

func ReadAt(key string, off int64, n int) Op {
	return Op{Name: fmt.Sprintf("SingleReadAt %s %d %d", key, off, n), Single: true, Run: func(t *T) string {
		p := buf(n)
		got, err := t.H.SingleReadAt(key, off, p)
		if t.isClosed(err) {
			t.eq("number of bytes", got, 0)
			return "closed"
		}
		c := t.last("possum_single_read_at")
		if c != nil {
			t.eq("key", c.Key, key)
		}
		return t.read(c, p, off, got, err)
	}}
}

func Limits(max int64, punch bool) Op {
	return Op{Name: fmt.Sprintf("SetInstanceLimits %d %v", max, punch), Single: true, Run: func(t *T) string {
		var l possum.Limits
		want := uint64(math.MaxUint64)
		if max >= 0 {
			l.MaxValueLengthSum = generics.Some(uint64(max))
			want = uint64(max)
		}
		l.DisableHolePunching = !punch
		err := t.H.SetInstanceLimits(l)
		if t.isClosed(err) {
			return "closed"
		}
		c := t.last("possum_set_instance_limits")
		if c != nil {
			t.eq("limit", c.Num, want)
			t.eq("disabled", c.Flag, !punch)
		}
		return t.code(err, c)
	}}
}

func Cleanup() Op {
	return Op{Name: "CleanupSnapshots", Single: true, Run: func(t *T) string {
		err := t.H.CleanupSnapshots()
		if t.isClosed(err) {
			return "closed"
		}
		return t.code(err, t.last("possum_cleanup_snapshots"))
	}}
}

func Move(from, to string) Op {
	return Op{Name: "MovePrefix " + from + " " + to, Single: true, Run: func(t *T) string {
		err := t.H.MovePrefix([]byte(from), []byte(to))
		if t.isClosed(err) {
			return "closed"
		}
		c := t.last("possum_handle_move_prefix")
		if c != nil {
			t.eq("from", c.Key, from)
			t.eq("to", c.Val, to)
		}
		return t.code(err, c)
	}}
}

func DeletePrefix(p string) Op {
	return Op{Name: "DeletePrefix " + p, Single: true, Run: func(t *T) string {
		err := t.H.DeletePrefix([]byte(p))
		if t.isClosed(err) {
			return "closed"
		}
		c := t.last("possum_handle_delete_prefix")
		if c != nil {
			t.eq("prefix", c.Key, p)
		}
		return t.code(err, c)
	}}
}

// Reader adds keys, takes a snapshot and reads. With middle, that runs between the snapshot and the
// reads.
func Reader(keys []string, list bool, middle *Op, viaClose bool) Op {
	name := fmt.Sprintf("Reader %q", keys)
	if list {
		name += " list"
	}
	if middle != nil {
		name += " (" + middle.Name + ")"
	}
	if viaClose {
		name += " close"
	}
	return Op{Name: name, Run: func(t *T) string {
		r, err := t.H.NewReader()
		if t.isClosed(err) {
			return "closed"
		}
		obs := t.code(err, t.last("possum_reader_new"))
		if err != nil {
			return obs
		}
		end := func() {
			if viaClose {
				t.eq("error", r.Close(), nil)
			} else {
				r.End()
			}
		}
		if list {
			items, err := r.ListItems("")
			c := t.last("possum_reader_list_items")
			obs += " list " + t.code(err, c)
			for i, it := range items {
				obs += fmt.Sprintf(" %q:%d", it.Key, it.Size())
				if c != nil && i < len(c.Items) {
					t.eq("key", it.Key, c.Items[i].Key)
					t.eq("size", it.Size(), int64(c.Items[i].Size))
					if !it.LastUsed().Equal(c.Items[i].Time()) {
						t.fail("time is %v, should be %v", it.LastUsed(), c.Items[i].Time())
					}
				}
			}
			if c != nil {
				t.eq("number of items", len(items), len(c.Items))
			}
		}
		type val struct {
			key string
			v   possum.Value
			o   uintptr
		}
		var vals []val
		for _, k := range keys {
			v, err := r.Add(k)
			c := t.last("possum_reader_add")
			obs += " add " + t.code(err, c)
			if c != nil {
				t.eq("key", c.Key, k)
			}
			if err == nil {
				x := val{k, v, 0}
				if c != nil {
					x.o = c.OutObj
				}
				vals = append(vals, x)
			}
		}
		if len(keys) == 0 {
			end()
			return obs
		}
		err = r.Begin()
		obs += " begin " + t.code(err, t.last("possum_reader_begin"))
		if err != nil {
			end()
			return obs
		}
		if middle != nil {
			obs += " [" + t.Do(*middle) + "]"
		}
		for _, x := range vals {
			for _, q := range []struct {
				off int64
				n   int
			}{{0, 4}, {1, 64}, {64, 2}, {0, 0}} {
				p := buf(q.n)
				n, err := x.v.ReadAt(p, q.off)
				c := t.last("possum_value_read_at")
				if c != nil {
					t.eq("value", c.Obj, x.o)
				}
				obs += " " + t.read(c, p, q.off, n, err)
			}
			fi := x.v.Stat()
			c := t.last("possum_value_stat")
			if c != nil {
				t.eq("value", c.Obj, x.o)
				t.info(fi, x.key, c.Stat)
			} else {
				t.info(fi, x.key, rec.Stat{})
			}
			obs += fmt.Sprint(" size ", fi.Size())
		}
		end()
		return obs
	}}
}

// Writer stages values, each in parts through files of its own, and commits them.
func Writer(vals map[string][]string, order []string, middle *Op) Op {
	name := fmt.Sprintf("Writer %q", order)
	if middle != nil {
		name += " (" + middle.Name + ")"
	}
	return Op{Name: name, Run: func(t *T) string {
		w, err := t.H.NewWriter()
		if t.isClosed(err) {
			return "closed"
		}
		if err != nil {
			t.fail("NewWriter: %v", err)
			return "error"
		}
		obs := ""
		var wo uintptr
		if c := t.last("possum_new_writer"); c != nil {
			wo = c.OutObj
		}
		for _, key := range order {
			vw, err := w.StartNewValue()
			c := t.last("possum_start_new_value")
			obs += " start " + t.code(err, c)
			if err != nil {
				continue
			}
			if c != nil {
				t.eq("writer", c.Obj, wo)
			}
			all := ""
			for _, part := range vals[key] {
				f, err := vw.NewFile(key)
				if err != nil {
					t.fail("NewFile: %v", err)
					continue
				}
				t.eq("name", f.Name(), key)
				if _, err := f.Write([]byte(part)); err != nil {
					t.fail("writing: %v", err)
				}
				all += part
			}
			if middle != nil {
				obs += " [" + t.Do(*middle) + "]"
			}
			err = w.Stage([]byte(key), vw)
			s := t.last("possum_writer_stage")
			obs += " stage " + t.code(err, s)
			if s != nil {
				t.eq("writer", s.Obj, wo)
				t.eq("value", s.Obj2, c.OutObj)
				t.eq("key", s.Key, key)
				t.eq("value", s.Out, all)
			}
		}
		err = w.Commit()
		c := t.last("possum_writer_commit")
		if c != nil {
			t.eq("writer", c.Obj, wo)
		}
		return obs + " commit " + t.code(err, c)
	}}
}

// Rename reads a value and gives it a new key.
func Rename(key, to string) Op {
	return Op{Name: "Rename " + key + " " + to, Run: func(t *T) string {
		r, err := t.H.NewReader()
		if t.isClosed(err) {
			return "closed"
		}
		obs := t.code(err, t.last("possum_reader_new"))
		if err != nil {
			return obs
		}
		v, err := r.Add(key)
		c := t.last("possum_reader_add")
		obs += " " + t.code(err, c)
		if err != nil {
			r.End()
			return obs
		}
		err = r.Begin()
		obs += " " + t.code(err, t.last("possum_reader_begin"))
		if err != nil {
			r.End()
			return obs
		}
		// Another operation on the handle, which may have been closed meanwhile.
		u := *t
		u.closed = t.CloseDone
		if t.Log != nil {
			u.from = len(t.Log())
		}
		w, err := t.H.NewWriter()
		if u.isClosed(err) {
			r.End()
			return obs + " closed"
		}
		w.Rename(v, []byte(to))
		if x := u.last("possum_writer_rename"); x != nil {
			t.eq("value", x.Obj2, c.OutObj)
			t.eq("writer", x.Obj, u.last("possum_new_writer").OutObj)
			t.eq("key", x.Key, to)
		}
		err = w.Commit()
		obs += " " + u.code(err, u.last("possum_writer_commit"))
		r.End()
		return obs
	}}
}

func (t *T) instance(key string) interface {
	Get() (io.ReadCloser, error)
	Put(io.Reader) error
	Stat() (os.FileInfo, error)
	ReadAt([]byte, int64) (int, error)
	Delete() error
} {
	i, err := possumResource.Provider{Handle: t.H}.NewInstance(key)
	if err != nil {
		t.fail("NewInstance: %v", err)
	}
	return i
}

// ResGet reads a resource.
func ResGet(key string, middle *Op) Op {
	name := "resource Get " + key
	if middle != nil {
		name += " (" + middle.Name + ")"
	}
	return Op{Name: name, Run: func(t *T) string {
		rc, err := t.instance(key).Get()
		if t.isClosed(err) {
			return "closed"
		}
		if err != nil {
			if l := t.calls(""); len(l) > 0 {
				failed := l[0]
				for _, c := range l {
					if c.Code != 0 {
						failed = c
					}
				}
				t.code(err, failed)
			}
			return errText(err)
		}
		obs := ""
		if middle != nil {
			obs += " [" + t.Do(*middle) + "]"
		}
		b, err := io.ReadAll(rc)
		want := ""
		for _, c := range t.calls("possum_value_read_at") {
			if c.Code != 0 {
				t.code(err, c)
			} else {
				want += c.Out
			}
		}
		if t.Log != nil {
			t.eq("bytes", string(b), want)
			a := t.last("possum_reader_add")
			if a != nil {
				t.eq("key", a.Key, key)
			}
			if s := t.calls("possum_value_stat"); err == nil && len(s) > 0 {
				t.eq("size", uint64(len(b)), s[len(s)-1].Stat.Size)
			}
		}
		obs += fmt.Sprintf(" %q %s", b, errText(err))
		t.eq("error of Close", rc.Close(), nil)
		return obs
	}}
}

// source is a reader that gives data in pieces and may fail.
type source struct {
	parts []string
	err   error
}

var errSource = errors.New("source failed")

func (s *source) Read(p []byte) (int, error) {
	if len(s.parts) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := copy(p, s.parts[0])
	if s.parts[0] = s.parts[0][n:]; s.parts[0] == "" {
		s.parts = s.parts[1:]
	}
	return n, nil
}

// ResPut writes a resource.
func ResPut(key string, fails bool, parts ...string) Op {
	name := fmt.Sprintf("resource Put %s %q", key, parts)
	if fails {
		name += " failing"
	}
	return Op{Name: name, Run: func(t *T) string {
		src := &source{parts: append([]string(nil), parts...)}
		if fails {
			src.err = errSource
		}
		err := t.instance(key).Put(src)
		if t.isClosed(err) {
			return "closed"
		}
		if t.Log == nil {
			return errText(err)
		}
		var bad *rec.Call
		staged := false
		for _, c := range t.calls("") {
			if c.Code != 0 && bad == nil {
				bad = c
			}
			if c.Fn == "possum_writer_stage" {
				staged = true
				t.eq("key", c.Key, key)
				t.eq("value", c.Out, strings.Join(parts, ""))
			}
		}
		if len(t.calls("possum_start_new_value")) > 0 && !staged {
			t.LostValue = true
		}
		switch {
		case fails && (bad == nil || bad.Fn == "possum_writer_commit"):
			if !errors.Is(err, errSource) {
				t.fail("the source failed and the error is %v", err)
			}
			if staged {
				t.fail("the source failed and its data was staged")
			}
		case bad != nil:
			t.code(err, bad)
		default:
			t.eq("error", err, nil)
			if !staged {
				t.fail("nothing was stored")
			}
		}
		return errText(err)
	}}
}

func ResStat(key string) Op {
	return Op{Name: "resource Stat " + key, Single: true, Run: func(t *T) string {
		fi, err := t.instance(key).Stat()
		if t.Log != nil && len(t.calls("")) == 0 {
			if err == nil || !t.CloseStarted {
				t.fail("%v without asking the library", err)
			}
			return "no such key"
		}
		if t.closed && t.Log != nil {
			t.fail("used a closed handle")
		}
		c := t.last("possum_single_stat")
		if c != nil {
			t.eq("key", c.Key, key)
			t.eq("found", err == nil, c.N != 0)
		}
		if err != nil {
			if !errors.Is(err, fs.ErrNotExist) {
				t.fail("nothing was found and the error is %v", err)
			}
			return errText(err)
		}
		if c != nil {
			t.info(fi, key, c.Stat)
		} else {
			t.info(fi, key, rec.Stat{})
		}
		return fmt.Sprint(fi.Size())
	}}
}

func ResReadAt(key string, off int64, n int) Op {
	return Op{Name: fmt.Sprintf("resource ReadAt %s %d %d", key, off, n), Single: true, Run: func(t *T) string {
		p := buf(n)
		got, err := t.instance(key).ReadAt(p, off)
		if t.isClosed(err) {
			t.eq("number of bytes", got, 0)
			return "closed"
		}
		c := t.last("possum_single_read_at")
		if c != nil {
			t.eq("key", c.Key, key)
		}
		return t.read(c, p, off, got, err)
	}}
}

func ResDelete(key string) Op {
	return Op{Name: "resource Delete " + key, Single: true, Run: func(t *T) string {
		err := t.instance(key).Delete()
		if t.isClosed(err) {
			return "closed"
		}
		c := t.last("possum_single_delete")
		if c != nil {
			t.eq("key", c.Key, key)
			if c.Code == 1 {
				if !errors.Is(err, fs.ErrNotExist) {
					t.fail("nothing was deleted and the error is %v", err)
				}
			} else {
				t.code(err, c)
			}
		}
		return errText(err)
	}}
}

func ResNames(key string) Op {
	return Op{Name: "resource Readdirnames " + key, Single: true, Run: func(t *T) string {
		d, ok := t.instance(key).(interface{ Readdirnames() ([]string, error) })
		if !ok {
			t.fail("is no directory")
			return ""
		}
		names, err := d.Readdirnames()
		if t.isClosed(err) {
			return "closed"
		}
		if c := t.last("possum_list_items"); c != nil {
			t.eq("prefix", c.Key, key+"/")
			t.code(err, c)
			if c.Code == 0 {
				t.eq("number of names", len(names), len(c.Items))
				for i, it := range c.Items {
					if i < len(names) {
						t.eq("name", names[i], it.Key)
					}
				}
			}
		}
		return fmt.Sprintf("%q %s", names, errText(err))
	}}
}

func ResDeletePrefix(p string) Op {
	return Op{Name: "resource DeletePrefix " + p, Single: true, Run: func(t *T) string {
		err := possumResource.Provider{Handle: t.H}.DeletePrefix(p)
		if t.isClosed(err) {
			return "closed"
		}
		c := t.last("possum_handle_delete_prefix")
		if c != nil {
			t.eq("prefix", c.Key, p)
		}
		return t.code(err, c)
	}}
}

// Second opens the directory a second time, stores and reads, and closes it.
func Second() Op {
	return Op{Name: "Open again", Run: func(t *T) string {
		h, err := possum.Open(t.Dir)
		if c := t.last("possum_new"); c != nil {
			t.eq("directory", c.Key, t.Dir)
			if (c.OutObj == 0) != (err != nil) || (err == nil) != (h != nil) {
				t.fail("the library returned %#x, Open %v %v", c.OutObj, h, err)
			}
		}
		if err != nil {
			return "error"
		}
		e := &Env{H: h, Dir: t.Dir, Log: t.Log}
		obs := e.Do(Put("second", "2")) + e.Do(ReadAt("second", 0, 1)) + e.Do(Close()) + e.Do(Close()) + e.Do(Delete("second"))
		t.Errs = append(t.Errs, e.Errs...)
		return obs
	}}
}
