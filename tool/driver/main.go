// Command driver executes recorded calls on the real crunch packages and
// reports what they did.  It reads one JSON run per line and writes one JSON
// result per line.  The file pkgs.go, generated next to it for every check,
// registers the packages.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type pkg struct {
	newBuffer     interface{}
	newMiniBuffer interface{}
	errs          map[string]interface{}
}

// how far the current run got
var stage atomic.Value

// results of the run's calls so far, so that their memory is not used again
var kept []reflect.Value

// how long a run may take before it counts as not returning
var patience = 5 * time.Second

var pkgs = map[string]pkg{}

type arg struct {
	K string          `json:"k"`
	V json.RawMessage `json:"v"`
	P []int           `json:"p"`
	T string          `json:"t"`
}

type call struct {
	Fn   string `json:"fn"`
	Args []arg  `json:"args"`
}

type run struct {
	ID     int     `json:"id"`
	Pkg    string  `json:"pkg"`
	Recv   string  `json:"recv"`
	Arena  string  `json:"arena"`
	Far    int     `json:"far"` // zero bytes in front of it
	Buf    []int   `json:"buf"`
	Off    *int64  `json:"off"`
	Cap    *int64  `json:"cap"`
	Boff   *int64  `json:"boff"`
	Bcap   *int64  `json:"bcap"`
	Calls  []call  `json:"calls"`
	Ctor   string  `json:"ctor"`
	Slices [][]int `json:"slices"`
	Mode   string  `json:"mode"`
}

type snap struct {
	Arena string `json:"arena"`
	// of a large arena, the bytes that are not zero
	Nz    [][2]int `json:"nz,omitempty"`
	Ptr   uint64   `json:"ptr"`
	Start int      `json:"start"` // of the buffer in the arena, -1 when elsewhere
	Len   int      `json:"len"`
	Scap  int      `json:"scap"`
	Bytes string   `json:"bytes"`
	Off   int64    `json:"off"`
	Cap   int64    `json:"cap"`
	Boff  int64    `json:"boff"`
	Bcap  int64    `json:"bcap"`
}

type pan struct {
	K     string   `json:"k"` // err, rt, other
	Names []string `json:"names"`
	S     string   `json:"s"`
}

type val struct {
	K   string      `json:"k"` // i b s nil
	T   string      `json:"t,omitempty"`
	V   interface{} `json:"v,omitempty"`
	Ptr uint64      `json:"ptr,omitempty"`
	Len int         `json:"len"`
	Cap int         `json:"cap"`
	Dyn string      `json:"dyn,omitempty"`
}

type cres struct {
	Panic  *pan  `json:"panic"`
	Ret    *val  `json:"ret"`
	Args   []val `json:"args"`
	Out    *val  `json:"out"`
	OutPre *val  `json:"outpre"`
	Post   snap  `json:"post"`
	Locked bool  `json:"locked"`
	Unlkd  bool  `json:"unlocked_write"`
	Stuck  bool  `json:"stuck"`
	Swap   *snap `json:"swap,omitempty"` // the state in which the call got the lock
	// another goroutine had the lock right after the call first released it
	Mid0 *snap `json:"mid0,omitempty"`
	Mid1 *snap `json:"mid1,omitempty"`
}

type rres struct {
	ID      int    `json:"id"`
	Pre     snap   `json:"pre"`
	Calls   []cres `json:"calls"`
	Base    uint64 `json:"base"`
	Err     string `json:"err,omitempty"`
	Timeout bool   `json:"timeout"`
	Stage   string `json:"stage,omitempty"`
	Errs    string `json:"errs,omitempty"` // an exported error that was reassigned
}

func ptrOf(b []byte) uint64 { return uint64(uintptr(unsafe.Pointer(unsafe.SliceData(b)))) }

func field(obj reflect.Value, name string) (reflect.Value, bool) {
	f := obj.Elem().FieldByName(name)
	if !f.IsValid() {
		return f, false
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), true
}

func query(obj reflect.Value, names ...string) int64 {
	for _, n := range names {
		m := obj.MethodByName(n)
		if !m.IsValid() {
			continue
		}
		if m.Type().NumIn() == 1 {
			var x int64
			m.Call([]reflect.Value{reflect.ValueOf(&x)})
			return x
		}
		return m.Call(nil)[0].Int()
	}
	panic("no accessor " + names[0])
}

func getInt(obj reflect.Value, name string, alt ...string) int64 {
	if f, ok := field(obj, name); ok && f.Kind() == reflect.Int64 {
		return f.Int()
	}
	return query(obj, alt...)
}

func setInt(obj reflect.Value, name string, v *int64) {
	if f, ok := field(obj, name); ok && f.Kind() == reflect.Int64 {
		f.SetInt(*v)
	}
}

func seekTo(obj reflect.Value, off, boff *int64) {
	defer func() { recover() }()
	for _, x := range []struct {
		v     *int64
		names []string
	}{{off, []string{"SeekByte", "Seek"}}, {boff, []string{"SeekBit"}}} {
		if x.v == nil || *x.v == 0 {
			continue
		}
		for _, n := range x.names {
			if m := obj.MethodByName(n); m.IsValid() {
				m.Call([]reflect.Value{reflect.ValueOf(*x.v), reflect.ValueOf(false)})
				break
			}
		}
	}
}

func bufBytes(obj reflect.Value) []byte {
	if f, ok := field(obj, "buf"); ok && f.Type() == reflect.TypeOf([]byte(nil)) {
		return f.Bytes()
	}
	m := obj.MethodByName("Bytes")
	if m.Type().NumIn() == 1 {
		var x []byte
		m.Call([]reflect.Value{reflect.ValueOf(&x)})
		return x
	}
	return m.Call(nil)[0].Bytes()
}

func snapshot(obj reflect.Value, arena []byte) (s snap) {
	if len(arena) < 1<<27 {
		s.Arena = hex.EncodeToString(arena)
	} else {
		s.Nz = nonzero(arena)
	}
	if !obj.IsValid() || obj.IsNil() {
		s.Start = -2
		return
	}
	b := bufBytes(obj)
	s.Ptr, s.Len, s.Scap = ptrOf(b), len(b), cap(b)
	s.Start = -1
	if base := ptrOf(arena); cap(b) > 0 && s.Ptr >= base && s.Ptr < base+uint64(len(arena)) {
		s.Start = int(s.Ptr - base)
	}
	if len(b) <= 1<<20 {
		s.Bytes = hex.EncodeToString(b)
	}
	s.Off = getInt(obj, "off", "Offset", "ByteOffset")
	s.Boff = getInt(obj, "boff", "BitOffset")
	s.Cap = getInt(obj, "cap", "Capacity", "ByteCapacity")
	s.Bcap = getInt(obj, "bcap", "BitCapacity")
	return
}

// nonzero lists the bytes of b that are not zero, as long as they are few
func nonzero(b []byte) (out [][2]int) {
	out = [][2]int{}
	const k = 1 << 12
	zero := make([]byte, k)
	for i := 0; i < len(b); i += k {
		e := i + k
		if e > len(b) {
			e = len(b)
		}
		if bytes.Equal(b[i:e], zero[:e-i]) {
			continue
		}
		for j := i; j < e; j++ {
			if b[j] != 0 {
				out = append(out, [2]int{j, int(b[j])})
			}
		}
		if len(out) > 1<<16 {
			return nil
		}
	}
	return
}

func elems(v reflect.Value) interface{} {
	out := make([]json.Number, v.Len())
	for i := range out {
		e := v.Index(i)
		var u uint64
		switch e.Kind() {
		case reflect.Float32:
			// not e.Float(): the conversion would quieten NaNs
			u = uint64(*(*uint32)(unsafe.Pointer(e.UnsafeAddr())))
		case reflect.Float64:
			u = *(*uint64)(unsafe.Pointer(e.UnsafeAddr()))
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			w := uint(e.Type().Bits())
			u = uint64(e.Int())
			if w < 64 {
				u &= 1<<w - 1
			}
		default:
			u = e.Uint()
		}
		out[i] = json.Number(strconv.FormatUint(u, 10))
	}
	return out
}

func show(v reflect.Value) val {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return val{K: "nil"}
		}
		x := show(v.Elem())
		x.Dyn = v.Elem().Type().String()
		return x
	case reflect.Slice:
		x := val{K: "s", T: v.Type().Elem().String(), Len: v.Len(), Cap: v.Cap()}
		if v.Cap() > 0 {
			x.Ptr = uint64(v.Pointer())
		}
		if v.Len() <= 1<<17 {
			x.V = elems(v)
		}
		return x
	case reflect.Bool:
		return val{K: "b", V: v.Bool()}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return val{K: "i", V: json.Number(strconv.FormatInt(v.Int(), 10))}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return val{K: "i", V: json.Number(strconv.FormatUint(v.Uint(), 10))}
	case reflect.Ptr:
		if v.IsNil() {
			return val{K: "nil"}
		}
		return show(v.Elem())
	}
	return val{K: "other", T: v.Kind().String()}
}

var elemTypes = map[string]reflect.Type{
	"uint8": reflect.TypeOf(uint8(0)), "int8": reflect.TypeOf(int8(0)),
	"uint16": reflect.TypeOf(uint16(0)), "int16": reflect.TypeOf(int16(0)),
	"uint32": reflect.TypeOf(uint32(0)), "int32": reflect.TypeOf(int32(0)),
	"uint64": reflect.TypeOf(uint64(0)), "int64": reflect.TypeOf(int64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
}

func num(r json.RawMessage) (u uint64) {
	s := string(r)
	if len(s) > 0 && s[0] == '-' {
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return uint64(i)
	}
	u, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return
}

func mkSlice(t string, raw json.RawMessage) reflect.Value {
	var vs []json.RawMessage
	if len(raw) > 0 {
		if err := json.Unmarshal(raw, &vs); err != nil {
			panic(err)
		}
	}
	et := elemTypes[t]
	s := reflect.MakeSlice(reflect.SliceOf(et), len(vs), len(vs))
	for i, r := range vs {
		u := num(r)
		p := unsafe.Pointer(s.Index(i).UnsafeAddr())
		switch et.Size() {
		case 1:
			*(*uint8)(p) = uint8(u)
		case 2:
			*(*uint16)(p) = uint16(u)
		case 4:
			*(*uint32)(p) = uint32(u)
		case 8:
			*(*uint64)(p) = u
		}
	}
	return s
}

func sub(arena []byte, p []int) []byte { return arena[p[0] : p[0]+p[1] : p[0]+p[2]] }

// mkArg builds the value of one argument of type t
func mkArg(a arg, t reflect.Type, arena []byte) reflect.Value {
	if t.Kind() == reflect.Ptr {
		v := reflect.New(t.Elem())
		if a.K != "nil" {
			v.Elem().Set(mkArg(a, t.Elem(), arena))
		} else {
			switch t.Elem().Kind() {
			case reflect.Uint8, reflect.Uint64:
				v.Elem().SetUint(0xA5)
			case reflect.Int64:
				v.Elem().SetInt(-0x1234567)
			}
		}
		return v
	}
	switch a.K {
	case "i":
		u := num(a.V)
		v := reflect.New(t).Elem()
		switch v.Kind() {
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
			v.SetInt(int64(u))
		default:
			v.SetUint(u)
		}
		return v
	case "b":
		return reflect.ValueOf(string(a.V) == "true")
	case "as":
		return reflect.ValueOf(sub(arena, a.P))
	case "s":
		return mkSlice(a.T, a.V)
	case "bo":
		switch string(a.V) {
		case `"LE"`:
			return reflect.ValueOf(binary.LittleEndian)
		case `"PANIC"`:
			return reflect.ValueOf(ownOrder{binary.LittleEndian, true})
		case `"OWN"`:
			return reflect.ValueOf(ownOrder{binary.LittleEndian, false})
		}
		return reflect.ValueOf(binary.BigEndian)
	case "str":
		return reflect.ValueOf("not a slice")
	}
	return reflect.Zero(t)
}

// ownOrder is a byte order of the caller's own
type ownOrder struct {
	binary.ByteOrder
	fail bool
}

func (o ownOrder) check() {
	if o.fail {
		panic("the caller's own byte order")
	}
}

func (o ownOrder) Uint16(b []byte) uint16       { o.check(); return 0x1234 }
func (o ownOrder) Uint32(b []byte) uint32       { o.check(); return 0x12345678 }
func (o ownOrder) Uint64(b []byte) uint64       { o.check(); return 1 }
func (o ownOrder) PutUint16(b []byte, v uint16) { o.check(); b[0] = 7 }
func (o ownOrder) PutUint32(b []byte, v uint32) { o.check(); b[0] = 7 }
func (o ownOrder) PutUint64(b []byte, v uint64) { o.check(); b[0] = 7 }

type rlocker interface {
	RLock()
	RUnlock()
}

type locker interface {
	TryLock() bool
	Lock()
	Unlock()
}

func describe(p pkg, r interface{}) *pan {
	if e, ok := r.(runtime.Error); ok {
		return &pan{K: "rt", S: e.Error()}
	}
	x := &pan{K: "other", S: fmt.Sprintf("%T %v", r, r)}
	func() {
		defer func() { recover() }()
		for n, e := range p.errs {
			if e == r {
				x.K = "err"
				x.Names = append(x.Names, n)
			}
		}
	}()
	sort.Strings(x.Names)
	return x
}

func doCall(p pkg, obj reflect.Value, arena []byte, c call, mode string) (res cres) {
	m := obj.MethodByName(c.Fn)
	if !m.IsValid() {
		panic("no method " + c.Fn)
	}
	t := m.Type()
	if t.NumIn() != len(c.Args) {
		panic(fmt.Sprintf("%s takes %d arguments", c.Fn, t.NumIn()))
	}
	in := make([]reflect.Value, len(c.Args))
	for i, a := range c.Args {
		in[i] = mkArg(a, t.In(i), arena)
	}
	for i := range in {
		if t.In(i).Kind() == reflect.Ptr {
			x := show(in[i].Elem())
			res.OutPre = &x
		}
	}
	lk, isLk := obj.Interface().(locker)
	invoke := func() {
		defer func() {
			if r := recover(); r != nil {
				res.Panic = describe(p, r)
			}
		}()
		var out []reflect.Value
		if t.IsVariadic() {
			out = m.CallSlice(in)
		} else {
			out = m.Call(in)
		}
		if len(out) > 0 {
			kept = append(kept, out[0])
			x := show(out[0])
			res.Ret = &x
		}
	}
	if mode == "relay" && isLk && relay(obj, arena, lk, invoke, &res) {
		return
	}
	if res.Mid0 != nil {
		// done
	} else if strings.HasPrefix(mode, "swap") && isLk {
		// while the call waits for the lock, its holder changes the buffer
		lk.Lock()
		done := make(chan bool)
		go func() { invoke(); close(done) }()
		select {
		case <-done:
		case <-time.After(4 * time.Millisecond):
		}
		change(obj, mode == "swapgrow")
		at := snapshot(obj, arena)
		res.Swap = &at
		func() {
			defer func() { recover() }()
			lk.Unlock()
		}()
		select {
		case <-done:
		case <-time.After(patience - time.Second):
			res.Stuck = true
			return
		}
	} else if strings.HasSuffix(mode, "locked") && isLk {
		// the test holds the lock: nothing may change until it lets go
		before := snapshot(obj, arena)
		lock, unlock := lk.Lock, lk.Unlock
		if r, ok := obj.Interface().(rlocker); ok && mode == "rlocked" {
			lock, unlock = r.RLock, r.RUnlock
		}
		lock()
		done := make(chan bool)
		go func() { invoke(); close(done) }()
		select {
		case <-done:
		case <-time.After(4 * time.Millisecond):
		}
		mid := snapshot(obj, arena)
		if !reflect.DeepEqual(before, mid) {
			res.Unlkd = true
		}
		func() {
			defer func() { recover() }()
			unlock()
		}()
		select {
		case <-done:
		case <-time.After(patience - time.Second):
			res.Stuck = true
			return
		}
	} else {
		invoke()
	}
	for i := range in {
		if t.In(i).Kind() == reflect.Ptr && !in[i].IsNil() {
			x := show(in[i].Elem())
			res.Out = &x
			res.Args = append(res.Args, val{K: "nil"})
			continue
		}
		if t.In(i).Kind() == reflect.Interface && c.Args[i].K != "s" && c.Args[i].K != "as" {
			res.Args = append(res.Args, val{K: "nil"})
			continue
		}
		res.Args = append(res.Args, show(in[i]))
	}
	if isLk {
		if lk.TryLock() {
			lk.Unlock()
		} else {
			res.Locked = true
			// let the rest of the run go on
			func() {
				defer func() { recover() }()
				lk.Unlock()
			}()
		}
	}
	res.Post = snapshot(obj, arena)
	return
}

// relay lets three goroutines have the lock in turn: one that changes the
// buffer, the call, and one that changes the buffer again, so that it does so
// between two critical sections of the call if there are two.  sync.Mutex
// passes the lock from one waiter to the next once a waiter has starved.
func relay(obj reflect.Value, arena []byte, lk locker, invoke func(), res *cres) bool {
	mu := false
	for i := 0; i < obj.Elem().NumField(); i++ {
		mu = mu || obj.Elem().Field(i).Type() == reflect.TypeOf(sync.Mutex{})
	}
	if !mu {
		return false
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	var at, mid0, mid1 snap
	const d = 2 * time.Millisecond
	first, call, second := make(chan bool), make(chan bool), make(chan bool)
	lk.Lock()
	go func() {
		lk.Lock()
		change(obj, false)
		at = snapshot(obj, arena)
		lk.Unlock()
		close(first)
	}()
	time.Sleep(d)
	lk.Unlock()
	lk.Lock()
	time.Sleep(d)
	go func() { invoke(); close(call) }()
	time.Sleep(d)
	go func() {
		lk.Lock()
		mid0 = snapshot(obj, arena)
		time.Sleep(d / 2)
		change(obj, true)
		mid1 = snapshot(obj, arena)
		lk.Unlock()
		close(second)
	}()
	time.Sleep(d)
	func() {
		defer func() { recover() }()
		lk.Unlock()
	}()
	for _, c := range []chan bool{first, call, second} {
		select {
		case <-c:
		case <-time.After(patience - time.Second):
			res.Stuck = true
			return true
		}
	}
	res.Swap, res.Mid0, res.Mid1 = &at, &mid0, &mid1
	return false
}

// change does what another goroutine may do to a buffer whose lock it holds
func change(obj reflect.Value, grow bool) {
	f, ok := field(obj, "buf")
	if !ok || f.Type() != reflect.TypeOf([]byte(nil)) {
		return
	}
	b := f.Bytes()
	if grow {
		b = append(append(make([]byte, 0, len(b)+9), b...), 1, 2, 3, 4, 5)
		f.SetBytes(b)
		l := int64(len(b))
		l8 := l * 8
		setInt(obj, "cap", &l)
		setInt(obj, "bcap", &l8)
	}
	for i := range b {
		b[i] ^= byte(0x5a + i)
	}
	for n, d := range map[string]int64{"off": 3, "boff": 11} {
		if v, ok := field(obj, n); ok && v.Kind() == reflect.Int64 {
			v.SetInt(v.Int() + d)
		}
	}
}

func construct(p pkg, recv string, slices [][]byte) reflect.Value {
	if recv == "Buffer" {
		return reflect.ValueOf(p.newBuffer).CallSlice([]reflect.Value{reflect.ValueOf(slices)})[0]
	}
	f := reflect.ValueOf(p.newMiniBuffer)
	o := reflect.New(f.Type().In(0).Elem())
	f.CallSlice([]reflect.Value{o, reflect.ValueOf(slices)})
	return o.Elem()
}

func doRun(r run) (res rres) {
	res.ID = r.ID
	kept = nil
	defer func() {
		if x := recover(); x != nil {
			res.Err = fmt.Sprint(x)
		}
	}()
	p := pkgs[r.Pkg]
	raw, err := hex.DecodeString(r.Arena)
	if err != nil {
		panic(err)
	}
	var arena []byte
	if r.Far > 0 {
		arena, err = syscall.Mmap(-1, 0, r.Far+len(raw), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			res.Err = "mmap: " + err.Error()
			return
		}
		defer syscall.Munmap(arena)
	} else {
		arena = make([]byte, len(raw))
	}
	copy(arena[r.Far:], raw)
	res.Base = ptrOf(arena)
	if r.Ctor != "" {
		stage.Store("call")
		var ss [][]byte
		for _, s := range r.Slices {
			ss = append(ss, sub(arena, s))
		}
		var c cres
		var obj reflect.Value
		func() {
			defer func() {
				if x := recover(); x != nil {
					c.Panic = describe(p, x)
				}
			}()
			obj = construct(p, map[string]string{"NewBuffer": "Buffer", "NewMiniBuffer": "MiniBuffer"}[r.Ctor], ss)
		}()
		if c.Panic == nil {
			c.Post = snapshot(obj, arena)
			if lk, ok := obj.Interface().(locker); ok && !lk.TryLock() {
				c.Locked = true
			}
		} else {
			c.Post = snapshot(reflect.Value{}, arena)
		}
		res.Calls = append(res.Calls, c)
		return
	}
	// the state is reached through the constructor and the seeks; only where
	// those are themselves wrong are the fields set directly
	b := sub(arena, r.Buf)
	obj := construct(p, r.Recv, [][]byte{b})
	l := int64(len(b))
	l8 := l * 8
	seekTo(obj, r.Off, r.Boff)
	at := snapshot(obj, arena)
	copy(arena[r.Far:], raw)
	want := func(p *int64) int64 {
		if p == nil {
			return 0
		}
		return *p
	}
	if at.Ptr != ptrOf(b) || at.Len != len(b) || at.Scap != cap(b) {
		if f, ok := field(obj, "buf"); ok && f.Type() == reflect.TypeOf([]byte(nil)) {
			f.SetBytes(b)
		}
	}
	if r.Cap != nil || at.Cap != l || at.Bcap != l8 {
		if r.Cap == nil {
			r.Cap, r.Bcap = &l, &l8
		}
		setInt(obj, "cap", r.Cap)
		setInt(obj, "bcap", r.Bcap)
	}
	if at.Off != want(r.Off) || at.Boff != want(r.Boff) {
		o, bo := want(r.Off), want(r.Boff)
		setInt(obj, "off", &o)
		setInt(obj, "boff", &bo)
	}
	stage.Store("call")
	res.Pre = snapshot(obj, arena)
	for _, c := range r.Calls {
		res.Calls = append(res.Calls, doCall(p, obj, arena, c, r.Mode))
	}
	return
}

func main() {
	_ = math.Pi
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	if len(os.Args) > 1 && os.Args[1] == "errors" {
		errorsReport(out)
		return
	}
	if n, err := strconv.Atoi(os.Getenv("DRV_PATIENCE")); err == nil {
		patience = time.Duration(n) * time.Second
	}
	for t := range pkgs {
		errs0[t] = map[string]interface{}{}
		for n, p := range perrs[t] {
			errs0[t][n] = reflect.ValueOf(p).Elem().Interface()
		}
	}
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	stuck := 0
	for {
		var r run
		if err := dec.Decode(&r); err != nil {
			return
		}
		// announce, so that a crash can be attributed
		fmt.Fprintf(out, "{\"at\":%d}\n", r.ID)
		out.Flush()
		stage.Store("setup")
		ch := make(chan rres, 1)
		go func() { ch <- doRun(r) }()
		var res rres
		select {
		case res = <-ch:
		case <-time.After(patience):
			st, _ := stage.Load().(string)
			res = rres{ID: r.ID, Timeout: true, Stage: st}
			stuck++
		}
		if !res.Timeout {
			res.Errs = errsChanged(r.Pkg)
		}
		if err := enc.Encode(res); err != nil {
			return
		}
		if stuck >= 2 {
			out.Flush()
			os.Exit(3)
		}
	}
}

// errsChanged names an exported error value that is not what it was when the
// program started
func errsChanged(tag string) (name string) {
	defer func() { recover() }()
	for n, p := range perrs[tag] {
		if now := reflect.ValueOf(p).Elem().Interface(); now != errs0[tag][n] {
			return n
		}
	}
	return ""
}

var perrs = map[string]map[string]interface{}{}
var errs0 = map[string]map[string]interface{}{}

// errorsReport prints every exported error value of every package with its
// text, and again after a second look, so that the values can be compared.
func errorsReport(out *bufio.Writer) {
	rep := map[string]map[string]string{}
	eq := map[string][]string{}
	for n, p := range pkgs {
		rep[n] = map[string]string{}
		for k, e := range p.errs {
			if x, ok := e.(error); ok {
				rep[n][k] = x.Error()
			} else {
				rep[n][k] = "\x00not an error"
			}
			for k2, e2 := range p.errs {
				func() {
					defer func() { recover() }()
					if k < k2 && e == e2 {
						eq[n] = append(eq[n], k+"="+k2)
					}
				}()
			}
		}
	}
	json.NewEncoder(out).Encode(map[string]interface{}{"text": rep, "equal": eq})
}
