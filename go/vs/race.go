package vs

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// Happens-before race detection on instrumented accesses, evaluated on every explored schedule.
type shadowRec struct {
	keep  unsafe.Pointer // keeps the address from being reused within the execution
	wTid  int
	wClk  uint32
	wSite string
	reads map[int]readRec
}
type readRec struct {
	clk  uint32
	site string
}

// R and W are wrapped by the instrumenter around loads and stores of shared variables.
func R[T any](p *T) *T { access(unsafe.Pointer(p), false); return p }
func W[T any](p *T) *T { access(unsafe.Pointer(p), true); return p }

// RS records a read of every field of a struct (value receiver called through a pointer).
func RS[T any](p *T) *T {
	if S != nil && !S.killing && p != nil {
		rsFields(unsafe.Pointer(p), reflect.TypeOf(*p))
	}
	return p
}

func rsFields(p unsafe.Pointer, t reflect.Type) {
	if t.Kind() != reflect.Struct {
		access(p, false)
		return
	}
	if strings.Contains(t.PkgPath(), "zzverif") {
		return
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		rsFields(unsafe.Pointer(uintptr(p)+f.Offset), f.Type)
	}
}

// RM / WM record an access to a plain map's contents.
func RM[M ~map[K]V, K comparable, V any](m M) M { accessMap(m, false); return m }
func WM[M ~map[K]V, K comparable, V any](m M) M { accessMap(m, true); return m }

func accessMap[M ~map[K]V, K comparable, V any](m M, w bool) {
	if S == nil || S.killing || m == nil {
		return
	}
	access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), w)
}

func access(p unsafe.Pointer, write bool) {
	s := S
	if s == nil || s.killing || p == nil || s.cur == nil {
		return
	}
	if len(s.threads) == 1 {
		return // single-threaded so far: everything is ordered before later threads
	}
	t := s.cur
	a := uintptr(p)
	r := s.shadow[a]
	if r == nil {
		r = &shadowRec{keep: p, wTid: -1}
		s.shadow[a] = r
	}
	site := ""
	clk := t.vc[t.ID]
	if r.wTid >= 0 && r.wTid != t.ID && r.wClk > t.vc.get(r.wTid) {
		site = caller()
		kind := "read"
		if write {
			kind = "write"
		}
		s.race(fmt.Sprintf("%s at %s races with write at %s", kind, site, r.wSite))
	}
	if write {
		for tid, rd := range r.reads {
			if tid != t.ID && rd.clk > t.vc.get(tid) {
				if site == "" {
					site = caller()
				}
				s.race(fmt.Sprintf("write at %s races with read at %s", site, rd.site))
			}
		}
		if site == "" {
			site = caller()
		}
		r.wTid, r.wClk, r.wSite = t.ID, clk, site
		r.reads = nil
	} else {
		if rd, ok := r.reads[t.ID]; ok && rd.clk == clk {
			return
		}
		if r.reads == nil {
			r.reads = map[int]readRec{}
		}
		if site == "" {
			site = caller()
		}
		r.reads[t.ID] = readRec{clk, site}
	}
}

func (s *Sched) race(msg string) {
	if !s.raceSeen[msg] {
		s.raceSeen[msg] = true
		s.Races = append(s.Races, msg)
	}
}

var callerCache = map[uintptr]string{}

func caller() string {
	var pcs [6]uintptr
	n := runtime.Callers(3, pcs[:])
	key := uintptr(0)
	for _, pc := range pcs[:n] {
		key = key*31 + pc
	}
	if v, ok := callerCache[key]; ok {
		return v
	}
	fr := runtime.CallersFrames(pcs[:n])
	res := "?"
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "zzverif/vs.") {
			res = f.Function[strings.LastIndex(f.Function, "/")+1:]
			break
		}
		if !more {
			break
		}
	}
	callerCache[key] = res
	return res
}

// WS records a write of every field of a struct.
func WS[T any](p *T) *T {
	if S != nil && !S.killing && p != nil {
		wsFields(unsafe.Pointer(p), reflect.TypeOf(*p))
	}
	return p
}

func wsFields(p unsafe.Pointer, t reflect.Type) {
	if t.Kind() != reflect.Struct {
		access(p, true)
		return
	}
	if strings.Contains(t.PkgPath(), "zzverif") {
		return
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		wsFields(unsafe.Pointer(uintptr(p)+f.Offset), f.Type)
	}
}

// ZeroKV declares loop variables with the types of a map.
func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// Elements of slices: what append, copy and range read and write.

const maxElems = 256 // of one call

func elems[E any](l []E, write bool) {
	if S == nil || S.killing || S.cur == nil || len(S.threads) == 1 {
		return
	}
	t := reflect.TypeOf((*E)(nil)).Elem()
	for i := range l {
		if i == maxElems {
			return
		}
		if p := unsafe.Pointer(&l[i]); t.Kind() != reflect.Struct {
			access(p, write)
		} else if write {
			wsFields(p, t)
		} else {
			rsFields(p, t)
		}
	}
}

// AppendTo records what appending n elements to l does to its array.
func AppendTo[L ~[]E, E any](l L, n int) L {
	if S != nil && len(S.threads) > 1 {
		if len(l)+n <= cap(l) {
			elems([]E(l[len(l):len(l)+n]), true)
		} else {
			elems([]E(l), false)
		}
	}
	return l
}

func Append[L ~[]E, M ~[]E, E any](l L, m M) L {
	elems([]E(m), false)
	return append(AppendTo(l, len(m)), m...)
}

func Copy[L ~[]E, M ~[]E, E any](l L, m M) int {
	n := len(l)
	if len(m) < n {
		n = len(m)
	}
	elems([]E(m[:n]), false)
	elems([]E(l[:n]), true)
	return copy(l, m)
}

func ReadElem[L ~[]E, E any](l L, i int) {
	if S != nil && len(S.threads) > 1 {
		elems([]E(l[i:i+1]), false)
	}
}
