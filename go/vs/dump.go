package vs

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Dump is a canonical textual form of everything reachable from v. Times are relative to the virtual
// clock; times already past all look the same only if pastEqual.
func Dump(v interface{}) string {
	var b strings.Builder
	d := dumper{b: &b, seen: map[uintptr]int{}}
	d.dump(reflect.ValueOf(v), 0)
	return b.String()
}

type dumper struct {
	b    *strings.Builder
	seen map[uintptr]int
}

var timeType = reflect.TypeOf(time.Time{})
var mapType = reflect.TypeOf(Map{})

func (d *dumper) dump(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	if depth > 40 {
		d.b.WriteString("...")
		return
	}
	v = open(v)
	t := v.Type()
	if t == timeType {
		tm := readTime(v)
		if tm.IsZero() {
			d.b.WriteString("T0")
			return
		}
		fmt.Fprintf(d.b, "T%+d", tm.Sub(Clock()))
		return
	}
	if t == mapType {
		m := (*Map)(addr(v))
		ks, vals := m.Entries()
		d.b.WriteString("SM")
		d.entries(len(ks), func(i int) string { return d.sub(ks[i], depth+1) }, func(i int) { d.b.WriteString(d.sub(vals[i], depth+1)) })
		return
	}
	if strings.Contains(t.PkgPath(), "zzverif/vs") && t.Kind() == reflect.Struct {
		switch t.Name() {
		case "Mutex", "RWMutex", "Once", "WaitGroup", "Cond":
			// idle between operations
			d.b.WriteString("_")
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok {
			fmt.Fprintf(d.b, "^%d", n)
			return
		}
		d.seen[v.Pointer()] = len(d.seen)
		d.b.WriteString("&")
		d.dump(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		e := v.Elem()
		d.b.WriteString(e.Type().String() + ":")
		d.dump(e, depth+1)
	case reflect.Struct:
		if !v.CanAddr() {
			n := reflect.New(t).Elem()
			n.Set(v)
			v = n
		}
		d.b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			d.dump(v.Field(i), depth+1)
			d.b.WriteString(";")
		}
		d.b.WriteString("}")
	case reflect.Map:
		var ks, vals []reflect.Value
		for it := v.MapRange(); it.Next(); {
			ks, vals = append(ks, it.Key()), append(vals, it.Value())
		}
		d.b.WriteString("M")
		d.entries(len(ks), func(i int) string { return d.subv(ks[i], depth+1) }, func(i int) { d.dump(vals[i], depth+1) })
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("[]")
			return
		}
		fallthrough
	case reflect.Array:
		d.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i), depth+1)
			d.b.WriteString(",")
		}
		d.b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(d.b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(d.b, "%s(%d)", v.Kind(), v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(d.b, "%s(%d)", v.Kind(), v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(d.b, "f(%v)", v.Float())
	case reflect.Chan:
		fmt.Fprintf(d.b, "chan(%d)", v.Len())
	case reflect.Func:
		fmt.Fprintf(d.b, "func(%v)", v.IsNil())
	default:
		fmt.Fprintf(d.b, "%s", v.Kind())
	}
}

func (d *dumper) sub(x any, depth int) string {
	var b strings.Builder
	nd := dumper{b: &b, seen: d.seen}
	if x == nil {
		return "nil"
	}
	rv := reflect.ValueOf(x)
	b.WriteString(rv.Type().String() + ":")
	if rv.Kind() == reflect.Struct {
		n := reflect.New(rv.Type()).Elem()
		n.Set(rv)
		rv = n
	}
	nd.dump(rv, depth)
	return b.String()
}

func (d *dumper) subv(v reflect.Value, depth int) string {
	var b strings.Builder
	nd := dumper{b: &b, seen: d.seen}
	nd.dump(v, depth)
	return b.String()
}

// entries writes n entries in the order of their keys.
func (d *dumper) entries(n int, key func(int) string, val func(int)) {
	type ent struct {
		k string
		i int
	}
	var l []ent
	for i := 0; i < n; i++ {
		l = append(l, ent{key(i), i})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
	d.b.WriteString("{")
	for _, e := range l {
		d.b.WriteString(e.k + ":")
		val(e.i)
		d.b.WriteString(",")
	}
	d.b.WriteString("}")
}

// open lifts the read-only mark of a value that was reached through an unexported field.
func open(v reflect.Value) reflect.Value {
	type value struct {
		typ, ptr unsafe.Pointer
		flag     uintptr
	}
	(*value)(unsafe.Pointer(&v)).flag &^= 1<<5 | 1<<6
	return v
}

func addr(v reflect.Value) unsafe.Pointer {
	if v.CanAddr() {
		return unsafe.Pointer(v.UnsafeAddr())
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return unsafe.Pointer(n.UnsafeAddr())
}

func readTime(v reflect.Value) time.Time { return v.Interface().(time.Time) }
