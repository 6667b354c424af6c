package vs

import (
	"context"
	"errors"
	"fmt"
	"net"
	"reflect"
	"sort"
	"syscall"
	"time"
)

type NetConn = net.Conn

func Dial(network, addr string) (net.Conn, error) {
	if S == nil || S.DialHook == nil {
		return nil, errors.New("verif: no network")
	}
	S.point("dial", nil)
	return S.DialHook(network, addr)
}

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) { return Dial(network, addr) }

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Resolver      *net.Resolver
	Cancel        <-chan struct{}
	Control       func(network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return Dial(network, addr)
}

// process exits of the code under test
func Exit(code int)                     { panic(ExitPanic{fmt.Sprintf("os.Exit(%d)", code)}) }
func Fatal(v ...interface{})            { panic(ExitPanic{"Fatal: " + fmt.Sprint(v...)}) }
func Fatalln(v ...interface{})          { panic(ExitPanic{"Fatal: " + fmt.Sprint(v...)}) }
func Fatalf(f string, v ...interface{}) { panic(ExitPanic{"Fatal: " + fmt.Sprintf(f, v...)}) }
func Gosched()                          { Point("Gosched") }

// MapOrder reverses the canonical iteration order of plain maps when set by the harness.
var MapOrder int

// MapKeys gives a deterministic iteration order for range over a plain map.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := fmt.Sprint(reflect.ValueOf(ks[i])), fmt.Sprint(reflect.ValueOf(ks[j]))
		if MapOrder == 1 {
			return a > b
		}
		return a < b
	})
	return ks
}
