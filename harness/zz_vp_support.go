package healer

// Verification support. These functions are intercepted by the symbolic
// engine; the bodies below are their native meaning, used when a solver
// assignment is replayed against the real build.

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"
)

type vpReplayState struct {
	mu      sync.Mutex
	vals    map[string]uint64
	cnt     map[string]int
	fails   []string
	missing []string
	reached map[string]bool
}

var vpR = &vpReplayState{vals: map[string]uint64{}, cnt: map[string]int{}, reached: map[string]bool{}}

type vpAssumeFailed struct{}

func vpGet(name string) uint64 {
	vpR.mu.Lock()
	defer vpR.mu.Unlock()
	k := vpR.cnt[name]
	vpR.cnt[name]++
	full := fmt.Sprintf("%s#%d", name, k)
	v, ok := vpR.vals[full]
	if !ok {
		vpR.missing = append(vpR.missing, full)
	}
	return v
}

func vpU8(name string) uint8   { return uint8(vpGet(name)) }
func vpI8(name string) int8    { return int8(vpGet(name)) }
func vpU16(name string) uint16 { return uint16(vpGet(name)) }
func vpI16(name string) int16  { return int16(vpGet(name)) }
func vpU32(name string) uint32 { return uint32(vpGet(name)) }
func vpI32(name string) int32  { return int32(vpGet(name)) }
func vpU64(name string) uint64 { return vpGet(name) }
func vpI64(name string) int64  { return int64(vpGet(name)) }
func vpBool(name string) bool  { return vpGet(name) == 1 }

// vpInt is an arbitrary integer in [lo,hi].
func vpInt(name string, lo, hi int) int { return int(vpGet(name)) }

// vpChoose is an arbitrary integer in [0,n), resolved by case split.
func vpChoose(name string, n int) int { return int(vpGet(name)) }

func vpBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vpGet(name))
	}
	return b
}
func vpStr(name string, n int) string { return string(vpBytes(name, n)) }

func vpAssume(c bool) {
	if !c {
		panic(vpAssumeFailed{})
	}
}
func vpAssert(c bool, msg string) {
	if !c {
		vpR.mu.Lock()
		vpR.fails = append(vpR.fails, msg)
		vpR.mu.Unlock()
	}
}
func vpReach(label string) {
	vpR.mu.Lock()
	vpR.reached[label] = true
	vpR.mu.Unlock()
}
func vpAnd(a, b bool) bool     { return a && b }
func vpOr(a, b bool) bool      { return a || b }
func vpImplies(a, b bool) bool { return !a || b }
func vpPick(i int) int         { return i }
func vpMapOrder(n int)         {}
func vpPreempt(n int)          {}
func vpMemory(on int)          {}
func vpSelects(n int)          {}
func vpDelays(n int)           {}
func vpMaxSteps(n int)         {}
func vpYield()                 { runtime.Gosched() }
func vpWaitIdle() {
	if vpWaitHook != nil {
		vpWaitHook()
	}
}

var vpWaitHook func()

var vpStdoutFile, vpRealStdout *os.File

// vpStdio gives the program this standard input and takes its standard output.
func vpStdio(in []byte) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	go func() {
		w.Write(in)
		w.Close()
	}()
	os.Stdin = r
	vpStdoutFile, err = os.CreateTemp("", "vpout")
	if err != nil {
		panic(err)
	}
	os.Remove(vpStdoutFile.Name())
	vpRealStdout, os.Stdout = os.Stdout, vpStdoutFile
}

// vpStdout is what has been printed since.
func vpStdout() string {
	os.Stdout = vpRealStdout
	b := make([]byte, 1<<20)
	n, _ := vpStdoutFile.ReadAt(b, 0)
	return string(b[:n])
}

var vpTierV int

// vpTier is 0 in the quick check and 1 in the thorough one.
func vpTier() int                { return vpTierV }
func vpGoroutines() int          { return 0 }
func vpTrace(f string, a ...any) {}
func vpSymbolic() bool           { return false }
func vpEqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// vpSame: deep equality that treats nil and empty slices and maps alike.
func vpSame(a, b any) bool { return vpSameV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func vpSameV(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !vpSameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !vpSameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !vpSameV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Pointer() == b.Pointer() || vpSameV(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return vpSameV(a.Elem(), b.Elem())
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !vpSameV(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	}
	return false
}

// vpCatch runs f and reports whether it panicked.
func vpCatch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vpAssumeFailed); ok {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// ---- network model: every dial is answered by the harness

var vpDialHook func(network, addr string) (net.Conn, error)

var vpDialTimeout, vpDialKeepAlive time.Duration // of the last dial

func vpModelDialer(network, addr string, timeout, keepAlive time.Duration) (net.Conn, error) {
	vpDialTimeout, vpDialKeepAlive = timeout, keepAlive
	return vpModelDial(network, addr)
}

func vpModelDial(network, addr string) (net.Conn, error) {
	if vpDialHook == nil {
		return nil, errors.New("dial: connection refused")
	}
	return vpDialHook(network, addr)
}

// what a harness does with TLS: dials, key pairs (given by name) and certificates of authorities
var (
	vpTLSDialHook func(addr string, c *tls.Config) error
	vpKeyPairHook func(cert, key string) (tls.Certificate, error)
	vpCAHook      func(p *x509.CertPool, pem []byte)
)

func vpModelTLSDial(network, addr string, c *tls.Config) (*tls.Conn, error) {
	if vpTLSDialHook == nil {
		return nil, errors.New("dial: connection refused")
	}
	return nil, vpTLSDialHook(addr, c)
}

func vpModelKeyPair(cert, key string) (tls.Certificate, error) {
	if vpKeyPairHook == nil {
		return tls.Certificate{}, errors.New("no such file")
	}
	return vpKeyPairHook(cert, key)
}

// every file exists but those in /nonexistent (natively: those that do)
func vpModelReadFile(name string) ([]byte, error) {
	if len(name) > 12 && name[:12] == "/nonexistent" {
		return nil, errors.New("no such file")
	}
	return []byte(name), nil
}

func vpModelCA(p *x509.CertPool, pem []byte) bool {
	if vpCAHook != nil {
		vpCAHook(p, pem)
	}
	return true
}

type vpAddr struct{}

func (vpAddr) Network() string { return "tcp" }
func (vpAddr) String() string  { return "vp:1" }

// vpConn is a net.Conn whose reads are served from a byte queue.
type vpConn struct {
	in       []byte // bytes the peer has sent
	out      []byte // bytes written by healer
	writes   [][]byte
	closed   bool
	maxRead  int                             // largest chunk one Read returns (0: unlimited)
	chunk    func(avail int) int             // overrides maxRead
	onWrite  func(c *vpConn, b []byte) error // may append to in
	readErr  error                           // returned when in is exhausted (default io.EOF)
	late     []byte                          // arrives only after one read has timed out
	deadline int
	onWait   func(d time.Duration) // told how long a read is going to wait for the peer
	name     string
}

func (c *vpConn) Read(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		if len(c.late) > 0 {
			c.in, c.late = c.late, nil
			return 0, vpTimeoutErr{}
		}
		if c.readErr != nil {
			return 0, c.readErr
		}
		return 0, io.EOF
	}
	n := len(b)
	if len(c.in) < n {
		n = len(c.in)
	}
	if c.chunk != nil {
		if k := c.chunk(n); k > 0 && k < n {
			n = k
		}
	} else if c.maxRead > 0 && c.maxRead < n {
		n = c.maxRead
	}
	copy(b, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *vpConn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	cp := append([]byte{}, b...)
	c.out = append(c.out, cp...)
	c.writes = append(c.writes, cp)
	if c.onWrite != nil {
		if err := c.onWrite(c, cp); err != nil {
			return 0, err
		}
	}
	return len(b), nil
}

func (c *vpConn) Close() error                  { c.closed = true; return nil }
func (c *vpConn) LocalAddr() net.Addr           { return vpAddr{} }
func (c *vpConn) RemoteAddr() net.Addr          { return vpAddr{} }
func (c *vpConn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }
func (c *vpConn) SetReadDeadline(t time.Time) error {
	c.deadline++
	if c.onWait != nil {
		c.onWait(time.Until(t))
	}
	return nil
}
func (c *vpConn) SetWriteDeadline(t time.Time) error { return nil }

// vpTimeoutErr is what a net.Conn returns when a read deadline passes.
type vpTimeoutErr struct{}

func (vpTimeoutErr) Error() string   { return "i/o timeout" }
func (vpTimeoutErr) Timeout() bool   { return true }
func (vpTimeoutErr) Temporary() bool { return true }
func (vpTimeoutErr) Is(e error) bool { return e == os.ErrDeadlineExceeded }
