package healer

// Reference encoder for the Kafka wire protocol, written from the protocol
// specification and independent of healer's own encoders. Used as the oracle
// for requests (byte equality) and as the generator of broker responses.

import "fmt"

type vpW struct{ b []byte }

func (w *vpW) i8(v int8)    { w.b = append(w.b, byte(v)) }
func (w *vpW) u8(v uint8)   { w.b = append(w.b, v) }
func (w *vpW) i16(v int16)  { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *vpW) u16(v uint16) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *vpW) i32(v int32)  { w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func (w *vpW) u32(v uint32) { w.i32(int32(v)) }
func (w *vpW) i64(v int64)  { w.i32(int32(v >> 32)); w.i32(int32(v)) }
func (w *vpW) raw(b []byte) { w.b = append(w.b, b...) }
func (w *vpW) bool(v bool) {
	if v {
		w.u8(1)
	} else {
		w.u8(0)
	}
}
func (w *vpW) uvar(v uint64) {
	for v >= 0x80 {
		w.b = append(w.b, byte(v)|0x80)
		v >>= 7
	}
	w.b = append(w.b, byte(v))
}

// zig-zag varint
func (w *vpW) svar(v int64) { w.uvar(uint64(v<<1) ^ uint64(v>>63)) }

// string, array, ... in the classic (flex=false) or compact (flex=true) form
func (w *vpW) str(flex bool, s string) {
	if flex {
		w.uvar(uint64(len(s)) + 1)
	} else {
		w.i16(int16(len(s)))
	}
	w.b = append(w.b, s...)
}
func (w *vpW) nstr(flex bool, s *string) {
	if s != nil {
		w.str(flex, *s)
	} else if flex {
		w.uvar(0)
	} else {
		w.i16(-1)
	}
}
func (w *vpW) bytes(flex bool, b []byte) {
	if flex {
		w.uvar(uint64(len(b)) + 1)
	} else {
		w.i32(int32(len(b)))
	}
	w.b = append(w.b, b...)
}
func (w *vpW) arr(flex bool, n int) { // n = -1: null array
	if flex {
		w.uvar(uint64(n + 1))
	} else {
		w.i32(int32(n))
	}
}
func (w *vpW) i32s(flex bool, v []int32) {
	w.arr(flex, len(v))
	for _, x := range v {
		w.i32(x)
	}
}
func (w *vpW) tags(flex bool, t TaggedFields) {
	if !flex {
		return
	}
	w.uvar(uint64(len(t)))
	for _, f := range t {
		w.uvar(uint64(f.Tag))
		w.uvar(uint64(len(f.Data)))
		w.b = append(w.b, f.Data...)
	}
}

// request header v1 (classic) or v2 (flexible)
func (w *vpW) reqHeader(key, version uint16, corr uint32, client *string, flex bool) {
	w.u16(key)
	w.u16(version)
	w.u32(corr)
	w.nstr(false, client) // the client id stays a classic nullable string in v2
	if flex {
		w.uvar(0)
	}
}

// response header v0 or v1 (with tag buffer)
func (w *vpW) respHeader(corr uint32, flex bool, t TaggedFields) {
	w.u32(corr)
	w.tags(flex, t)
}

// size-prefixed message
func vpFrame(body []byte) []byte {
	w := &vpW{}
	w.i32(int32(len(body)))
	w.raw(body)
	return w.b
}

// ---- generators of symbolic values with a case-split shape

func vpN(name string, max int) int { return vpSize(name, 0, max, false) }

// a string of 0..max bytes
func vpS(name string, max int) string { return string(vpSized(name, vpSize(name, 0, max, true))) }

// a string of 1..max bytes
func vpS1(name string, max int) string { return string(vpSized(name, vpSize(name, 1, max, true))) }

// null or a string of 0..max bytes
func vpNS(name string, max int) *string {
	k := vpSize(name, -1, max, true)
	if k < 0 {
		return nil
	}
	s := string(vpSized(name, k))
	return &s
}

// 0..max bytes (not nil)
func vpB(name string, max int) []byte { return vpSized(name, vpSize(name, 0, max, true)) }

// vpBig runs a harness with one of the first n strings, byte arrays and lists it uses made long (strings of 127 or 16383 bytes, lists of 127
// elements), all the others of them short.
func vpBig(n int, h func()) { vpBigger(n, true, h) }

// as vpBig, with long strings only
func vpBigStr(n int, h func()) { vpBigger(n, false, h) }

func vpBigger(n int, lists bool, h func()) {
	vpMapOrder(1)
	vpBigLists = lists
	vpBigOn, vpBigSeen, vpBigIDs = true, 0, 0
	defer func() { vpBigOn = false }()
	vpBigAt, vpBigLen = vpChoose("bigAt", n), vpChoose("bigLen", 2)
	h()
}

var (
	vpBigOn                      bool
	vpBigAt, vpBigLen, vpBigSeen int
	vpBigIDs                     int32
	vpBigLists                   bool
)

func vpSize(name string, lo, hi int, str bool) int {
	if !vpBigOn {
		return lo + vpChoose(name+".n", hi-lo+1)
	}
	if !str && !vpBigLists {
		return 1
	}
	vpBigSeen++
	if vpBigSeen-1 != vpBigAt {
		if str {
			return 3
		}
		return 1
	}
	if vpBigLen == 0 {
		return 127
	}
	vpAssume(str)
	return 16383
}

// vpID is any number; in vpBig one that is different from the others
func vpID(name string) int32 {
	if vpBigOn {
		vpBigIDs++
		return vpBigIDs
	}
	return vpI32(name)
}

// a choice made for every element of a list
func vpElem(name string, n int) int {
	if vpBigOn {
		return 0
	}
	return vpChoose(name, n)
}

func vpElemU8(name string) uint8 {
	if vpBigOn {
		return 2
	}
	return vpU8(name)
}

// vpSized is n bytes: any, but if they are long only the first and the last
func vpSized(name string, n int) []byte {
	if !vpBigOn || n < 1 {
		return vpBytes(name, n)
	}
	if n == 3 { // different from the others
		return []byte{'a' + byte(vpBigSeen>>8), byte(vpBigSeen>>4)&15 + 'a', byte(vpBigSeen)&15 + 'a'}
	}
	b := make([]byte, n)
	e := vpBytes(name, 2)
	b[0], b[n-1] = e[0], e[1]
	return b
}

func vpI32s(name string, max int) []int32 {
	r := make([]int32, vpN(name, max))
	for i := range r {
		r[i] = vpI32(name)
	}
	return r
}

// a tag buffer of 0..max unknown fields with tags 0..2^7-1 and data 0..1 byte
func vpTags(name string, max int) TaggedFields {
	var r TaggedFields
	n := vpN(name, max)
	for i := 0; i < n; i++ {
		d := vpB(name+".d", 1)
		r = append(r, TaggedField{Tag: vpInt(name+".t", 0, 127), Data: d})
	}
	return r
}

func vpMax(quick, thorough int) int {
	if vpTier() == 1 {
		return thorough
	}
	return quick
}

func vpPtrEq(a, b *string) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func vpTagsEq(a, b TaggedFields) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vpAnd(ok, vpAnd(a[i].Tag == b[i].Tag, vpEqBytes(a[i].Data, b[i].Data)))
	}
	return ok
}

func vpI32sEq(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vpAnd(ok, a[i] == b[i])
	}
	return ok
}

func vpStrsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vpAnd(ok, vpEqBytes([]byte(a[i]), []byte(b[i])))
	}
	return ok
}

// vpNoPanic runs f and reports a panic as a violation of the property.
func vpNoPanic(what string, f func()) bool {
	p := vpCatch(f)
	vpAssert(!p, what+" does not panic")
	return !p
}

var _ = fmt.Sprint

// a 0/1 byte
func vpBit(name string) uint8 {
	b := vpU8(name)
	vpAssume(b <= 1)
	return b
}

// shape variation limited to one element of an array: with vary the shape is case split,
// without it is fixed (strings of one byte)
func vpNSv(vary bool, name string, max int) *string {
	if vary {
		return vpNS(name, max)
	}
	s := vpStr(name, 1)
	return &s
}
func vpSv(vary bool, name string, max int) string {
	if vary {
		return vpS(name, max)
	}
	return vpStr(name, 1)
}
func vpNv(vary bool, name string, max int) int {
	if vary {
		return vpN(name, max)
	}
	return 1
}
func vpVary(n int) int { // the element whose shape varies
	if n < 2 || vpBigOn {
		return 0
	}
	return vpChoose("vary", n)
}
