package healer

import (
	"bytes"
	"compress/gzip"
	"hash/crc32"
	"io"

	snappy "github.com/eapache/go-xerial-snappy"
	"github.com/pierrec/lz4/v4"
)

// reference encoder of one record of a magic 2 batch
func (w *vpW) nbytesV(b []byte) { // nil: null
	if b == nil {
		w.svar(-1)
		return
	}
	w.svar(int64(len(b)))
	w.raw(b)
}

func vpRecBytes(attr int8, ts int64, delta int32, key, val []byte, hs []RecordHeader) []byte {
	b := &vpW{}
	b.i8(attr)
	b.svar(ts)
	b.svar(int64(delta))
	b.nbytesV(key)
	b.nbytesV(val)
	b.svar(int64(len(hs)))
	for _, h := range hs {
		b.svar(int64(len(h.Key)))
		b.raw([]byte(h.Key))
		b.nbytesV(h.Value)
	}
	w := &vpW{}
	w.svar(int64(len(b.b)))
	w.raw(b.b)
	return w.b
}

type vpBatchMeta struct {
	base            int64
	epoch           int32
	magic           int8
	attr            int16
	last            int32
	baseTs, maxTs   int64
	pid             int64
	pepoch          int16
	seq             int32
	count           int32
	crcOverride     uint32
	hasCrc, lenSkew bool
}

// vpBatchBytes is the reference encoding of a magic 2 record batch; recs are the (possibly
// compressed) record bytes.
func vpBatchBytes(m vpBatchMeta, recs []byte) []byte {
	t := &vpW{} // what the CRC covers
	t.i16(m.attr)
	t.i32(m.last)
	t.i64(m.baseTs)
	t.i64(m.maxTs)
	t.i64(m.pid)
	t.i16(m.pepoch)
	t.i32(m.seq)
	t.i32(m.count)
	t.raw(recs)
	w := &vpW{}
	w.i64(m.base)
	w.i32(int32(len(t.b) + 9))
	w.i32(m.epoch)
	w.i8(m.magic)
	if m.hasCrc {
		w.u32(m.crcOverride)
	} else {
		w.u32(crc32.Checksum(t.b, crc32.MakeTable(crc32.Castagnoli)))
	}
	w.raw(t.b)
	return w.b
}

// reference (de)compression with the libraries themselves
func vpCompress(codec int, b []byte) []byte {
	switch codec {
	case 1:
		var o bytes.Buffer
		g := gzip.NewWriter(&o)
		g.Write(b)
		g.Close()
		return o.Bytes()
	case 2:
		return snappy.Encode(b)
	case 3:
		var o bytes.Buffer
		g := lz4.NewWriter(&o)
		g.Write(b)
		g.Close()
		return o.Bytes()
	}
	return b
}

func vpDecompress(codec int, b []byte) ([]byte, error) {
	switch codec {
	case 1:
		g, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(g)
	case 2:
		return snappy.Decode(b)
	case 3:
		return io.ReadAll(lz4.NewReader(bytes.NewReader(b)))
	}
	return b, nil
}

// nil or 0..max bytes
func vpNB(name string, max int) []byte {
	k := vpSize(name, -1, max, true)
	if k < 0 {
		return nil
	}
	return vpSized(name, k)
}

// equality that keeps null and empty apart
func vpNBEq(a, b []byte) bool { return (a == nil) == (b == nil) && vpEqBytes(a, b) }

// ---- reference reader, for what healer put on the wire

type vpRd struct {
	b   []byte
	o   int
	bad bool
}

func (r *vpRd) take(n int) []byte {
	if n < 0 || n > len(r.b)-r.o {
		r.bad = true
		r.o = len(r.b)
		return make([]byte, vpMax0(n))
	}
	x := r.b[r.o : r.o+n]
	r.o += n
	return x
}
func vpMax0(n int) int {
	if n < 0 || n > 64 {
		return 0
	}
	return n
}
func (r *vpRd) u8() uint8   { return r.take(1)[0] }
func (r *vpRd) u16() uint16 { x := r.take(2); return uint16(x[0])<<8 | uint16(x[1]) }
func (r *vpRd) u32() uint32 {
	x := r.take(4)
	return uint32(x[0])<<24 | uint32(x[1])<<16 | uint32(x[2])<<8 | uint32(x[3])
}
func (r *vpRd) i16() int16 { return int16(r.u16()) }
func (r *vpRd) i32() int32 { return int32(r.u32()) }
func (r *vpRd) i64() int64 { h := r.u32(); return int64(uint64(h)<<32 | uint64(r.u32())) }
func (r *vpRd) uvar() uint64 {
	var v uint64
	for s := uint(0); s < 70; s += 7 {
		x := r.u8()
		v |= uint64(x&0x7f) << s
		if x < 0x80 {
			break
		}
	}
	return v
}
func (r *vpRd) svar() int64 { v := r.uvar(); return int64(v>>1) ^ -int64(v&1) }
func (r *vpRd) str() string { return string(r.take(int(r.i16()))) }
func (r *vpRd) nstr() *string {
	n := int(r.i16())
	if n < 0 {
		return nil
	}
	s := string(r.take(n))
	return &s
}
func (r *vpRd) cstr() string { return string(r.take(int(r.uvar()) - 1)) }
func (r *vpRd) nbytesV() []byte {
	n := int(r.svar())
	if n < 0 {
		return nil
	}
	return append([]byte{}, r.take(n)...)
}

type vpSent struct {
	topic     string
	partition int32
	acks      int16
	timeout   int32
	base      int64
	attr      int16
	last      int32
	recs      []vpSentRec
	delta     []int32
}
type vpSentRec struct{ key, val []byte }

// vpParseProduce reads a framed produce request (v0 or v9) with one topic, one partition and one
// magic 2 batch the way a broker does; ok is false when it is malformed.
func vpParseProduce(b []byte) (s vpSent, ok bool) {
	r := &vpRd{b: b}
	if int(r.i32()) != len(b)-4 {
		return s, false
	}
	r.u16() // api key
	v := r.u16()
	r.u32()
	r.nstr()
	flex := v >= 9
	arr := func() int {
		if flex {
			return int(r.uvar()) - 1
		}
		return int(r.i32())
	}
	if flex {
		r.uvar()
		if r.uvar() != 0 { // transactional id is null
			return s, false
		}
	}
	s.acks, s.timeout = r.i16(), r.i32()
	if arr() != 1 {
		return s, false
	}
	if flex {
		s.topic = r.cstr()
	} else {
		s.topic = r.str()
	}
	if arr() != 1 {
		return s, false
	}
	s.partition = r.i32()
	n := arr()
	batch := r.take(n)
	if flex {
		r.uvar()
		r.uvar()
		r.uvar()
	}
	if r.bad || r.o != len(b) {
		return s, false
	}
	q := &vpRd{b: batch}
	s.base = q.i64()
	if int(q.i32()) != n-12 {
		return s, false
	}
	q.i32()
	if q.u8() != 2 {
		return s, false
	}
	crc := q.u32()
	if crc32.Checksum(batch[q.o:], crc32.MakeTable(crc32.Castagnoli)) != crc {
		return s, false
	}
	s.attr, s.last = q.i16(), q.i32()
	q.i64()
	q.i64()
	q.i64()
	q.i16()
	q.i32()
	count := int(q.i32())
	if q.bad {
		return s, false
	}
	recs, err := vpDecompress(int(s.attr&7), batch[q.o:])
	if err != nil {
		return s, false
	}
	q = &vpRd{b: recs}
	for i := 0; i < count; i++ {
		l := int(q.svar())
		at := q.o
		q.u8()
		q.svar()
		s.delta = append(s.delta, int32(q.svar()))
		k, v := q.nbytesV(), q.nbytesV()
		s.recs = append(s.recs, vpSentRec{k, v})
		if q.svar() != 0 || q.bad || q.o-at != l {
			return s, false
		}
	}
	return s, q.o == len(recs)
}

// vpProduceOK is a broker's answer to the produce request b.
func vpProduceOK(b []byte, base int64) []byte { return vpProduceResp(b, 0, base) }

func vpProduceResp(b []byte, code int16, base int64) []byte {
	return vpProduceRespP(b, 0, code, base)
}

func vpProduceRespP(b []byte, part int32, code int16, base int64) []byte {
	r := &vpRd{b: b}
	r.i32()
	r.u16()
	v := r.u16()
	flex := v >= 9
	w := &vpW{}
	w.respHeader(r.u32(), flex, nil)
	w.arr(flex, 1)
	w.str(flex, "t")
	w.arr(flex, 1)
	w.i32(part)
	w.i16(code)
	w.i64(base)
	if v >= 9 {
		w.i64(-1)
		w.i64(0)
		w.arr(true, 0)
		w.nstr(true, nil)
		w.tags(true, nil)
		w.tags(true, nil)
		w.i32(0)
		w.tags(true, nil)
	}
	return vpFrame(w.b)
}

// vpLong is n bytes, the first and the last of any value
func vpLong(name string, n int) []byte {
	b := make([]byte, n)
	e := vpBytes(name, 2)
	b[0], b[n-1] = e[0], e[1]
	return b
}
