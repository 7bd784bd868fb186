package healer

import "bytes"

// length classes that cross the 1/2-byte varint boundary
func vpLenClass(name string) int {
	k := []int{0, 1, 2, 3, 126, 127, 128, 200}
	n := len(k)
	if vpTier() == 0 {
		n = 7
	}
	return k[vpChoose(name+".class", n)]
}

func vpChkEnc(what string, got []byte, want []byte) {
	vpAssert(vpEqBytes(got, want), what+": bytes match the protocol type")
}

// Classic STRING: every encoder yields INT16 length + bytes, and decoding the
// bytes followed by arbitrary trailing data returns the value and its size.
// Lengths {0,1,2,3,126,127,128}, all byte values, 2 arbitrary trailing bytes.
func VP_C01_string() {
	s := vpStr("s", vpLenClass("s"))
	w := &vpW{}
	w.str(false, s)
	vpChkEnc("encodeString", encodeString(s), w.b)
	buf := new(bytes.Buffer)
	n, err := writeString(buf, s)
	vpAssert(err == nil && n == len(w.b), "writeString reports the bytes written")
	vpChkEnc("writeString", buf.Bytes(), w.b)
	in := append(append([]byte{}, w.b...), vpBytes("junk", 2)...)
	got, o := nonnullableString(in)
	vpAssert(got == s, "STRING decodes to the encoded value")
	vpAssert(o == len(w.b), "STRING decoding consumes exactly its bytes")
	vpReach("end")
}

// NULLABLE_STRING, as above, including null.
func VP_C01_nullable_string() {
	var s *string
	if vpChoose("null", 2) == 0 {
		v := vpStr("s", vpLenClass("s"))
		s = &v
	}
	w := &vpW{}
	w.nstr(false, s)
	vpChkEnc("encodeNullableString", encodeNullableString(s), w.b)
	buf := new(bytes.Buffer)
	n, err := writeNullableString(buf, s)
	vpAssert(err == nil && n == len(w.b), "writeNullableString reports the bytes written")
	vpChkEnc("writeNullableString", buf.Bytes(), w.b)
	in := append(append([]byte{}, w.b...), vpBytes("junk", 2)...)
	got, o := nullableString(in)
	vpAssert(vpPtrEq(got, s), "NULLABLE_STRING decodes to the encoded value")
	vpAssert(o == len(w.b), "NULLABLE_STRING decoding consumes exactly its bytes")
	vpReach("end")
}

// COMPACT_STRING, as above.
func VP_C01_compact_string() {
	s := vpStr("s", vpLenClass("s"))
	w := &vpW{}
	w.str(true, s)
	vpChkEnc("encodeCompactString", encodeCompactString(s), w.b)
	buf := new(bytes.Buffer)
	n, err := writeCompactString(buf, s)
	vpAssert(err == nil && n == len(w.b), "writeCompactString reports the bytes written")
	vpChkEnc("writeCompactString", buf.Bytes(), w.b)
	in := append(append([]byte{}, w.b...), vpBytes("junk", 2)...)
	got, o := compactString(in)
	vpAssert(got == s, "COMPACT_STRING decodes to the encoded value")
	vpAssert(o == len(w.b), "COMPACT_STRING decoding consumes exactly its bytes")
	vpReach("end")
}

// COMPACT_NULLABLE_STRING, as above, including null.
func VP_C01_compact_nullable_string() {
	var s *string
	if vpChoose("null", 2) == 0 {
		v := vpStr("s", vpLenClass("s"))
		s = &v
	}
	w := &vpW{}
	w.nstr(true, s)
	vpChkEnc("encodeCompactNullableString", encodeCompactNullableString(s), w.b)
	buf := new(bytes.Buffer)
	n, err := writeCompactNullableString(buf, s)
	vpAssert(err == nil && n == len(w.b), "writeCompactNullableString reports the bytes written")
	vpChkEnc("writeCompactNullableString", buf.Bytes(), w.b)
	in := append(append([]byte{}, w.b...), vpBytes("junk", 2)...)
	got, o := compactNullableString(in)
	vpAssert(vpPtrEq(got, s), "COMPACT_NULLABLE_STRING decodes to the encoded value")
	vpAssert(o == len(w.b), "COMPACT_NULLABLE_STRING decoding consumes exactly its bytes")
	vpReach("end")
}

// COMPACT_BYTES, NULLABLE_BYTES, COMPACT_NULLABLE_BYTES: same lengths; null where allowed.
func VP_C01_bytes() {
	b := vpBytes("b", vpLenClass("b"))
	w := &vpW{}
	w.bytes(true, b)
	vpChkEnc("encodeCompactBytes", encodeCompactBytes(b), w.b)
	in := append(append([]byte{}, w.b...), vpBytes("junk", 2)...)
	got, o := compactBytes(in)
	vpAssert(vpEqBytes(got, b) && o == len(w.b), "COMPACT_BYTES decodes to the encoded value and size")

	var nb []byte = b
	if vpChoose("null", 2) == 1 {
		nb = nil
	}
	w = &vpW{}
	if nb == nil {
		w.i32(-1)
	} else {
		w.bytes(false, nb)
	}
	vpChkEnc("encodeNullableBytes", encodeNullableBytes(nb), w.b)
	in = append(append([]byte{}, w.b...), vpBytes("junk", 2)...)
	got, o = nullableBytes(in)
	vpAssert(vpEqBytes(got, nb) && o == len(w.b) && (got == nil) == (nb == nil), "NULLABLE_BYTES decodes to the encoded value and size")

	w = &vpW{}
	if nb == nil {
		w.uvar(0)
	} else {
		w.bytes(true, nb)
	}
	vpChkEnc("encodeCompactNullableBytes", encodeCompactNullableBytes(nb), w.b)
	in = append(append([]byte{}, w.b...), vpBytes("junk", 2)...)
	got, o = compactNullableBytes(in)
	vpAssert(vpEqBytes(got, nb) && o == len(w.b) && (got == nil) == (nb == nil), "COMPACT_NULLABLE_BYTES decodes to the encoded value and size")
	vpReach("end")
}

// COMPACT_ARRAY length: every length from -1 (null) to 2^31-2.
func VP_C01_compact_array_length() {
	l := vpInt("l", -1, 0x7ffffffe)
	w := &vpW{}
	w.uvar(uint64(l + 1))
	e := encodeCompactArrayLength(l)
	vpChkEnc("encodeCompactArrayLength", e, w.b)
	in := append(append([]byte{}, e...), vpBytes("junk", 2)...)
	got, o := compactArrayLength(in)
	vpAssert(int(got) == l, "array length decodes to the encoded value")
	vpAssert(o == len(e), "array length decoding consumes exactly its bytes")
	vpReach("end")
}

// TAG_BUFFER: 0..2 fields, any tag below 2^31, data of 0..2 bytes.
func VP_C01_tagged_fields() {
	n := vpChoose("n", 3)
	var t TaggedFields
	for i := 0; i < n; i++ {
		t = append(t, TaggedField{Tag: vpInt("tag", 0, 0x7fffffff), Data: vpB("d", 2)})
	}
	w := &vpW{}
	w.tags(true, t)
	e := t.Encode()
	vpChkEnc("TaggedFields.Encode", e, w.b)
	buf := make([]byte, len(w.b)+3)
	k := t.EncodeTo(buf)
	vpAssert(k == len(w.b), "TaggedFields.EncodeTo reports the bytes written")
	vpChkEnc("TaggedFields.EncodeTo", buf[:len(w.b)], w.b)
	in := append(append([]byte{}, w.b...), vpBytes("junk", 2)...)
	got, o := DecodeTaggedFields(in)
	vpAssert(vpTagsEq(got, t), "tag buffer decodes to the encoded fields")
	vpAssert(o == len(w.b), "tag buffer decoding consumes exactly its bytes")
	vpReach("end")
}

// An empty, non-nil tag buffer is one zero byte.
func VP_C01_tagged_fields_empty() {
	t := TaggedFields{}
	vpChkEnc("empty TaggedFields.Encode", t.Encode(), []byte{0})
	b := make([]byte, 4)
	vpAssert(t.EncodeTo(b) == 1 && b[0] == 0, "empty TaggedFields.EncodeTo writes one zero byte")
	vpReach("end")
}
