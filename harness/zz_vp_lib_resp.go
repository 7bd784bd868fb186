package healer

// vpDecoded checks that a decoder accepted a well-formed response.
func vpDecOK(api string, err error) { vpAssert(err == nil, api+" response is accepted") }

// vpPanicFree runs the decoder and reports a panic as a violation.
func vpDecode(api string, f func()) bool {
	return vpNoPanic("decoding a well-formed "+api+" response", f)
}

func vpStrEqN(s string, p *string) bool { // nullable on the wire, "" for null in the result
	if p == nil {
		return len(s) == 0
	}
	return s == *p
}

func vpI64sEq(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vpAnd(ok, a[i] == b[i])
	}
	return ok
}
