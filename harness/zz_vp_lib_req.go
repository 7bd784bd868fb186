package healer

// prepares a request the way it is sent: correlation id, negotiated version
func vpEnc(r Request, corr uint32, version uint16) []byte {
	r.SetCorrelationID(corr)
	r.SetVersion(version)
	return r.Encode(version)
}

func vpChkReq(api string, got []byte, body *vpW) {
	want := vpFrame(body.b)
	vpAssert(len(got) == len(want), api+" request has the length the schema gives")
	vpAssert(vpEqBytes(got, want), api+" request is encoded as the schema of its version says")
}

// Kafka's flexible-version threshold per API key (-1: never).
func vpFlexFrom(key int) int {
	t := []int{9, 12, 6, 9, 4, 2, 6, 3, 8, 6, 3, 6, 4, 4, 4, 5, 3, -1, 3, 5, 4, 2, 2, 4, 3, 3, 3, 1, 3, 2, 2, 2, 4, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 0, 0}
	return t[key]
}

type vpBuf struct{ b []byte }

func (w *vpBuf) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }
