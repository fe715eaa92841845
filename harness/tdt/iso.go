package tdt

var vpStandards = map[byte]string{
	161: "17367", 162: "17365", 163: "17364", 164: "17367h", 165: "17366",
	166: "17366h", 167: "17365h", 168: "17364h", 169: "17363", 170: "17363h",
}

// the 6-bit characters of an ISO UII; a space is not part of the identity
func vpSixBitChar(v uint64) byte {
	if v >= 32 {
		return byte(v)
	}
	return byte(64 + v)
}

// case = number of bytes; every content
func vpH_ISOShort() {
	n := vpCase()
	id := vpTag(n)
	pc := []byte{vpByte(), vpByte()}
	vpAssume(pc[0]&1 == 1)
	afi := pc[1]
	urn, err := NewCore().Translate(pc, id)
	if afi < 161 || afi > 170 {
		vpReach("unknown AFI")
		vpAssert(err != nil, "an unknown application family is translated")
		return
	}
	var want []byte
	for i := 0; i < n*8/6; i++ {
		if v := vpField(id, 6*i, 6); v != 32 {
			want = append(want, vpSixBitChar(v))
		}
	}
	vpReach("known AFI")
	vpAssert(err == nil, "a valid UII is rejected")
	vpObserve("urn", urn)
	vpAssert(vpStrEq(urn, "urn:epc:id:iso"+vpStandards[byte(vpConc(int(afi)))]+":"+string(want)), "wrong pure identity for an ISO tag")
}

// case = 16-bit words - 1; a value followed by padding, the form the encoder makes
func vpH_ISOPadded() {
	n := 2 * (vpCase() + 1)
	id := vpTag(n)
	pc := []byte{vpByte(), byte(161 + vpChoose(10))}
	vpAssume(pc[0]&1 == 1)
	chars := n * 8 / 6
	pad := vpChoose(4) // at most 15 bits of padding: 3 whole characters at most
	if pad > chars {
		return
	}
	var want []byte
	for i := 0; i < chars; i++ {
		v := vpField(id, 6*i, 6)
		if i < chars-pad {
			vpAssume(v != 32)
			want = append(want, vpSixBitChar(v))
		} else {
			vpAssume(v == 32)
		}
	}
	core := NewCore()
	if vpCase() < 2 { // what was translated before makes no difference
		switch vpChoose(3) {
		case 1:
			core.Translate([]byte{pc[0], byte(161 + vpChoose(10))}, id)
		case 2:
			core.Translate(pc, vpTag(n))
		}
	}
	urn, err := core.Translate(pc, id)
	vpReach("padded")
	vpAssert(err == nil, "a valid UII is rejected")
	vpObserve("urn", urn)
	vpAssert(vpStrEq(urn, "urn:epc:id:iso"+vpStandards[pc[1]]+":"+string(want)), "wrong pure identity for an ISO tag")
}

// case: PC length (0..3) + 4 * ID length
func vpH_TranslateTotal() {
	np, n := vpCase()%4, vpCase()/4
	pc := vpTag(np)
	id := vpTag(n)
	if np == 2 {
		if n == 12 {
			// tags with a known header are the subject of vpH_EPCDecode
			vpAssume(pc[0]&1 == 0 && id[0] != 48 && id[0] != 49 && id[0] != 51 && id[0] != 52)
		} else if n > 3 {
			// the ISO side is the subject of vpH_ISOShort and vpH_ISOPadded
			vpAssume(vpOr(pc[0]&1 == 0, vpOr(pc[1] < 161, pc[1] > 170)))
		}
	}
	var urn string
	var err error
	panicked := vpCatch(func() { urn, err = NewCore().Translate(pc, id) })
	vpAssert(!panicked, "translation panics")
	if np != 2 {
		vpAssert(err != nil, "protocol control bits of a wrong length are accepted")
		return
	}
	if pc[0]&1 == 0 {
		vpReach("malformed EPC")
		vpAssert(err != nil, "a malformed EPC is translated")
		vpAssert(urn == "", "an identity comes with the error")
	} else if vpOr(pc[1] < 161, pc[1] > 170) {
		vpReach("unknown AFI")
		vpAssert(err != nil, "an unknown application family is translated")
		vpAssert(urn == "", "an identity comes with the error")
	}
}
