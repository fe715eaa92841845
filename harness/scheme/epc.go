package scheme

// bits off..off+n-1 of id, most significant first
func vpField(id []byte, off, n int) uint64 {
	var v uint64
	for i := off; i < off+n; i++ {
		v = v<<1 | uint64((id[i/8]>>uint(7-i%8))&1)
	}
	return v
}

func vpPow10(n int) uint64 {
	v := uint64(1)
	for i := 0; i < n; i++ {
		v *= 10
	}
	return v
}

type vpScheme struct {
	header byte
	name   string
	// number of bits and digits of the field after the company prefix, per partition
	bits, digits [7]int
	serial       bool
}

var vpCPBits = [7]int{40, 37, 34, 30, 27, 24, 20}

func vpSchemeOf(k int) *vpScheme {
	switch k {
	case 0:
		return &vpScheme{48, "sgtin", [7]int{4, 7, 10, 14, 17, 20, 24}, [7]int{1, 2, 3, 4, 5, 6, 7}, true}
	case 1:
		return &vpScheme{49, "sscc", [7]int{18, 21, 24, 28, 31, 34, 38}, [7]int{5, 6, 7, 8, 9, 10, 11}, false}
	case 2:
		return &vpScheme{51, "grai", [7]int{4, 7, 10, 14, 17, 20, 24}, [7]int{0, 1, 2, 3, 4, 5, 6}, true}
	}
	return &vpScheme{52, "giai", [7]int{42, 45, 48, 52, 55, 58, 62}, [7]int{13, 14, 15, 16, 17, 18, 19}, false}
}

// vpNumber is a number of n digits and less than 2^bits: its text and its value.
func vpNumber(n, bits int) (string, uint64) {
	max := uint64(1)<<uint(bits) - 1
	if n < 19 && vpPow10(n) <= max {
		max = vpPow10(n) - 1
	}
	v := vpNum(max)
	return vpDec(v, n), v
}

func vpMake(s *vpScheme, pf bool, fv, cp, ref, ser string) ([]byte, string, string, error) {
	switch s.name {
	case "sgtin":
		return MakeSGTIN96(pf, fv, cp, ref, ser)
	case "sscc":
		return MakeSSCC96(pf, fv, cp, ref)
	case "grai":
		return MakeGRAI96(pf, fv, cp, ref, ser)
	}
	return MakeGIAI96(pf, fv, cp, ref)
}

func vpMakeEPC(s *vpScheme, pf bool, fv, cp, ref, ser string) (string, string) {
	switch s.name {
	case "sgtin":
		return MakeEPC(pf, "SGTIN-96", fv, cp, ref, "", ser, "", "")
	case "sscc":
		return MakeEPC(pf, "SSCC-96", fv, cp, "", ref, "", "", "")
	case "grai":
		return MakeEPC(pf, "GRAI-96", fv, cp, "", "", ser, "", ref)
	}
	return MakeEPC(pf, "GIAI-96", fv, cp, "", "", "", ref, "")
}

// the bits a valid tag must have
func vpCheckTag(s *vpScheme, p int, id []byte, fv, cp, ref, ser uint64) {
	vpAssert(len(id) == 12, "the tag is not 96 bits")
	vpAssert(id[0] == s.header, "wrong header")
	vpAssert(vpField(id, 8, 3) == fv, "wrong filter value")
	vpAssert(vpField(id, 11, 3) == uint64(p), "wrong partition value")
	vpAssert(vpField(id, 14, vpCPBits[p]) == cp, "wrong company prefix")
	vpAssert(vpField(id, 14+vpCPBits[p], s.bits[p]) == ref, "wrong reference")
	if s.serial {
		vpAssert(vpField(id, 58, 38) == ser, "wrong serial")
	} else if s.name == "sscc" {
		vpAssert(vpField(id, 72, 24) == 0, "reserved bits are set")
	}
}

// case = scheme*7 + partition: fields which can be encoded are
func vpH_EPCEncode() {
	s, p := vpSchemeOf(vpCase()/7), vpCase()%7
	fv := vpByteIn('0', '7')
	cp, cpv := vpNumber(12-p, 64)
	n := s.digits[p]
	if n == 0 {
		n = 1
	}
	ref, refv := vpNumber(n, s.bits[p])
	ser, serv := "", uint64(0)
	if s.serial {
		ser, serv = vpNumber(12, 38)
	}
	id, f, e, err := vpMake(s, false, string([]byte{fv}), cp, ref, ser)
	vpReach("encoded")
	vpAssert(err == nil, "encodable fields are rejected")
	vpAssert(f == "" && e == "", "a tag comes with a pattern")
	vpCheckTag(s, p, id, uint64(fv-'0'), cpv, refv, serv)
	vpObserve("tag", string(id))
}

// the same through the entry point of the command, with short references and serials
func vpH_EPCMake() {
	s, p := vpSchemeOf(vpCase()/7), vpCase()%7
	fv := vpByteIn('0', '7')
	cp, cpv := vpNumber(12-p, 64)
	n := s.digits[p]
	if n == 0 {
		n = 1
	}
	if n > 2 {
		n = 1 + (n-1)*vpChoose(2)
	}
	ref, refv := vpNumber(n, s.bits[p])
	ser, serv := "", uint64(0)
	if s.serial {
		ser, serv = vpNumber(1+5*vpChoose(3), 38)
	}
	bs, pc := vpMakeEPC(s, false, string([]byte{fv}), cp, ref, ser)
	vpReach("made")
	vpAssert(pc == "3000", "wrong protocol control bits")
	vpAssert(len(bs) == 96, "the tag is not 96 bits")
	id := make([]byte, 12)
	for i := 0; i < 96; i++ {
		vpAssert(vpOr(bs[i] == '0', bs[i] == '1'), "not a bit string")
		id[i/8] = id[i/8]<<1 | bs[i]&1
	}
	vpCheckTag(s, p, id, uint64(fv-'0'), cpv, refv, serv)
	vpObserve("bits", bs)
}

// case = scheme*8 + kind of fault: fields which can't be encoded are refused
func vpH_EPCReject() {
	s, kind := vpSchemeOf(vpCase()/8), vpCase()%8
	p := vpChoose(7)
	fv := "3"
	cp, _ := vpNumber(12-p, 64)
	n := s.digits[p]
	if n == 0 {
		n = 1
	}
	ref, _ := vpNumber(n, s.bits[p])
	ser := ""
	if s.serial {
		ser, _ = vpNumber(4, 38)
	}
	bad := func(t string) string {
		b := []byte(t)
		i := vpChoose(len(b))
		b[i] = vpByte()
		vpAssume(vpOr(b[i] < '0', b[i] > '9'))
		return string(b)
	}
	switch kind {
	case 0: // filter value of more than three bits
		fv, _ = vpNumber(1, 64)
		vpAssume(fv[0] > '7')
	case 1: // no such length of company prefix
		n := vpChoose(9)
		if n < 5 {
			n++
		} else {
			n += 8
		}
		cp, _ = vpNumber(n, 64)
	case 2: // reference beyond its digits
		if n+1 > 18 {
			return
		}
		var v uint64
		ref, v = vpNumber(n+1, 64)
		if s.digits[p] == 0 {
			vpAssume(v>>uint(s.bits[p]) != 0)
		} else {
			vpAssume(v >= vpPow10(n))
		}
	case 3: // serial beyond its bits
		if !s.serial {
			return
		}
		var v uint64
		ser, v = vpNumber(12+vpChoose(3), 64)
		vpAssume(v>>38 != 0)
	case 4:
		fv = bad(fv)
	case 5:
		cp = bad(cp)
	case 6:
		ref = bad(ref)
	case 7:
		if !s.serial {
			return
		}
		ser = bad(ser)
	}
	vpReach("faulty")
	id, f, e, err := vpMake(s, false, fv, cp, ref, ser)
	vpAssert(err != nil, "fields which can't be encoded are accepted")
	vpAssert(len(id) == 0 && f == "" && e == "", "a tag comes with the error")
	_, f, e, err = vpMake(s, true, fv, cp, ref, ser)
	vpAssert(err != nil, "a pattern of fields which can't be encoded is accepted")
	vpAssert(f == "" && e == "", "a pattern comes with the error")
}

// case = scheme*7 + partition: blank fields are filled in with valid values
func vpH_EPCRandom() {
	s, p := vpSchemeOf(vpCase()/7), vpCase()%7
	fv := "5"
	cp, cpv := vpNumber(12-p, 64)
	n := s.digits[p]
	if n == 0 {
		n = 1
	}
	ref, refv := vpNumber(n, s.bits[p])
	ser, serv := "", uint64(0)
	if s.serial {
		ser, serv = vpNumber(6, 38)
	}
	noFV, noRef, noSer := vpChoose(2) == 1, vpChoose(2) == 1, s.serial && vpChoose(2) == 1
	if noFV {
		fv = ""
	}
	if noRef {
		ref = ""
	}
	if noSer {
		ser = ""
	}
	id, _, _, err := vpMake(s, false, fv, cp, ref, ser)
	vpReach("filled in")
	vpAssert(err == nil && len(id) == 12, "no tag is generated")
	vpObserve("tag", string(id))
	gotRef := vpField(id, 14+vpCPBits[p], s.bits[p])
	if noRef {
		if s.digits[p] == 0 {
			vpAssert(gotRef == 0, "an asset type is generated where there is none")
		} else if s.name != "giai" || s.digits[p] < 19 {
			vpAssert(gotRef < vpPow10(s.digits[p]), "the generated reference exceeds its digits")
		}
		refv = gotRef
	}
	if noSer {
		serv = vpField(id, 58, 38)
	}
	f := uint64(5)
	if noFV {
		f = vpField(id, 8, 3)
	}
	vpCheckTag(s, p, id, f, cpv, refv, serv)
	_, _, _, err = vpMake(s, false, fv, "", ref, ser)
	vpAssert(err != nil, "a tag without company prefix is generated")
}
