package tdt

import "strconv"

// bits off..off+n-1 of id, most significant first
func vpField(id []byte, off, n int) uint64 {
	var v uint64
	for i := off; i < off+n; i++ {
		v = v<<1 | uint64((id[i/8]>>uint(7-i%8))&1)
	}
	return v
}

func vpPow10(n int) uint64 {
	v := uint64(1)
	for i := 0; i < n; i++ {
		v *= 10
	}
	return v
}

type vpScheme struct {
	header byte
	name   string
	// number of bits and digits of the field after the company prefix, per partition
	bits, digits [7]int
	serial       bool
}

var vpCPBits = [7]int{40, 37, 34, 30, 27, 24, 20}

func vpSchemeOf(k int) *vpScheme {
	switch k {
	case 0:
		return &vpScheme{48, "sgtin", [7]int{4, 7, 10, 14, 17, 20, 24}, [7]int{1, 2, 3, 4, 5, 6, 7}, true}
	case 1:
		return &vpScheme{49, "sscc", [7]int{18, 21, 24, 28, 31, 34, 38}, [7]int{5, 6, 7, 8, 9, 10, 11}, false}
	case 2:
		return &vpScheme{51, "grai", [7]int{4, 7, 10, 14, 17, 20, 24}, [7]int{0, 1, 2, 3, 4, 5, 6}, true}
	}
	return &vpScheme{52, "giai", [7]int{42, 45, 48, 52, 55, 58, 62}, [7]int{13, 14, 15, 16, 17, 18, 19}, false}
}

func vpTag(n int) []byte {
	id := make([]byte, n)
	for i := range id {
		id[i] = vpByte()
	}
	return id
}

// the identity a valid tag stands for
func vpURN(s *vpScheme, p int, id []byte) string {
	cp := vpField(id, 14, vpCPBits[p])
	ref := vpField(id, 14+vpCPBits[p], s.bits[p])
	u := "urn:epc:id:" + s.name + ":" + vpDec(cp, 12-p) + "."
	switch {
	case s.name == "giai":
		return u + strconv.FormatUint(ref, 10)
	case s.digits[p] > 0:
		u += vpDec(ref, s.digits[p])
	}
	if s.serial {
		if s.digits[p] > 0 {
			u += "."
		}
		u += strconv.FormatUint(vpField(id, 58, 38), 10)
	}
	return u
}

// Every 96-bit tag with one of the four headers: case = scheme*8 + partition.
func vpH_EPCDecode() {
	s := vpSchemeOf(vpCase() / 8)
	p := vpCase() % 8
	id := vpTag(12)
	id[0] = s.header
	vpAssume(int(id[1]>>2&7) == p)
	pc := []byte{vpByte(), vpByte()}
	vpAssume(pc[0]&1 == 0)
	var urn string
	var err error
	panicked := vpCatch(func() { urn, err = NewCore().Translate(pc, id) })
	vpAssert(!panicked, "translation of a 12-byte tag panics")
	if p == 7 {
		vpReach("reserved partition")
		vpAssert(err != nil, "a reserved partition value is translated")
		return
	}
	cp := vpField(id, 14, vpCPBits[p])
	ref := vpField(id, 14+vpCPBits[p], s.bits[p])
	if !vpAnd(cp < vpPow10(12-p), s.digits[p] == 0 || ref < vpPow10(s.digits[p])) {
		vpReach("overflow")
		vpAssert(err != nil, "a field value beyond its digit capacity is translated")
		return
	}
	vpReach("valid")
	vpAssert(err == nil, "a valid tag is rejected")
	vpObserve("urn", urn)
	vpAssert(vpStrEq(urn, vpURN(s, p, id)), "wrong pure identity")
}
