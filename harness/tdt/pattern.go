package tdt

func vpIff(a, b bool) bool { return vpOr(vpAnd(a, b), vpAnd(!a, !b)) }

// vpNumber is a number of n digits and less than 2^bits: its text and its value.
func vpNumber(n, bits int) (string, uint64) {
	max := uint64(1)<<uint(bits) - 1
	if n < 19 && vpPow10(n) <= max {
		max = vpPow10(n) - 1
	}
	v := vpNum(max)
	return vpDec(v, n), v
}

// whether the tag starts with the bits of the filter
func vpStarts(id []byte, f string) bool {
	if len(f) > 8*len(id) {
		return false
	}
	m := true
	for i := 0; i < len(f); i++ {
		m = vpAnd(m, id[i/8]>>uint(7-i%8)&1 == f[i]-'0')
	}
	return m
}

// case = scheme*7 + partition: the filter of a pattern passes exactly the tags which
// have the pattern's fields
func vpH_EPCPrefix() {
	s, p := vpSchemeOf(vpCase()/7), vpCase()%7
	fv := vpByteIn('0', '7')
	n := s.digits[p]
	if n == 0 {
		n = 1
	}
	if n > 18 {
		n = 18
	}
	k := 4
	if !s.serial {
		k = 3
	}
	k = 1 + vpChoose(k)
	fields := []string{string([]byte{fv})}
	id := vpTag(12)
	match := vpAnd(id[0] == s.header, vpField(id, 8, 3) == uint64(fv-'0'))
	if k > 1 {
		cp, v := vpNumber(12-p, 64)
		fields = append(fields, cp)
		match = vpAnd(match, vpField(id, 11, 3) == uint64(p))
		match = vpAnd(match, vpField(id, 14, vpCPBits[p]) == v)
	}
	if k > 2 {
		// references and serials need not have all their digits
		if n > 2 {
			n = 1 + (n-1)*vpChoose(2)
		}
		ref, v := vpNumber(n, s.bits[p])
		fields = append(fields, ref)
		match = vpAnd(match, vpField(id, 14+vpCPBits[p], s.bits[p]) == v)
	}
	if k > 3 {
		ser, v := vpNumber(1+11*vpChoose(2), 38)
		fields = append(fields, ser)
		match = vpAnd(match, vpField(id, 58, 38) == v)
	}
	f, err := MakePrefixFilterString(s.name+"-96", fields)
	vpReach("pattern")
	vpAssert(err == nil, "a pattern is rejected")
	for i := 0; i < len(f); i++ {
		vpAssert(vpOr(f[i] == '0', f[i] == '1'), "the filter is not a bit string")
	}
	vpAssert(vpIff(vpStarts(id, f), match), "the filter does not pass exactly the tags of the pattern")
	vpObserve("filter", f)
}

// case = scheme*9 + kind of fault: patterns no tag can have are refused
func vpH_EPCPrefixReject() {
	s, kind := vpSchemeOf(vpCase()/9), vpCase()%9
	p := vpChoose(7)
	fv := "3"
	cp, _ := vpNumber(12-p, 64)
	n := s.digits[p]
	if n == 0 {
		n = 1
	}
	ref, _ := vpNumber(n, s.bits[p])
	ser := ""
	if s.serial {
		ser, _ = vpNumber(4, 38)
	}
	bad := func(t string) string {
		b := []byte(t)
		i := vpChoose(len(b))
		b[i] = vpByte()
		vpAssume(vpOr(b[i] < '0', b[i] > '9'))
		return string(b)
	}
	least, empty := 1, false
	switch kind {
	case 0: // filter value of more than three bits
		fv, _ = vpNumber(1, 64)
		vpAssume(fv[0] > '7')
	case 1: // no such length of company prefix
		least = 2
		n := vpChoose(9)
		if n < 5 {
			n++
		} else {
			n += 8
		}
		cp, _ = vpNumber(n, 64)
	case 2: // reference beyond its digits
		least = 3
		if n+1 > 18 {
			return
		}
		var v uint64
		ref, v = vpNumber(n+1, 64)
		if s.digits[p] == 0 {
			vpAssume(v>>uint(s.bits[p]) != 0)
		} else if s.name == "giai" {
			vpAssume(v>>uint(s.bits[p]) != 0)
			return // no number of one digit more exceeds the bits
		} else {
			vpAssume(v >= vpPow10(n))
		}
	case 3: // serial beyond its bits
		if !s.serial {
			return
		}
		least = 4
		var v uint64
		ser, v = vpNumber(12+vpChoose(3), 64)
		vpAssume(v>>38 != 0)
	case 4:
		fv = bad(fv)
	case 5:
		least, cp = 2, bad(cp)
	case 6:
		least, ref = 3, bad(ref)
	case 7:
		if !s.serial {
			return
		}
		least, ser = 4, bad(ser)
	case 8:
		empty = true
	}
	fields := []string{fv, cp, ref}
	if s.serial {
		fields = append(fields, ser)
	}
	if empty {
		switch vpChoose(3) {
		case 0:
			fields = nil
		case 1:
			fields = append(fields, "1")
		case 2:
			fields[vpChoose(len(fields))] = ""
		}
	} else {
		fields = fields[:least+vpChoose(len(fields)-least+1)]
	}
	vpReach("faulty pattern")
	f, err := MakePrefixFilterString(s.name+"-96", fields)
	vpAssert(err != nil, "a pattern no tag can have is accepted")
	vpAssert(f == "", "a filter comes with the error")
}

// a type of pattern nobody knows: case = number of characters
func vpH_PrefixUnknownType() {
	n := vpCase()
	t := make([]byte, n)
	for i := range t {
		t[i] = vpByte()
	}
	typ := string(t)
	for _, k := range []string{"giai-96", "grai-96", "sgtin-96", "sscc-96", "iso17363", "iso17365"} {
		vpAssume(!vpStrEq(typ, k))
	}
	f, err := MakePrefixFilterString(typ, []string{"1", "1234567"})
	vpReach("unknown type")
	vpAssert(err != nil && f == "", "a pattern of an unknown type is accepted")
}

// a character which has a six-bit form
func vpSix(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByteIn(32, 95)
	}
	return string(b)
}

// whether the tag starts with the six-bit characters
func vpStartsBits(id []byte, s string) bool {
	if 6*len(s) > 8*len(id) {
		return false
	}
	m := true
	for i := 0; i < len(s); i++ {
		m = vpAnd(m, vpField(id, 6*i, 6) == uint64(s[i]&63))
	}
	return m
}

// transport units: case = number of fields - 1
func vpH_ISO17365Prefix() {
	k := 1 + vpCase()
	fields := []string{vpSix(1 + vpChoose(3)), vpSix(1 + vpChoose(3)), vpSix(1 + 3*vpChoose(3)), vpSix(1 + 4*vpChoose(3))}[:k]
	all := ""
	for _, x := range fields {
		all += x
	}
	id := vpTag(16)
	f, err := MakePrefixFilterString("iso17365", fields)
	vpReach("pattern")
	vpAssert(err == nil, "a pattern is rejected")
	for i := 0; i < len(f); i++ {
		vpAssert(vpOr(f[i] == '0', f[i] == '1'), "the filter is not a bit string")
	}
	vpAssert(len(f) == 6*len(all), "not six bits a character")
	vpAssert(vpIff(vpStarts(id, f), vpStartsBits(id, all)), "the filter does not pass exactly the tags of the pattern")
	vpObserve("filter", f)
}

// ISO 6346
func vpISO6346(cn string) uint64 {
	t := [26]uint64{10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 34, 35, 36, 37, 38}
	var sum uint64
	for i := 0; i < 10; i++ {
		if i < 4 {
			sum += t[cn[i]-'A'] << uint(i)
		} else {
			sum += uint64(cn[i]-'0') << uint(i)
		}
	}
	return sum % 11 % 10
}

func vpAlpha(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByteIn('A', 'Z')
	}
	return string(b)
}

// containers: case 0..2 = number of fields - 1; then digits of the serial number given
func vpH_ISO17363Prefix() {
	k := 1 + vpCase()
	nd := 0
	if k > 4 {
		k, nd = 4, k-4
	}
	csn := ""
	for i := 0; i < nd; i++ {
		csn += string([]byte{vpDigit()})
	}
	oc, ei := vpAlpha(3), vpAlpha(1)
	fields := []string{"7B", oc, ei, csn}[:k]
	f, err := MakePrefixFilterString("iso17363", fields)
	vpReach("pattern")
	if nd > 6 {
		vpAssert(err != nil && f == "", "a container serial number of more than six digits is accepted")
		return
	}
	vpAssert(err == nil, "a pattern is rejected")
	want := "7B" + oc + ei + "000000"[:6-nd] + csn
	if k == 4 {
		want += string([]byte{'0' + byte(vpISO6346(want[2:]))})
	} else {
		want = want[:[]int{2, 5, 6}[k-1]]
	}
	for i := 0; i < len(f); i++ {
		vpAssert(vpOr(f[i] == '0', f[i] == '1'), "the filter is not a bit string")
	}
	vpAssert(len(f) == 6*len(want), "not six bits a character")
	for i := range want {
		m := true
		for j := 0; j < 6; j++ {
			m = vpAnd(m, f[6*i+j]-'0' == want[i]>>uint(5-j)&1)
		}
		vpAssert(m, "the filter is not the container's identity")
	}
	vpObserve("filter", f)
}

// case = standard*4 + field: a character without six-bit form in that field
func vpH_ISOPrefixReject() {
	fields := []string{"7B", "ABC", "U", "000001"}
	k := vpCase() % 4
	b := []byte(fields[k])
	i := vpChoose(len(b))
	b[i] = vpByte()
	vpAssume(vpOr(b[i] < 32, b[i] > 95))
	fields[k] = string(b)
	fields = fields[:k+1+vpChoose(4-k)]
	f, err := MakePrefixFilterString([]string{"iso17363", "iso17365"}[vpCase()/4], fields)
	vpReach("faulty pattern")
	vpAssert(err != nil && f == "", "a pattern no tag can have is accepted")
	typ := []string{"iso17363", "iso17365"}[vpChoose(2)]
	f, err = MakePrefixFilterString(typ, nil)
	vpAssert(err != nil && f == "", "a pattern without fields is accepted")
	f, err = MakePrefixFilterString(typ, []string{"7B", "ABC", "U", "000001", vpSix(vpChoose(2))})
	vpAssert(err != nil && f == "", "a pattern of superfluous fields is accepted")
}
