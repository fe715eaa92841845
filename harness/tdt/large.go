package tdt

// a text of n concrete characters, of which the first, the last and one between
// are free; the free ones are other than space
func vpLongText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ@?"[i*7%38]
	}
	m := 0
	if n > 2 {
		m = 1 + vpChoose(n-2)
	}
	for _, i := range []int{0, m, n - 1} {
		c := vpByteIn(33, 95)
		b[i] = c
	}
	return string(b)
}

// the tag of the text, padded to whole words
func vpLongTag(s string) []byte {
	n := (len(s)*6 + 15) / 16 * 2
	id := make([]byte, n)
	pad := "100000100000100000"
	for i := 0; i < 8*n; i++ {
		var bit byte
		if i < 6*len(s) {
			bit = s[i/6] >> uint(5-i%6) & 1
		} else {
			bit = pad[i-6*len(s)] - '0'
		}
		id[i/8] |= bit << uint(7-i%8)
	}
	return id
}

// ISO tags up to the longest: case = characters; three of them free
func vpH_ISOLong() {
	s := vpLongText(1 + vpCase())
	id := vpLongTag(s)
	pc := []byte{vpByte(), byte(161 + vpChoose(10))}
	vpAssume(pc[0]&1 == 1)
	urn, err := NewCore().Translate(pc, id)
	vpReach("long")
	vpAssert(err == nil, "a valid UII is rejected")
	vpObserve("urn", urn)
	vpAssert(vpStrEq(urn, "urn:epc:id:iso"+vpStandards[pc[1]]+":"+s), "wrong pure identity for an ISO tag")
}

// tags of 15 bytes and more which are no EPCs: case = bytes - 15
func vpH_TranslateLong() {
	n := 15 + vpCase()
	pc := vpTag(2)
	id := vpTag(n)
	vpAssume(vpOr(pc[0]&1 == 0, vpOr(pc[1] < 161, pc[1] > 170)))
	var urn string
	var err error
	panicked := vpCatch(func() { urn, err = NewCore().Translate(pc, id) })
	vpAssert(!panicked, "translation panics")
	vpReach("long")
	vpAssert(err != nil && urn == "", "a malformed tag is translated")
}

// ISO 17365 patterns of any length, three characters of them free: case = characters - 1
func vpH_ISOPrefixLong() {
	s := vpLongText(1 + vpCase())
	var fields []string
	// one, two or four fields
	switch k := vpChoose(3); {
	case k == 0 || len(s) < 4:
		fields = []string{s}
	case k == 1:
		fields = []string{s[:len(s)/2], s[len(s)/2:]}
	default:
		fields = []string{s[:1], s[1:2], s[2 : 2+(len(s)-2)/2], s[2+(len(s)-2)/2:]}
	}
	f, err := MakePrefixFilterString("iso17365", fields)
	vpReach("pattern")
	vpAssert(err == nil, "a pattern is rejected")
	vpAssert(len(f) == 6*len(s), "not six bits a character")
	for i := 0; i < len(f); i++ {
		vpAssert(f[i] == '0'+s[i/6]>>uint(5-i%6)&1, "wrong bit of the filter")
	}
	vpObserve("filter", f)
}
