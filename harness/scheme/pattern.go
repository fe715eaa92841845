package scheme

import "github.com/iomz/gosstrak/tdt"

// case = scheme*7 + partition: the pattern the generator prints and the filter it
// prints with it are the same as for the filtering side
func vpH_EPCPattern() {
	s, p := vpSchemeOf(vpCase()/7), vpCase()%7
	fv := string([]byte{vpByteIn('0', '7')})
	cp, _ := vpNumber(12-p, 64)
	n := s.digits[p]
	if n == 0 {
		n = 1
	}
	ref, _ := vpNumber(n, s.bits[p])
	ser := ""
	fields := []string{fv, cp, ref}
	if s.serial {
		ser, _ = vpNumber(6, 38)
		fields = append(fields, ser)
	}
	k := 1 + vpChoose(len(fields))
	fields = fields[:k]
	want := "urn:epc:pat:" + s.name + "-96:" + fv
	for _, x := range fields[1:] {
		want += "." + x
	}
	if k < 4 {
		ser = ""
	}
	if k < 3 {
		ref = ""
	}
	if k < 2 {
		cp = ""
	}
	f, e := vpMakeEPC(s, true, fv, cp, ref, ser)
	vpReach("pattern")
	vpAssert(vpStrEq(e, want), "wrong pattern")
	g, err := tdt.MakePrefixFilterString(s.name+"-96", fields)
	vpAssert(err == nil, "the pattern is not one for filtering")
	vpAssert(vpStrEq(f, g), "the filter differs from the one for the pattern")
	vpObserve("filter", f)
}

// case = scheme: a generated filter value
func vpH_EPCPatternBlank() {
	s := vpSchemeOf(vpCase())
	f, e := vpMakeEPC(s, true, "", "", "", "")
	vpReach("blank filter value")
	pre := "urn:epc:pat:" + s.name + "-96:"
	vpAssert(len(e) == len(pre)+1 && e[:len(pre)] == pre, "wrong pattern")
	g, err := tdt.MakePrefixFilterString(s.name+"-96", []string{e[len(pre):]})
	vpAssert(err == nil, "the pattern is not one for filtering")
	vpAssert(vpStrEq(f, g), "the filter differs from the one for the pattern")
}

func vpAlnum(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByteIn('0', 'Z')
		vpAssume(vpOr(b[i] <= '9', b[i] >= 'A'))
	}
	return string(b)
}

// case = number of fields - 1 + 4*(standard)
func vpH_ISOPattern() {
	k := 1 + vpCase()%4
	var f, e, want, name string
	var fields []string
	if vpCase()/4 == 0 {
		name = "iso17363"
		fields = []string{"7B", vpAlpha(3), vpAlpha(1), vpDigits(1 + 5*vpChoose(2))}[:k]
		in := append(append([]string{}, fields...), "", "", "")
		f, e = MakeISO(true, "17363", in[1], in[2], in[3], "", "", "", "")
		for len(fields) == 4 && len(fields[3]) < 6 {
			fields[3] = "0" + fields[3]
		}
	} else {
		name = "iso17365"
		fields = []string{vpAlnum(1 + vpChoose(3)), vpAlnum(2), vpAlnum(1 + 3*vpChoose(3)), vpAlnum(1 + 8*vpChoose(2))}[:k]
		in := append(append([]string{}, fields...), "", "", "")
		f, e = MakeISO(true, "17365", "", "", "", in[0], in[1], in[2], in[3])
	}
	want = "urn:epc:pat:" + name + ":" + fields[0]
	for _, x := range fields[1:] {
		want += "." + x
	}
	vpReach("pattern")
	vpAssert(vpStrEq(e, want), "wrong pattern")
	g, err := tdt.MakePrefixFilterString(name, fields)
	vpAssert(err == nil, "the pattern is not one for filtering")
	vpAssert(vpStrEq(f, g), "the filter differs from the one for the pattern")
	vpObserve("filter", f)
}
