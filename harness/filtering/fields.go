package filtering

import "github.com/iomz/go-llrp"

// vpPackSix puts six-bit characters into bytes, then the padding 100000...
func vpPackSix(cs []byte) []byte {
	id := make([]byte, (6*len(cs)+7)/8)
	for i := 0; i < 8*len(id); i++ {
		var b byte
		if i < 6*len(cs) {
			b = cs[i/6] >> uint(5-i%6) & 1
		} else if (i-6*len(cs))%6 == 0 {
			b = 1
		}
		id[i/8] |= b << uint(7-i%8)
	}
	return id
}

// vpISOFields: a pattern of one to four fields of an ISO standard, in upper or lower
// case, and a tag of that standard; case = the number of fields and the standard
func vpISOFields(mk EngineConstructor) {
	k := 1 + vpCase()%4
	var pat string
	var tag []byte
	match := true
	field := func(n int, used bool) {
		f := ""
		low := byte(0)
		if used && vpBool() {
			low = 'a' - 'A'
		}
		for i := 0; i < n; i++ {
			p := vpByteIn('A', 'Z')
			t := vpByteIn('A', 'Z')
			f += string([]byte{p + low})
			tag = append(tag, t)
			if used {
				match = vpAnd(match, p == t)
			}
		}
		if used {
			pat += "." + f
		}
	}
	var pc []byte
	name := "iso17365"
	if vpCase() < 4 {
		pc = []byte{0x29, 0xa2}
		for i, n := range []int{2, 1, 1, 2} {
			field(n, i < k)
		}
		pat = pat[1:]
	} else {
		name = "iso17363"
		pc = []byte{0x29, 0xa9}
		tag = []byte("7B")
		pat = "7B"
		if k < 4 {
			field(3, k > 1)
			field(1, k > 2)
			tag = append(tag, "1234565"...)
		} else {
			pat += ".CSQ.U.305438"
			a, d := vpByteIn('A', 'Z'), vpByteIn('0', '9')
			tag = append(tag, a, 'S', 'Q', 'U', d, '0', '5', '4', '3', '8', '3')
			match = vpAnd(a == 'C', d == '3')
		}
	}
	e := mk(Subscriptions{
		"http://h/a": {"urn:epc:pat:" + name + ":5.X", "urn:epc:pat:" + name + ":" + pat},
		"http://h/b": {"urn:epc:pat:" + name + ":9Z"},
	})
	urn, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: vpPackSix(tag)})
	vpReach("searched")
	vpObserve("uris", vpJoin(uris))
	vpAssert(len(uris) <= 1, "reported to too many")
	if len(uris) == 1 {
		vpAssert(uris[0] == "http://h/a", "reported to somebody else")
		vpAssert(err == nil, "a match with an error")
		vpAssert(vpStrEq(urn, "urn:epc:id:"+name+":"+string(tag)), "the wrong identity")
		vpAssert(match, "a subscriber gets a tag of no pattern of its own")
		vpReach("matched")
	} else {
		vpAssert(err != nil, "a tag of no pattern is not refused")
		vpAssert(!match, "a subscriber misses a tag of its pattern")
	}
}

func vpH_FieldsList()   { vpISOFields(NewList) }
func vpH_FieldsTrie()   { vpISOFields(NewPatriciaTrie) }
func vpH_FieldsSplay()  { vpISOFields(NewSplayTree) }
func vpH_FieldsLegacy() { vpISOFields(NewLegacyEngine) }
