package filtering

import (
	"github.com/iomz/go-llrp"
)

func vpText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByteIn(0, 127)
	}
	return string(b)
}

// The subscribers of a malformed pattern get nothing, those of others what is theirs.
func vpIgnored(k int, bad string, pc, id []byte) {
	mk := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[k]
	good := vpMixedPool()[0]
	e := mk(Subscriptions{
		"http://h/bad":  {bad},
		"http://h/good": {bad, good.pat, bad},
	})
	check := func() {
		_, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
		vpReach("searched")
		for _, u := range uris {
			vpAssert(u == "http://h/good", "a malformed pattern has a match")
		}
		if k != 3 { // the text engine compares identities
			m := good.matches(id)
			vpAssert(len(uris) <= 1, "a malformed pattern has a match")
			if len(uris) == 1 {
				vpAssert(m, "a malformed pattern has a match")
			} else {
				vpAssert(!m, "a subscriber misses a tag of its pattern")
				vpAssert(err != nil, "a tag of no pattern is not refused")
			}
		}
	}
	check()
	e.DeleteSubscription(Subscriptions{"http://h/good": {bad}})
	e.AddSubscription(Subscriptions{"http://h/bad": {bad, bad}})
	check()
}

// case = engine + 4*(characters + 4*kind): a pattern with free characters which
// isn't one
func vpH_Malformed() {
	k, n, kind := vpCase()%4, vpCase()/4%4, vpCase()/16
	bad := ""
	switch kind {
	case 0: // anything short, too short for a type
		bad = vpText(n)
	case 1:
		bad = "urn:epc:pat:" + vpText(n)
	case 2: // a filter value
		t := vpText(n)
		vpAssume(!(n == 1 && vpAnd(n > 0 && t[0] >= '0', n > 0 && t[0] <= '7')))
		if n > 1 { // with leading zeros it's taken for its value
			vpAssume(t[0] != '0')
		}
		bad = "urn:epc:pat:sgtin-96:" + t
	case 3: // fields of a wrong size or number
		bad = "urn:epc:pat:" + []string{"sgtin-96:3.061414", "sscc-96:5.0614141.12345678901", "grai-96:2.0614141.1.1.1", "giai-96:3.00614141000000"}[n]
		b := []byte(bad)
		i := len(b) - 1 - vpChoose(6)
		b[i] = vpByteIn(0, 127)
		if n == 0 { // six characters are a company prefix
			vpAssume(vpOr(b[i] < '0', b[i] > '9'))
		}
		bad = string(b)
	case 4: // another kind of type
		bad = "urn:epc:pat:" + vpText(n) + "sgtin-96:3"
		vpAssume(n > 0)
	case 5:
		bad = []string{"urn:epc:pat:iso17365:", "urn:epc:id:sgtin:0614141", "urn:epc:pat:sgtin-96:3:", ""}[n]
	}
	vpIgnored(k, bad, []byte{0x30, 0}, []byte{0x30, 0x74&^0xe0 | vpByteIn(0, 7)<<5, 0x25, 0x7b, 0xf4, 0x0c, 0x0e, 0x40, 0, 0, 1, 0x90})
}
