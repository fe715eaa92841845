package filtering

import (
	"github.com/iomz/go-llrp"
)

func vpIff(a, b bool) bool { return vpOr(vpAnd(a, b), vpAnd(!a, !b)) }

func vpTag(n int) []byte {
	id := make([]byte, n)
	for i := range id {
		id[i] = vpByte()
	}
	return id
}

// A pattern and the bits a tag must start with to belong to it.
type vpPat struct {
	uri, pat, bits string
}

func vpSixBits(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		for j := 5; j >= 0; j-- {
			out += string(rune('0' + s[i]>>uint(j)&1))
		}
	}
	return out
}

func vpBin(v uint64, n int) string {
	out := ""
	for i := n - 1; i >= 0; i-- {
		out += string(rune('0' + v>>uint(i)&1))
	}
	return out
}

// short patterns, nested and branching at various bits
func vpPool() []vpPat {
	var out []vpPat
	for i, s := range []string{"@", "@@", "@A", "P", "?", "@@@", "A", "0", "P?"} {
		out = append(out, vpPat{"http://h/" + string(rune('a'+i)), "urn:epc:pat:iso17365:" + s, vpSixBits(s)})
	}
	return out
}

// patterns which nest three levels, with siblings before and after
func vpNestedPool() []vpPat {
	var out []vpPat
	for i, s := range []string{"@", "P", "P@", "PA", "PA@", "@A", "P@A"} {
		out = append(out, vpPat{"http://h/" + string(rune('a'+i)), "urn:epc:pat:iso17365:" + s, vpSixBits(s)})
	}
	return out
}

// patterns which nest in each other's branches, of ones and of zeros
func vpBranchPool() []vpPat {
	var out []vpPat
	for i, s := range []string{"P", "P?", "P0", "P?@", "P?_", "?", "P0@"} {
		out = append(out, vpPat{"http://h/" + string(rune('a'+i)), "urn:epc:pat:iso17365:" + s, vpSixBits(s)})
	}
	return out
}

// every tree of three levels: the filter values of a scheme
func vpTreePool() []vpPat {
	var out []vpPat
	for i := uint64(0); i < 8; i++ {
		c := string(rune('0' + i))
		out = append(out, vpPat{"http://h/" + c, "urn:epc:pat:sgtin-96:" + c, "00110000" + vpBin(i, 3)})
	}
	return out
}

// patterns of the EPC schemes and of the ISO standards
func vpMixedPool() []vpPat {
	cp := vpBin(5, 3) + vpBin(614141, 24) // partition 5: seven digits
	sg := "00110000"
	return []vpPat{
		{"http://h/a", "urn:epc:pat:sgtin-96:3", sg + "011"},
		{"http://h/b", "urn:epc:pat:sgtin-96:3.0614141", sg + "011" + cp},
		{"http://h/c", "urn:epc:pat:sgtin-96:3.0614141.12345", sg + "011" + cp + vpBin(12345, 20)},
		{"http://h/d", "urn:epc:pat:sgtin-96:3.0614141.12345.400", sg + "011" + cp + vpBin(12345, 20) + vpBin(400, 38)},
		{"http://h/e", "urn:epc:pat:sscc-96:5.0614141", "00110001101" + cp},
		{"http://h/f", "urn:epc:pat:giai-96:3", "00110100011"},
		{"http://h/g", "urn:epc:pat:grai-96:2.0614141.1234", "00110011010" + cp + vpBin(1234, 20)},
		{"http://h/h", "urn:epc:pat:iso17363:7B.ABC", vpSixBits("7BABC")},
		{"http://h/i", "urn:epc:pat:iso17365:25S", vpSixBits("25S")},
	}
}

func (p *vpPat) matches(id []byte) bool {
	if len(p.bits) > 8*len(id) {
		return false
	}
	m := true
	for i := 0; i < len(p.bits); i++ {
		m = vpAnd(m, id[i/8]>>uint(7-i%8)&1 == p.bits[i]-'0')
	}
	return m
}

func vpEngineOf(k int) func(Subscriptions) Engine {
	switch k {
	case 0:
		return NewList
	case 1:
		return NewPatriciaTrie
	}
	return NewSplayTree
}

func vpSubs(pool []vpPat, in []bool) Subscriptions {
	sub := Subscriptions{}
	for i := range pool {
		if in[i] {
			sub[pool[i].uri] = append(sub[pool[i].uri], pool[i].pat)
		}
	}
	return sub
}

func vpSeen(pool []vpPat, uri string) bool {
	for i := range pool {
		if pool[i].uri == uri {
			return true
		}
	}
	return false
}

type vpSearcher interface {
	Search(llrp.ReadEvent) (string, []string, error)
}

// the engine reports the tag to exactly the subscribers of the patterns it belongs to
func vpSearch(e vpSearcher, pool []vpPat, in []bool, pc, id []byte) {
	before := string(id)
	_, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
	vpAssert(vpStrEq(string(id), before), "the search changes the tag")
	any, seen := false, ""
	for i := range pool {
		if vpSeen(pool[:i], pool[i].uri) {
			continue
		}
		// the subscriber's patterns
		m, n := false, 0
		for j := i; j < len(pool); j++ {
			if in[j] && pool[j].uri == pool[i].uri {
				m = vpOr(m, pool[j].matches(id))
				n++
			}
		}
		got := 0
		for _, u := range uris {
			if u == pool[i].uri {
				got++
			}
		}
		seen += string(rune('0' + got))
		vpAssert(got <= n, "a subscriber gets a tag more often than it has patterns")
		if got > 0 {
			vpAssert(m, "a subscriber gets a tag of no pattern of its own")
			any = true
		} else {
			vpAssert(!m, "a subscriber misses a tag of its pattern")
		}
	}
	for _, u := range uris {
		known := false
		for i := range pool {
			if pool[i].uri == u {
				known = true
			}
		}
		vpAssert(known, "a tag is reported to nobody's address")
	}
	if !any {
		vpAssert(err != nil, "a tag of no pattern is not refused")
	}
	vpReach("searched")
	vpObserve("uris", seen)
}

func vpJoin(l []string) string {
	s := ""
	for _, x := range l {
		s += x + " "
	}
	return s
}

func vpPick(n int) []bool { return vpPickFrom(n, 0) }

func vpPickFrom(n, from int) []bool {
	in := make([]bool, n)
	for i := from; i < n; i++ {
		in[i] = vpChoose(2) == 1
	}
	return in
}

var vpNoPC = []byte{0x31, 0x00} // a tag of no known application

func vpBuilt(k int) {
	pool := vpPool()[:6+vpTier()*2]
	in := vpPick(len(pool))
	vpSearch(vpEngineOf(k)(vpSubs(pool, in)), pool, in, vpNoPC, vpTag(3))
}

// every subset of the filter values
func vpTree(k int) {
	pool := vpTreePool()
	in := vpPick(len(pool))
	vpSearch(vpEngineOf(k)(vpSubs(pool, in)), pool, in, vpNoPC, vpTag(2))
}

func vpH_ListTree()     { vpTree(0) }
func vpH_PatriciaTree() { vpTree(1) }
func vpH_SplayTree()    { vpTree(2) }

// every subset of nested patterns, after a search (two)
func vpH_SplayNested() {
	pool := vpNestedPool()
	in := vpPickCase(len(pool))
	e := NewSplayTree(vpSubs(pool, in))
	for i := 0; i < 1+vpTier(); i++ {
		vpSearch(e, pool, in, vpNoPC, vpTag(3))
	}
	vpSearch(e, pool, in, vpNoPC, vpTag(3))
}

func vpH_ListBuilt()     { vpBuilt(0) }
func vpH_PatriciaBuilt() { vpBuilt(1) }

// case = subset of the first four patterns
func vpPickCase(n int) []bool {
	in := vpPickFrom(n, 4)
	for i := 0; i < 4; i++ {
		in[i] = vpCase()>>uint(i)&1 == 1
	}
	return in
}

func vpMixed(k int) {
	pool := vpMixedPool()
	in := vpPickCase(len(pool))
	vpSearch(vpEngineOf(k)(vpSubs(pool, in)), pool, in, vpNoPC, vpTag(12))
}

func vpH_ListMixed()     { vpMixed(0) }
func vpH_PatriciaMixed() { vpMixed(1) }

// the shape of the splay tree depends on the searches before: case = number of them
func vpH_SplaySearches() {
	pool := vpPool()[:6]
	in := vpPick(len(pool))
	e := NewSplayTree(vpSubs(pool, in))
	for i := 0; i < vpCase(); i++ {
		vpSearch(e, pool, in, vpNoPC, vpTag(3))
	}
	vpSearch(e, pool, in, vpNoPC, vpTag(3))
}

func vpH_SplayMixed() {
	pool := vpMixedPool()
	in := vpPickCase(len(pool))
	e := NewSplayTree(vpSubs(pool, in))
	if vpTier() > 0 {
		vpSearch(e, pool, in, vpNoPC, vpTag(12))
	}
	vpSearch(e, pool, in, vpNoPC, vpTag(12))
}
