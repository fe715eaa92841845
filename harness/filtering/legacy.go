package filtering

import (
	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/tdt"
)

type vpScheme struct {
	header byte
	name   string
	// number of bits and digits of the field after the company prefix, per partition
	bits, digits [7]int
	serial       bool
}

var vpCPBits = [7]int{40, 37, 34, 30, 27, 24, 20}

func vpSchemeOf(k int) *vpScheme {
	switch k {
	case 0:
		return &vpScheme{48, "sgtin", [7]int{4, 7, 10, 14, 17, 20, 24}, [7]int{1, 2, 3, 4, 5, 6, 7}, true}
	case 1:
		return &vpScheme{49, "sscc", [7]int{18, 21, 24, 28, 31, 34, 38}, [7]int{5, 6, 7, 8, 9, 10, 11}, false}
	case 2:
		return &vpScheme{51, "grai", [7]int{4, 7, 10, 14, 17, 20, 24}, [7]int{0, 1, 2, 3, 4, 5, 6}, true}
	}
	return &vpScheme{52, "giai", [7]int{42, 45, 48, 52, 55, 58, 62}, [7]int{13, 14, 15, 16, 17, 18, 19}, false}
}

func vpPow10(n int) uint64 {
	v := uint64(1)
	for i := 0; i < n; i++ {
		v *= 10
	}
	return v
}

// vpNumber is a number of n digits and less than 2^bits: its text and its value.
func vpNumber(n, bits int) (string, uint64) {
	max := uint64(1)<<uint(bits) - 1
	if n < 19 && vpPow10(n) <= max {
		max = vpPow10(n) - 1
	}
	v := vpNum(max)
	return vpDec(v, n), v
}

// a number without leading zeros
func vpCanonical(n, bits int) (string, uint64) {
	s, v := vpNumber(n, bits)
	if n > 1 {
		vpAssume(s[0] != '0')
	}
	return s, v
}

type vpFields struct {
	fv              byte
	p               int
	cp, ref, ser    string
	cpv, refv, serv uint64
}

func vpSomeFields(s *vpScheme, p int) *vpFields {
	f := &vpFields{p: p, fv: vpByteIn('0', '7')}
	f.cp, f.cpv = vpNumber(12-p, 64)
	switch {
	case s.name == "giai":
		f.ref, f.refv = vpCanonical(1+3*vpChoose(2), s.bits[p])
	case s.digits[p] > 0:
		f.ref, f.refv = vpNumber(s.digits[p], s.bits[p])
	}
	if s.serial {
		f.ser, f.serv = vpCanonical(1+2*vpChoose(2), 38)
	}
	return f
}

func vpPut(id []byte, off, n int, v uint64) {
	for i := 0; i < n; i++ {
		id[(off+i)/8] |= byte(v>>uint(n-1-i)&1) << uint(7-(off+i)%8)
	}
}

func vpTagOf(s *vpScheme, f *vpFields) []byte {
	id := make([]byte, 12)
	id[0] = s.header
	vpPut(id, 8, 3, uint64(f.fv-'0'))
	vpPut(id, 11, 3, uint64(f.p))
	vpPut(id, 14, vpCPBits[f.p], f.cpv)
	vpPut(id, 14+vpCPBits[f.p], s.bits[f.p], f.refv)
	if s.serial {
		vpPut(id, 58, 38, f.serv)
	}
	return id
}

// the identity of the tag
func (f *vpFields) urn(s *vpScheme) string {
	u := "urn:epc:id:" + s.name + ":" + f.cp
	if f.ref != "" {
		u += "." + f.ref
	}
	if f.ser != "" {
		u += "." + f.ser
	}
	return u
}

// case = scheme*7 + partition of the tag: the text engine compares whole fields
func vpH_LegacyEPC() {
	s, p := vpSchemeOf(vpCase()/7), vpCase()%7
	t := vpSomeFields(s, p)
	id := vpTagOf(s, t)
	q := p
	switch vpChoose(3) {
	case 1: // a longer company prefix
		if q > 0 {
			q--
		}
	case 2:
		if q < 6 {
			q++
		}
	}
	x := vpSomeFields(s, q)
	// how many fields of the pattern are given
	max := 3
	if s.serial {
		max = 4
	}
	if x.ref == "" {
		max = 2
	}
	k := 1 + vpChoose(max)
	pat := "urn:epc:pat:" + s.name + "-96:" + string([]byte{x.fv})
	match := true
	if k > 1 {
		pat += "." + x.cp
		match = vpAnd(match, q == p && vpStrEq(x.cp, t.cp))
	}
	if k > 2 {
		pat += "." + x.ref
		match = vpAnd(match, vpStrEq(x.ref, t.ref))
	}
	if k > 3 {
		pat += "." + x.ser
		match = vpAnd(match, vpStrEq(x.ser, t.ser))
	}
	other := vpSchemeOf((vpCase()/7 + 1) % 4)
	e := NewLegacyEngine(Subscriptions{
		"http://h/a": {"urn:epc:pat:iso17365:25S", pat},
		"http://h/b": {"urn:epc:pat:" + other.name + "-96:3"},
	})
	urn, uris, err := e.Search(llrp.ReadEvent{PC: []byte{0x30, 0}, ID: id})
	vpReach("searched")
	vpObserve("uris", vpJoin(uris))
	vpAssert(vpStrEq(urn, t.urn(s)), "the wrong identity")
	vpAssert(len(uris) <= 1, "reported to too many")
	if len(uris) == 1 {
		vpAssert(uris[0] == "http://h/a", "reported to somebody else")
		vpAssert(err == nil, "a match with an error")
		vpAssert(match, "a subscriber gets a tag of no pattern of its own")
	} else {
		vpAssert(err != nil, "a tag of no pattern is not refused")
		vpAssert(!match, "a subscriber misses a tag of its pattern")
	}
}

// The protocol control bits of an ISO 17365 tag.
var vpPC17365 = []byte{0x09, 0xa2}

// a tag of n bytes without the character which pads
func vpISOTag(n int) []byte {
	id := vpTag(n)
	for i := 0; i+6 <= 8*n; i += 6 {
		var v byte
		for j := i; j < i+6; j++ {
			v = v<<1 | id[j/8]>>uint(7-j%8)&1
		}
		vpAssume(v != 32)
	}
	return id
}

// every subset of the short ISO patterns, in the text engine
func vpH_LegacyISO() {
	pool := vpPool()[:6+vpTier()*2]
	in := vpPick(len(pool))
	vpSearch(NewLegacyEngine(vpSubs(pool, in)), pool, in, vpPC17365, vpISOTag(3))
}

// Subscribers with several patterns each; a pattern may have several subscribers.
type vpModel struct {
	pool []vpPat
	uris []string
	has  [][]bool // [subscriber][pattern]
}

func vpNewModel(nu, np int, bits int) *vpModel {
	m := &vpModel{pool: vpPool()[:np]}
	for u := 0; u < nu; u++ {
		m.uris = append(m.uris, "http://s/"+string(rune('a'+u)))
		h := make([]bool, np)
		for i := range h {
			h[i] = bits>>uint(u*np+i)&1 == 1
		}
		m.has = append(m.has, h)
	}
	return m
}

func (m *vpModel) subs() Subscriptions {
	s := Subscriptions{}
	for u, h := range m.has {
		for i := range h {
			if h[i] {
				s[m.uris[u]] = append(s[m.uris[u]], m.pool[i].pat)
			}
		}
	}
	return s
}

// each subscriber gets the tag if it belongs to one of its patterns, at most once
// for each of them
func (m *vpModel) search(e Engine, pc, id []byte, finding string, shared bool) {
	_, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
	vpReach("searched")
	vpObserve("n", len(uris) > 0)
	total := 0
	any := false
	for u, h := range m.has {
		got := 0
		for _, x := range uris {
			if x == m.uris[u] {
				got++
			}
		}
		total += got
		match, common := false, false
		most := 0
		for i := range h {
			if h[i] {
				x := m.pool[i].matches(id)
				if shared && m.has[1-u][i] {
					common = vpOr(common, x)
				} else {
					match = vpOr(match, x)
				}
				most++
			}
		}
		vpAssert(got <= most, "a subscriber gets a tag more often than it has patterns")
		if got > 0 {
			vpAssert(vpOr(match, common), "a subscriber gets a tag of no pattern of its own")
		} else {
			vpAssert(!match, "a subscriber misses a tag of its pattern")
			vpAssertK(!common, finding, shared, "a subscriber misses a tag of a pattern it has in common with another")
			any = vpOr(any, common)
		}
	}
	if total == 0 {
		vpAssert(!any, "no subscriber of a pattern gets its tag")
	}
	vpAssert(total == len(uris), "a tag is reported to nobody's address")
	if total == 0 {
		vpAssert(err != nil, "a tag of no pattern is not refused")
	}
}

// case = which of two subscribers has each of four patterns, everybody else's
// choice is whether it is there at all
func vpShared(k int) {
	n := 4 + vpTier()
	m := vpNewModel(2, n, 0)
	for i := 0; i < n; i++ {
		if vpChoose(2) == 1 {
			m.has[vpCase()>>uint(i)&1][i] = true
		}
	}
	m.search(vpEngineOf(k)(m.subs()), vpNoPC, vpTag(3), "", false)
}

func vpH_ListShared()     { vpShared(0) }
func vpH_PatriciaShared() { vpShared(1) }
func vpH_SplayShared()    { vpShared(2) }

// case = engine: two subscribers of the same pattern
func vpH_SamePattern() {
	k := vpCase()
	m := vpNewModel(2, 2, 0)
	shared := false
	for i := 0; i < 2; i++ {
		for u := 0; u < 2; u++ {
			m.has[u][i] = vpChoose(2) == 1
		}
		if m.has[0][i] && m.has[1][i] {
			shared = true
		}
	}
	pc, id := vpPC17365, vpISOTag(3)
	mk := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[k]
	finding := []string{"same-pattern-list", "same-pattern-trie", "same-pattern-splay", "-"}[k]
	m.search(mk(m.subs()), pc, id, finding, shared && k != 3)
}

// case = what two subscribers have of three patterns: the text engine after
// additions and deletions
func vpH_LegacyHistory() {
	np := 2 + vpTier()
	m := vpNewModel(2, np, vpCase())
	given := m.subs()
	e := NewLegacyEngine(given)
	for i := 0; i < 2; i++ {
		u := vpChoose(3)
		set := vpChoose(1<<uint(np)-1) + 1
		sub := Subscriptions{}
		uri := "http://s/z"
		if u < 2 {
			uri = m.uris[u]
		}
		for j := 0; j < np; j++ {
			if set>>uint(j)&1 == 1 {
				sub[uri] = append(sub[uri], m.pool[j].pat)
			}
		}
		both := u == 2 && vpChoose(2) == 1
		if both { // in one call with the ones of a stranger before and after
			sub["http://a/none"] = sub[uri]
			sub[m.uris[0]] = append([]string{}, sub[uri]...)
			sub[m.uris[1]] = append([]string{}, sub[uri]...)
		}
		add := u < 2 && vpChoose(2) == 1
		if add {
			e.AddSubscription(sub)
		} else {
			e.DeleteSubscription(sub)
		}
		for j := 0; j < np; j++ {
			if u < 2 && set>>uint(j)&1 == 1 {
				m.has[u][j] = add
			}
			if both && set>>uint(j)&1 == 1 {
				m.has[0][j], m.has[1][j] = false, false
			}
		}
		// what the caller holds is the caller's
		l := sub[uri]
		for j := range l {
			l[j] = "gone"
		}
	}
	m.search(e, vpPC17365, vpISOTag(2), "", false)
	was := vpNewModel(2, np, vpCase()).subs()
	vpSameSubs(given, was)
}

// case = engine + 4*(protocol control bytes + 4*length of the tag): tags of any
// length with any protocol control bits
func vpH_AnyTag() {
	k, np, n := vpCase()%4, vpCase()/4%4, vpCase()/16
	if n > 4 && np != 2 {
		return
	}
	pool := vpMixedPool()
	in := make([]bool, len(pool))
	for i := range in {
		in[i] = true
	}
	mk := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[k]
	short := vpPool()[:3]
	sub := vpSubs(pool, in)
	for i := range short {
		sub["http://i/"+string(rune('a'+i))] = []string{short[i].pat}
	}
	e := mk(sub)
	id := vpTag(n)
	pc := vpTag(np)
	if n > 4 { // the ISO side is the subject of shorter ones
		vpAssume(pc[0]&1 == 0)
	}
	before, pcb := string(id), string(pc)
	urn, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
	vpReach("searched")
	vpAssert(vpStrEq(string(id), before), "the search changes the tag")
	vpAssert(vpStrEq(string(pc), pcb), "the search changes the protocol control bits")
	for i := range pool {
		if vpIn(pool[i].uri, uris) {
			vpAssert(in[i] && 8*n >= len(pool[i].bits), "a tag is shorter than its pattern")
		}
	}
	if len(uris) == 0 {
		vpAssert(err != nil, "a tag of no pattern is not refused")
		return
	}
	want, err2 := tdt.NewCore().Translate(pc, id)
	vpAssert((err == nil) == (err2 == nil), "the tag's translation fails")
	vpAssert(vpStrEq(urn, want), "not the identity of the tag")
}

// case = engine: a match comes with the identity of the tag
func vpH_Identity() {
	k := vpCase()
	mk := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[k]
	pool := vpMixedPool()
	in := make([]bool, len(pool))
	for i := range in {
		in[i] = true
	}
	e := mk(vpSubs(pool, in))
	id := []byte{0x30, 0x74, 0x25, 0x7b, 0xf4, 0x0c, 0x0e, 0x40, 0, 0, 1, 0x90}
	id[9], id[10], id[11] = vpByte(), vpByte(), vpByte()
	pc := []byte{0x30, 0}
	switch vpChoose(3) { // what was searched for before makes no difference
	case 1:
		e.Search(llrp.ReadEvent{PC: []byte{0x31, 0xa2}, ID: append([]byte{}, id...)})
	case 2:
		other := append([]byte{}, id...)
		other[11] = vpByte()
		e.Search(llrp.ReadEvent{PC: pc, ID: other})
	}
	urn, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
	vpReach("searched")
	vpAssert(err == nil, "a tag is refused")
	want, _ := tdt.NewCore().Translate(pc, id)
	vpAssert(vpStrEq(urn, want), "not the identity of the tag")
	vpObserve("urn", urn)
	for i := 0; i < 2; i++ {
		vpAssert(vpIn(pool[i].uri, uris), "a subscriber misses a tag of its pattern")
	}
}

// case = engine: an ISO tag read with one application family and then with another,
// and a tag of the same company
func vpH_IdentityISO() {
	mk := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[vpCase()]
	e := mk(Subscriptions{"http://h/a": {"urn:epc:pat:iso17365:L"}, "http://h/b": {"urn:epc:pat:iso17363:L"}})
	id := vpISOTag(4)
	id[0] = 'L'&63<<2 | id[0]&3
	for i := 0; i < 2+vpTier(); i++ {
		pc := []byte{0x11, []byte{162, 169, 161, 0}[vpChoose(4)]}
		urn, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
		want, err2 := tdt.NewCore().Translate(pc, id)
		vpReach("searched")
		vpAssert(len(uris) > 0 || err != nil, "a tag of no pattern is not refused")
		if len(uris) > 0 {
			vpAssert((err == nil) == (err2 == nil), "the tag's translation fails")
			vpAssert(vpStrEq(urn, want), "not the identity of the tag")
		}
		vpObserve("urn", urn)
	}
}

// case = engine*2 + kind: EPC patterns are for EPC tags, ISO patterns for the tags
// of their standard
func vpH_Kinds() {
	k, epc := vpCase()/2, vpCase()%2 == 0
	mk := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[k]
	finding := []string{"kind-list", "kind-trie", "kind-splay", "-"}[k]
	id := vpTag(12)
	var pats []string
	var pc []byte
	if epc { // an ISO tag
		pats = []string{"urn:epc:pat:sgtin-96:3", "urn:epc:pat:giai-96:1.0614141"}
		pc = []byte{0x31, 0xa2}
		id = vpISOTag(4)
	} else {
		pats = []string{"urn:epc:pat:iso17365:L", "urn:epc:pat:iso17363:L"}
		pc = []byte{0x30, 0}
		id[0], id[1] = 0x30, 0x74
		for i := 2; i < 11; i++ {
			id[i] = 0
		}
	}
	e := mk(Subscriptions{"http://h/a": {pats[0]}, "http://h/b": {pats[1]}})
	_, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
	vpReach("searched")
	vpAssertK(len(uris) == 0, finding, k != 3, "a tag of another kind is reported")
	if len(uris) == 0 {
		vpAssert(err != nil, "a tag of no pattern is not refused")
	}
}

// case = engine + 4*length: tags of lengths EPCs don't have
func vpH_AnyTagLong() {
	k, n := vpCase()%4, []int{13, 16, 24, 62, 128}[vpCase()/4]
	pool := vpMixedPool()
	in := make([]bool, len(pool))
	for i := range in {
		in[i] = true
	}
	e := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[k](vpSubs(pool, in))
	id := append([]byte{0x30, 0x74, 0x25, 0x7b, 0xf4, 0x0c, 0x0e, 0x40, 0, 0, 1, 0x90}, make([]byte, n-12)...)
	id[vpChoose(3)] = vpByte()
	id[7], id[n-1] = vpByte(), vpByte()
	pc := []byte{vpByte(), vpByte()}
	vpAssume(vpOr(pc[0]&1 == 0, vpOr(pc[1] < 161, pc[1] > 170)))
	before := string(id)
	urn, uris, err := e.Search(llrp.ReadEvent{PC: pc, ID: id})
	vpReach("searched")
	vpAssert(vpStrEq(string(id), before), "the search changes the tag")
	if len(uris) == 0 {
		vpAssert(err != nil, "a tag of no pattern is not refused")
		return
	}
	want, err2 := tdt.NewCore().Translate(pc, id)
	vpAssert((err == nil) == (err2 == nil), "the tag's translation fails")
	vpAssert(vpStrEq(urn, want), "not the identity of the tag")
}
