package filtering

import (
	"github.com/iomz/go-llrp"
)

func vpFresh(k int) Engine {
	switch k {
	case 0:
		return &List{}
	case 1:
		return &PatriciaTrie{}
	case 2:
		return &SplayTree{}
	}
	return &LegacyEngine{}
}

// case = engine*64 + subset: a saved and restored engine reports the same,
// also after further changes
func vpH_EngineRestore() {
	k := vpCase() / 32
	pool := vpPool()[:5]
	in := make([]bool, len(pool))
	for i := range in {
		in[i] = vpCase()>>uint(i)&1 == 1
	}
	e := vpEngineOf(k)(vpSubs(pool, in))
	if k == 2 {
		vpSearch(e, pool, in, vpNoPC, vpTag(3))
	}
	data, err := e.MarshalBinary()
	vpAssert(err == nil, "an engine can't be saved")
	r := vpFresh(k)
	err = r.UnmarshalBinary(data)
	vpReach("restored")
	vpAssert(err == nil, "a saved engine can't be restored")
	vpAssert(r.Name() == e.Name(), "restored as another engine")
	vpAssert(r.Dump() == e.Dump(), "the restored engine differs")
	i := vpChoose(len(pool))
	switch vpChoose(3) {
	case 0:
		r.AddSubscription(Subscriptions{pool[i].uri: {pool[i].pat}})
		in[i] = true
	case 1:
		r.DeleteSubscription(Subscriptions{pool[i].uri: {pool[i].pat}})
		in[i] = false
	}
	vpSearch(r, pool, in, vpNoPC, vpTag(3))
}

// case = engine*8 + subset of three: any subset of eight filter values
func vpH_TreeRestore() {
	k := vpCase() / 8
	pool := vpTreePool()
	in := vpPickFrom(len(pool), 3)
	for i := 0; i < 3; i++ {
		in[i] = vpCase()>>uint(i)&1 == 1
	}
	data, err := vpEngineOf(k)(vpSubs(pool, in)).MarshalBinary()
	vpAssert(err == nil, "an engine can't be saved")
	r := vpFresh(k)
	err = r.UnmarshalBinary(data)
	vpReach("restored")
	vpAssert(err == nil, "a saved engine can't be restored")
	vpSearch(r, pool, in, vpNoPC, vpTag(2))
}

// the text engine: case = subset
func vpH_LegacyRestore() {
	pool := vpMixedPool()[:5]
	in := make([]bool, len(pool))
	for i := range in {
		in[i] = vpCase()>>uint(i)&1 == 1
	}
	sub := vpSubs(pool, in)
	if vpChoose(2) == 1 {
		sub["http://h/two"] = []string{pool[0].pat, pool[4].pat}
	}
	e := NewLegacyEngine(sub)
	data, err := e.MarshalBinary()
	vpAssert(err == nil, "an engine can't be saved")
	r := vpFresh(3)
	if vpChoose(2) == 1 {
		// in use before
		r = NewLegacyEngine(Subscriptions{"http://h/two": []string{pool[1].pat}, "http://h/old": []string{pool[0].pat, pool[4].pat}})
	}
	err = r.UnmarshalBinary(data)
	vpReach("restored")
	vpAssert(err == nil, "a saved engine can't be restored")
	vpAssert(r.Dump() == e.Dump(), "the restored engine differs")
	id := []byte{0x30, 0x74, 0x25, 0x7b, 0xf4, 0x4e, 0x64, 0x80, 0, 0, 1, 0x90}
	id[11] = vpByte()
	re := llrp.ReadEvent{PC: []byte{0x30, 0}, ID: id}
	p1, u1, e1 := e.Search(re)
	p2, u2, e2 := r.Search(re)
	vpAssert(vpStrEq(p1, p2), "the restored engine translates differently")
	vpAssert((e1 == nil) == (e2 == nil), "the restored engine fails differently")
	vpAssert(len(u1) == len(u2), "the restored engine reports differently")
	for _, u := range u1 {
		vpAssert(vpIn(u, u2), "the restored engine reports differently")
	}
}

// case = engine*16 + subset: restored into an engine which is in use, nothing of
// what it had remains
func vpH_RestoreOver() {
	k := vpCase() / 16
	pool := vpPool()[:5]
	in := make([]bool, len(pool))
	old := make([]bool, len(pool))
	for i := range in {
		in[i] = i < 4 && vpCase()>>uint(i)&1 == 1
		old[i] = i > 0 && vpChoose(2) == 1
	}
	mk := vpEngineOf(k)
	data, err := mk(vpSubs(pool, in)).MarshalBinary()
	vpAssert(err == nil, "an engine can't be saved")
	// the other one: the same patterns, some for somebody else
	was := vpSubs(pool, old)
	if old[1] {
		delete(was, pool[1].uri)
		was["http://h/else"] = []string{pool[1].pat}
	}
	r := mk(was)
	err = r.UnmarshalBinary(data)
	vpReach("restored")
	vpAssert(err == nil, "a saved engine can't be restored")
	vpSearch(r, pool, in, vpNoPC, vpTag(3))
}

// case = engine*4 + other engine: what another engine saved, and what nobody did,
// is refused
func vpH_EngineForeign() {
	k, o := vpCase()/4, vpCase()%4
	pool := vpPool()[:3]
	in := []bool{true, vpChoose(2) == 1, true}
	mk := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}
	r := vpFresh(k)
	var data []byte
	if k != o {
		var err error
		data, err = mk[o](vpSubs(pool, in)).MarshalBinary()
		vpAssert(err == nil, "an engine can't be saved")
	}
	vpReach("foreign")
	vpAssert(r.UnmarshalBinary(data) != nil, "something else is restored as an engine")
}

// case = engine*8 + subset of three: what an engine saved is refused unless it's
// all there
func vpH_EngineCut() {
	k := vpCase() / 8
	pool := vpPool()[:3]
	in := make([]bool, len(pool))
	for i := range in {
		in[i] = vpCase()>>uint(i)&1 == 1
	}
	e := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[k](vpSubs(pool, in))
	data, err := e.MarshalBinary()
	vpAssert(err == nil, "an engine can't be saved")
	n := vpGobValues(data)
	vpAssert(n > 0, "nothing is saved")
	r := vpFresh(k)
	vpReach("cut short")
	vpAssert(r.UnmarshalBinary(vpGobCut(data, vpChoose(n), vpChoose(2) == 1)) != nil, "something cut short is restored as an engine")
	vpAssert(r.UnmarshalBinary(data) == nil, "a saved engine can't be restored")
	vpAssert(r.Dump() == e.Dump(), "the restored engine differs")
	if k < 3 {
		vpSearch(r, pool, in, vpNoPC, vpTag(3))
	}
}

// case = patterns per subscriber: a saved and restored set of subscriptions
func vpH_SubscriptionsRestore() {
	n := vpCase()
	txt := func(k int) string {
		b := make([]byte, k)
		for i := range b {
			b[i] = vpByte()
		}
		return string(b)
	}
	sub := Subscriptions{}
	a := txt(2)
	b := "http://" + txt(3)
	for i := 0; i < n; i++ {
		sub[a] = append(sub[a], txt(3*i))
	}
	if n != 1 {
		sub[b] = []string{}
	} else {
		sub[b] = []string{"x", txt(1), ""}
	}
	data, err := sub.MarshalBinary()
	vpAssert(err == nil, "subscriptions can't be saved")
	got := Subscriptions{}
	err = got.UnmarshalBinary(data)
	vpReach("restored")
	vpAssert(err == nil, "saved subscriptions can't be restored")
	c := sub.Clone()
	vpSameSubs(sub, got)
	vpSameSubs(sub, c)
	ks := sub.Keys()
	vpAssert(len(ks) == len(sub), "a key is lost")
	for i := range ks {
		vpAssert(i == 0 || ks[i-1] < ks[i], "the keys are not in order")
		_, ok := sub[ks[i]]
		vpAssert(ok, "not a key")
	}
	// the copy is the copy's own
	for _, f := range ks {
		for i := range c[f] {
			was := sub[f][i]
			c[f][i] += "!"
			vpAssert(vpStrEq(sub[f][i], was), "a change of the copy changes the original")
		}
		delete(c, f)
	}
	vpAssert(len(sub) == len(ks), "a change of the copy changes the original")
}

func vpSameSubs(a, b Subscriptions) {
	vpAssert(len(a) == len(b), "a subscriber is lost")
	for f, ps := range a {
		qs, ok := b[f]
		vpAssert(ok, "a subscriber is lost")
		vpAssert(len(ps) == len(qs), "a pattern is lost")
		for i := range ps {
			vpAssert(vpStrEq(ps[i], qs[i]), "a pattern differs")
		}
	}
}

// filters with their addresses and their subsets
func vpH_PartialRestore() {
	txt := func(k int) string {
		b := make([]byte, k)
		for i := range b {
			b[i] = vpByte()
		}
		return string(b)
	}
	ps := &PartialSubscription{Offset: vpInt(0, 100), ReportURI: txt(vpCase()), Subset: ByteSubscriptions{}}
	if vpCase() > 1 {
		ps.Subset["01"] = &PartialSubscription{Offset: ps.Offset + 2, ReportURI: txt(2), Subset: ByteSubscriptions{}}
		ps.Subset["1"] = &PartialSubscription{Offset: ps.Offset + 1, ReportURI: txt(1), Subset: ByteSubscriptions{"0": {Offset: 3, ReportURI: "c"}}}
	}
	data, err := ps.MarshalBinary()
	vpAssert(err == nil, "a filter can't be saved")
	got := &PartialSubscription{}
	err = got.UnmarshalBinary(data)
	vpReach("restored")
	vpAssert(err == nil, "a saved filter can't be restored")
	vpSamePartial(ps, got)
}

func vpSamePartial(a, b *PartialSubscription) {
	vpAssert(a.Offset == b.Offset, "the offset differs")
	vpAssert(vpStrEq(a.ReportURI, b.ReportURI), "the address differs")
	vpAssert(len(a.Subset) == len(b.Subset), "the subset differs")
	for f := range a.Subset {
		vpAssert(b.Subset[f] != nil, "a subset is lost")
		vpSamePartial(a.Subset[f], b.Subset[f])
	}
}

func vpIn(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
