package filtering

import "os"

// a filter of n characters, most of them concrete, of which the first, the last and
// one between are free
func vpLongFilter(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "01x10x0"[i*5%7]
	}
	for _, i := range []int{0, n / 3, n - 1} {
		v := vpByteIn(0, 2)
		b[i] = byte(vpIte64(v == 2, 'x', uint64('0'+v&1)))
	}
	return string(b)
}

// filters up to the longest tag: case = length
func vpH_FilterLong() {
	n := 18 + 13*vpCase()
	o := vpChoose(3)*7 + vpChoose(2)*100
	s := vpLongFilter(n)
	id := vpTag((o+n)/8 + vpChoose(4) - 1)
	f := NewFilter(s, o)
	vpReach("filter")
	vpAssert(vpIff(f.Match(id), vpPasses(s, o, id)), "the filter does not pass exactly the IDs with its bits")
	first, end := o/8, (o+n+7)/8
	vpAssert(f.Size == n && f.Offset == o && vpStrEq(f.String, s), "wrong bit range")
	vpAssert(f.ByteOffset == first && f.ByteSize == end-first, "wrong byte range")
	vpAssert(f.ByteSize == len(f.ByteFilter) && f.ByteSize == len(f.ByteMask), "wrong bytes")
	for bo := first - 1; bo <= end; bo++ {
		has := bo >= first && bo < end
		vpAssert(f.HasByteAt(bo) == has, "wrong byte range")
		b, m, err := f.GetByteAt(bo)
		if !has {
			vpAssert(err != nil && b == 0 && m == 0, "a byte outside the filter")
			continue
		}
		vpAssert(err == nil, "no byte of the filter")
		for j := 0; j < 8; j++ {
			i := 8*bo + j - o
			wantB, wantM := byte(1), byte(1)
			if i >= 0 && i < n {
				wantB = byte(vpIte64(s[i] == '0', 0, 1))
				wantM = byte(vpIte64(s[i] == 'x', 1, 0))
			}
			vpAssert(b>>uint(7-j)&1 == wantB, "wrong bit of the filter")
			vpAssert(m>>uint(7-j)&1 == wantM, "wrong bit of the mask")
		}
	}
	vpAssert(!f.IsTransparent(), "a filter of bits is transparent")
}

// many filters in one composition: case = number - 4
func vpH_CompositionMany() {
	n := 4 + vpCase()
	var fs []*FilterObject
	for i := 0; i < n; i++ {
		t := vpBin(uint64(i*37), 6)
		if i%3 == 1 { // one bit of each third filter is free
			b := []byte(t)
			b[5] = vpByteIn('0', '1')
			t = string(b)
		}
		t += vpBin(uint64(i), 4+i%5)
		for _, f := range fs {
			vpAssume(!vpStrEq(f.String, t))
		}
		fs = append(fs, NewFilter(t, i%7))
	}
	c := NewComposition(fs)
	vpReach("composition")
	id := vpTag(4)
	cf := NewFilter(c.filter, c.offset)
	vpAssert(len(c.children) == n, "a filter is lost")
	for _, f := range fs {
		ch := c.children[f.String]
		vpAssert(ch != nil, "a filter has no child")
		vpAssert(vpIff(f.Match(id), vpAnd(cf.Match(id), ch.Match(id))), "the composition does not pass what the filters pass")
	}
}

// many patterns: case = kind of them
func vpManyPool(kind int) []vpPat {
	var out []vpPat
	add := func(p vpPat) {
		for i := range out {
			if out[i].pat == p.pat {
				return
			}
		}
		p.uri = "http://h/" + string(rune('a'+len(out)%7))
		out = append(out, p)
	}
	iso := func(s string) { add(vpPat{pat: "urn:epc:pat:iso17365:" + s, bits: vpSixBits(s)}) }
	switch kind {
	case 0: // nested texts of an alphabet of three characters
		for i := 0; i < 40; i++ {
			s, v := "", i*29+3
			for j := 0; j <= i%4; j++ {
				s += []string{"P", "@", "?"}[v%3]
				v /= 3
			}
			iso(s)
		}
	case 1: // each the start of the next
		s := "ABC@?P0_ABC@?P0_"
		for i := 1; i <= len(s); i++ {
			iso(s[:(i*7)%17])
		}
		out = out[:15]
	case 2: // many serial numbers of one asset, and what they belong to
		pre := "00110000" + "011" + vpBin(5, 3) + vpBin(614141, 24)
		for i := uint64(0); i < 32; i++ {
			ser := (i*11 + 5) % 64
			add(vpPat{pat: "urn:epc:pat:sgtin-96:3.0614141.012345." + vpDecimal(ser), bits: pre + vpBin(12345, 20) + vpBin(ser, 38)})
		}
		add(vpPat{pat: "urn:epc:pat:sgtin-96:3.0614141.012345", bits: pre + vpBin(12345, 20)})
		add(vpPat{pat: "urn:epc:pat:sgtin-96:3.0614141", bits: pre})
		add(vpPat{pat: "urn:epc:pat:sgtin-96:3", bits: "00110000011"})
	case 3: // companies of every length of prefix, of all schemes
		cpb := []int{40, 37, 34, 30, 27, 24, 20}
		for i := uint64(0); i < 28; i++ {
			p := int(i % 7)
			v := i*7 + 1
			n := vpDecimal(v)
			for len(n) < 12-p {
				n = "0" + n
			}
			k := int(i) / 7
			add(vpPat{
				pat:  "urn:epc:pat:" + []string{"sgtin", "sscc", "grai", "giai"}[k] + "-96:" + vpDecimal(i%8) + "." + n,
				bits: vpBin([]uint64{48, 49, 51, 52}[k], 8) + vpBin(i%8, 3) + vpBin(uint64(p), 3) + vpBin(v, cpb[p]),
			})
		}
	}
	return out
}

func vpDecimal(v uint64) string {
	s := string(rune('0' + v%10))
	for v /= 10; v > 0; v /= 10 {
		s = string(rune('0'+v%10)) + s
	}
	return s
}

// one of n, in the quick check one of a few spread over them
func vpSome(n, few int) int {
	if vpTier() > 0 || n <= few {
		return vpChoose(n)
	}
	return vpChoose(few) * (n - 1) / (few - 1)
}

// tags of the kind
func vpManyTag(k, kind int, pool []vpPat) ([]byte, []byte) {
	if k < 3 {
		if kind == 0 {
			return vpNoPC, vpTag(4)
		}
		return vpNoPC, vpTag(12)
	}
	switch kind {
	case 0, 1: // the text engine: without the character which pads
		return vpPC17365, vpISOTag(4)
	case 2: // it ignores the filter value; any of 256 serial numbers
		id := vpBitsTag(pool[0].bits, 12)
		id[11] = vpByte()
		return []byte{0x30, 0}, id
	}
	// any of 16 company prefixes
	p := pool[vpSome(len(pool), 4)]
	n := len(p.bits) - 4
	id := vpBitsTag(p.bits[:n], 12)
	vpPut(id, n, 4, uint64(vpByteIn(0, 15)))
	return []byte{0x30, 0}, id
}

func vpBitsTag(bits string, n int) []byte {
	id := make([]byte, n)
	for i := range bits {
		if i < 8*n {
			id[i/8] |= (bits[i] - '0') << uint(7-i%8)
		}
	}
	return id
}

// k = engine; case = kind of patterns
func vpMany(k, op int) {
	kind := vpCase() % 4
	pool := vpManyPool(kind)
	in := make([]bool, len(pool))
	for i := range in {
		in[i] = true
	}
	e := []EngineConstructor{NewList, NewPatriciaTrie, NewSplayTree, NewLegacyEngine}[k](vpSubs(pool, in))
	switch op {
	case 1: // two of them leave, one by one, and one comes back
		i, j := vpSome(len(pool), 4), len(pool)/2
		e.DeleteSubscription(Subscriptions{pool[i].uri: {pool[i].pat}})
		e.DeleteSubscription(Subscriptions{pool[j].uri: {pool[j].pat}})
		in[i], in[j] = false, false
		i = (i + 1) % len(pool)
		e.DeleteSubscription(Subscriptions{pool[i].uri: {pool[i].pat}})
		e.AddSubscription(Subscriptions{pool[i].uri: {pool[i].pat}})
		in[i] = true
	case 2: // all but four leave
		i := vpSome(len(pool)-3, 4)
		for j := range pool {
			in[j] = j >= i && j < i+4
			if !in[j] {
				e.DeleteSubscription(Subscriptions{pool[j].uri: {pool[j].pat}})
			}
		}
	case 3: // saved and restored, one leaves, another one twice
		data, err := e.MarshalBinary()
		vpAssert(err == nil, "an engine can't be saved")
		r := vpFresh(k)
		err = r.UnmarshalBinary(data)
		vpReach("restored")
		vpAssert(err == nil, "a saved engine can't be restored")
		vpAssert(r.Dump() == e.Dump(), "the restored engine differs")
		e = r
		i := vpSome(len(pool), 3)
		e.DeleteSubscription(Subscriptions{pool[i].uri: {pool[i].pat}})
		in[i] = false
	}
	pc, id := vpManyTag(k, kind, pool)
	if k == 2 { // after the search of a tag of one of them
		vpSearch(e, pool, in, pc, vpBitsTag(pool[vpSome(len(pool), 2)].bits, len(id)))
	}
	vpSearch(e, pool, in, pc, id)
}

func vpH_ListMany()         { vpMany(0, 0) }
func vpH_PatriciaMany()     { vpMany(1, 0) }
func vpH_SplayMany()        { vpMany(2, 0) }
func vpH_LegacyMany()       { vpMany(3, 0) }
func vpH_ListManyStep()     { vpMany(0, 1+vpCase()/4) }
func vpH_PatriciaManyStep() { vpMany(1, 1+vpCase()/4) }
func vpH_SplayManyStep()    { vpMany(2, 1+vpCase()/4) }
func vpH_LegacyManyStep()   { vpMany(3, 1+vpCase()/4) }

// case = kind + 4*engine
func vpH_ManyRestore() { vpMany(vpCase()/4, 3) }

// many subscribers of many patterns: case = number of subscribers / 8
func vpH_SubscriptionsMany() {
	n := 8 * (1 + vpCase())
	sub := Subscriptions{}
	for i := 0; i < n; i++ {
		k := "http://h/" + vpDecimal(uint64(i*37%101))
		for j := 0; j < i%11; j++ {
			p := []byte("urn:epc:pat:sgtin-96:3.0614141." + vpDecimal(uint64(i*j)))
			if j == 10 {
				p = append(p, vpLongFilter(300)...)
			}
			p[i*j%len(p)] = vpByte()
			sub[k] = append(sub[k], string(p))
		}
	}
	data, err := sub.MarshalBinary()
	vpAssert(err == nil, "subscriptions can't be saved")
	got := Subscriptions{}
	err = got.UnmarshalBinary(data)
	vpReach("restored")
	vpAssert(err == nil, "saved subscriptions can't be restored")
	vpSameSubs(sub, got)
	vpSameSubs(sub, sub.Clone())
	ks := got.Keys()
	vpAssert(len(ks) == len(sub), "a key is lost")
	for i := range ks {
		vpAssert(i == 0 || ks[i-1] < ks[i], "the keys are not in order")
		_, ok := sub[ks[i]]
		vpAssert(ok, "not a key")
	}
}

// many rows of many fields, one of them with free characters: case = its place
func vpH_LoadCSVMany() {
	const rows = 24
	var text []byte
	want := map[string][]string{}
	n := 0
	for i := 0; i < rows; i++ {
		uri := "http://h/" + vpDecimal(uint64(i*5%7))
		taken := i%5 != 3
		if !taken {
			text = append(text, '#')
		}
		text = append(text, uri...)
		for j := 0; j < i%9; j++ {
			p := []byte("urn:epc:pat:iso17365:" + vpDecimal(uint64(i*100+j)))
			if i%8 == 7 && j == 3 { // a long one
				for len(p) < 5000 {
					p = append(p, "0123456789ABCDEF"...)
				}
			}
			if i == vpCase()*3+2 || i == rows-1 {
				p[len(p)-1] = vpPlain()
			}
			text = append(text, ',')
			if j%4 == 2 {
				text = append(text, '"')
			}
			text = append(text, p...)
			if j%4 == 2 {
				text = append(text, '"')
			}
			if taken {
				want[uri] = append(want[uri], string(p))
			}
		}
		if i%3 == 1 {
			text = append(text, '\r')
		}
		text = append(text, '\n')
		if i%6 == 4 { // an empty row
			text = append(text, '\n')
		}
	}
	os.WriteFile("ecspec.csv", text, 0o644)
	sub := LoadSubscriptionsFromCSVFile("ecspec.csv")
	vpAssert(len(sub) == len(want), "one entry per URI with patterns")
	for uri, ps := range want {
		got := sub[uri]
		vpAssert(len(got) == len(ps), "every pattern of the URI, once for every time it is there")
		for i, p := range ps {
			vpAssert(vpStrEq(got[i], p), "the patterns of a URI are in the order of the file")
			n++
		}
	}
	vpReach("many")
	vpObserve("patterns", n)
}
