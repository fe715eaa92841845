package filtering

// a filter of n characters 0, 1, and x
func vpFilterText(n int) string {
	b := make([]byte, n)
	for i := range b {
		// x is 0111 1000, 0 and 1 are 0011 000?
		v := vpByteIn(0, 2)
		b[i] = byte(vpIte64(v == 2, 'x', uint64('0'+v&1)))
	}
	return string(b)
}

func vpBitAt(id []byte, i int) byte { return id[i/8] >> uint(7-i%8) & 1 }

// what a filter at a bit offset means
func vpPasses(s string, o int, id []byte) bool {
	m := true
	for i := 0; i < len(s); i++ {
		if o+i < 8*len(id) {
			m = vpAnd(m, vpOr(s[i] == 'x', s[i]-'0' == vpBitAt(id, o+i)))
		} else {
			m = vpAnd(m, s[i] == 'x')
		}
	}
	return m
}

// case = number of characters; any offset below 24, IDs of any length up to the
// end of the filter
func vpH_FilterMatch() {
	n := vpCase()
	o := vpChoose(9 + 8*vpTier())
	s := vpFilterText(n)
	max := (o+n)/8 + 2
	id := vpTag(vpChoose(max + 1))
	f := NewFilter(s, o)
	vpReach("filter")
	vpAssert(vpIff(f.Match(id), vpPasses(s, o, id)), "the filter does not pass exactly the IDs with its bits")
	vpAssert(f.Size == n && f.Offset == o && vpStrEq(f.String, s), "wrong bit range")
	vpAssert(f.ByteOffset == o/8 && f.ByteSize == len(f.ByteFilter) && f.ByteSize == len(f.ByteMask), "wrong byte range")
}

// case = number of characters
func vpH_FilterBytes() {
	n := vpCase()
	o := vpChoose(17)
	s := vpFilterText(n)
	f := NewFilter(s, o)
	vpReach("bytes")
	first, end := o/8, (o+n+7)/8
	if end <= first {
		end = first + 1
	}
	all := true
	for bo := -1; bo < end+2; bo++ {
		has := bo >= first && bo < end
		vpAssert(f.HasByteAt(bo) == has, "wrong byte range")
		b, m, err := f.GetByteAt(bo)
		if !has {
			vpAssert(err != nil && b == 0 && m == 0, "a byte outside the filter")
			continue
		}
		vpAssert(err == nil, "no byte of the filter")
		for j := 0; j < 8; j++ {
			i := 8*bo + j - o
			wantB, wantM := byte(1), byte(1)
			if i >= 0 && i < n {
				wantB = byte(vpIte64(s[i] == '0', 0, 1))
				wantM = byte(vpIte64(s[i] == 'x', 1, 0))
			}
			vpAssert(b>>uint(7-j)&1 == wantB, "wrong bit of the filter")
			vpAssert(m>>uint(7-j)&1 == wantM, "wrong bit of the mask")
		}
	}
	for i := 0; i < n; i++ {
		all = vpAnd(all, s[i] == 'x')
	}
	vpAssert(vpIff(f.IsTransparent(), all), "transparent is not: passes everything")
}
