package scheme

import "strconv"

// case = number of bits
func vpH_Padding() {
	n := vpCase()
	bs := make([]rune, n)
	var want string
	for i := range bs {
		bs[i] = rune('0' + vpByteIn(0, 1))
		want += string(bs[i])
	}
	got, length := Pad6BitEncodingRuneSlice(bs)
	vpReach("padding")
	vpAssert(length == len(got), "wrong length")
	vpAssert(length%16 == 0 && length >= n && length-n < 16, "not the next whole word")
	vpAssert(vpStrEq(string(got[:n]), want), "the content changed")
	for i := n; i < length; i++ {
		c := '0'
		if (i-n)%6 == 0 {
			c = '1'
		}
		vpAssert(got[i] == c, "wrong padding")
	}
}

// case = 16-bit words
func vpH_ISOPC() {
	afi := byte(vpConc(int(vpByteIn(0xa1, 0xaa))))
	pc := MakeISOPC(16*vpCase(), strconv.FormatUint(uint64(afi), 16))
	vpReach("protocol control")
	vpAssert(len(pc) == 2, "wrong size")
	vpAssert(int(pc[0]>>3) == vpCase(), "wrong length")
	vpAssert(pc[0]&7 == 1, "wrong indicators")
	vpAssert(pc[1] == afi, "wrong application family")
}

// case = bytes: the Go literals of a tag hold its bytes
func vpH_PrintGoBytes() {
	n := vpCase()
	var bs, want string
	for i := 0; i < n; i++ {
		b := byte(vpConc(int(vpByteIn(0, 1))) * 255)
		if i == 0 {
			b = byte(vpConc(int(vpByte())))
		}
		for j := 7; j >= 0; j-- {
			bs += string(rune('0' + b>>uint(j)&1))
		}
		if i > 0 {
			want += ", "
		}
		want += strconv.Itoa(int(b))
	}
	vpReach("printed")
	if n == 0 {
		vpAssert(PrintGoBytes(bs, "3000") == "" && PrintID(bs, "3000") == "", "something is printed without a tag")
		return
	}
	vpAssert(PrintGoBytes(bs, "30a9") == "[]byte{48, 169},[]byte{"+want+"}", "wrong literals")
	vpAssert(PrintID(bs, "30a9") == "30a9,"+bs, "wrong line")
}

// case = length up to the longest tags: one byte of them free
func vpH_PrintGoBytesLong() {
	n := []int{4, 12, 16, 31, 32, 62}[vpCase()]
	var bs, want string
	free := vpChoose(3) * (n - 1) / 2
	for i := 0; i < n; i++ {
		b := byte(i*89 + 5)
		if i == free {
			b = byte(vpConc(int(vpByte())))
		}
		for j := 7; j >= 0; j-- {
			bs += string(rune('0' + b>>uint(j)&1))
		}
		if i > 0 {
			want += ", "
		}
		want += strconv.Itoa(int(b))
	}
	vpReach("printed")
	vpAssert(PrintGoBytes(bs, "f8a9") == "[]byte{248, 169},[]byte{"+want+"}", "wrong literals")
	vpAssert(PrintID(bs, "f8a9") == "f8a9,"+bs, "wrong line")
}

// case = characters: six bits of each
func vpH_Sixenc() { vpSixenc(vpCase()) }

// case = length up to the longest tags
func vpH_SixencLong() { vpSixenc([]int{16, 21, 32, 41, 64, 82}[vpCase()]) }

func vpSixenc(n int) {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = rune(vpByteIn(32, 95))
	}
	bs := Sixenc2bin(rs)
	vpReach("six bits")
	vpAssert(len(bs) == 6*n, "not six bits a character")
	for i, b := range bs {
		vpAssert(b == '0'+(rs[i/6]>>uint(5-i%6))&1, "wrong bit")
	}
	vpAssert(CheckIfStringInSlice("b", []string{"a", "b"}) && !CheckIfStringInSlice("c", []string{"a", "b"}), "membership")
}
