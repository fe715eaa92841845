package main

// vpH_SixencBin: any text of the characters with a six-bit form.
func vpH_SixencBin() { vpSixencBin(vpCase()) }

// vpH_SixencBinLong: case = length up to the longest tags
func vpH_SixencBinLong() { vpSixencBin([]int{16, 21, 32, 41, 64, 82}[vpCase()]) }

func vpSixencBin(n int) {
	in := make([]rune, n)
	for i := range in {
		in[i] = rune(vpByteIn(32, 95))
	}
	out := sixenc2bin(in)
	vpAssert(len(out) == 6*n, "six bits a character")
	for i, r := range out {
		b := byte(in[i/6]) >> uint(5-i%6) & 1
		vpAssert(r == rune('0'+b), "the bits are those of the characters, in order")
	}
	vpObserve("bits", string(out))
	vpReach("encoded")
}
