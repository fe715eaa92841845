package main

// vpH_ByteID: text of 0s and 1s of any length up to the bound.
func vpH_ByteID() { vpByteID(vpCase()) }

// vpH_ByteIDLong: case = length of the tags there are
func vpH_ByteIDLong() { vpByteID([]int{96, 127, 128, 248, 256, 495, 496, 512}[vpCase()]) }

func vpByteID(n int) {
	s := make([]byte, n)
	for i := range s {
		s[i] = vpByteIn('0', '1')
	}
	id, err := makeByteID(string(s))
	if n == 0 || n%8 != 0 {
		vpAssert(err != nil, "text which isn't whole bytes is an error")
		vpReach("not whole bytes")
		return
	}
	vpAssert(err == nil, "whole bytes are fine")
	vpAssert(len(id) == n/8, "a byte for every eight bits")
	for i, c := range s {
		vpAssert(id[i/8]>>uint(7-i%8)&1 == c-'0', "the bits are those of the text, in order")
	}
	vpObserve("id", string(id))
	vpReach("bytes")
}

// vpH_PC: text of any ASCII characters.
func vpH_PC() {
	n := vpCase()
	s := make([]byte, n)
	ok, big := n > 0, false
	var v uint64
	for i := range s {
		s[i] = vpByteIn(0, 127)
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			c -= '0'
		case c >= 'a' && c <= 'f':
			c -= 'a' - 10
		case c >= 'A' && c <= 'F':
			c -= 'A' - 10
		default:
			ok = false
		}
		v = v<<4 | uint64(c&15)
		big = big || v > 0xffff
	}
	pc, err := makeUint16PC(string(s))
	if ok && !big {
		vpAssert(err == nil && pc == uint16(v), "hexadecimal digits are the PC bits they spell")
		vpObserve("pc", pc)
		vpReach("digits")
	} else {
		vpAssert(err != nil, "other text is an error")
		vpReach("other")
	}
}
