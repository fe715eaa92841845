package scheme

import (
	"encoding/hex"

	"github.com/iomz/gosstrak/tdt"
)

// a text of n characters of which the first, the last and one between are free
func vpLongText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i*7%36]
	}
	m := 0
	if n > 2 {
		m = 1 + vpChoose(n-2)
	}
	for _, i := range []int{0, m, n - 1} {
		c := vpByteIn('0', 'Z')
		vpAssume(vpOr(c <= '9', c >= 'A'))
		b[i] = c
	}
	return string(b)
}

// transport units up to the longest which the protocol control bits can tell:
// case = characters - 4; what is printed decodes to the same identity
func vpH_ISOLong() {
	n := 4 + vpCase()
	s := vpLongText(n)
	di := 1 + vpChoose(2)*vpCase()/4
	iac := 1 + vpChoose(2)*vpCase()/8
	cin := 1 + vpChoose(2)*vpCase()/2
	bs, pc := MakeISO(false, "17365", "", "", "", s[:di], s[di:di+iac], s[di+iac:di+iac+cin], s[di+iac+cin:])
	id := vpUnbits(bs)
	vpCheckUII(id, s)
	p, err := hex.DecodeString(pc)
	vpAssert(err == nil && len(p) == 2, "wrong protocol control bits")
	vpAssert(int(p[0]>>3) == len(id)/2, "wrong length in the protocol control bits")
	vpAssert(p[0]&7 == 1 && p[1] == 0xa2, "wrong indicators in the protocol control bits")
	urn, err := tdt.NewCore().Translate(p, id)
	vpReach("round trip")
	vpAssert(err == nil, "a generated tag is not translated")
	vpAssert(vpStrEq(urn, "urn:epc:id:iso17365:"+s), "the tag translates to another identity")
	vpObserve("urn", urn)
}

// texts of case characters, three of them free; whole bytes of them too
func vpH_Sixteen() {
	n := 8 + vpCase()*4
	s := vpLongText(n)
	bs := Sixenc2bin([]rune(s))
	vpReach("six bits")
	vpAssert(len(bs) == 6*n, "not six bits a character")
	for i, b := range bs {
		vpAssert(byte(b) == '0'+(s[i/6]>>uint(5-i%6))&1, "wrong bit")
	}
	got, length := Pad6BitEncodingRuneSlice(bs)
	vpAssert(length == len(got), "wrong length")
	vpAssert(length%16 == 0 && length >= 6*n && length-6*n < 16, "not the next whole word")
	for i := 0; i < length; i++ {
		if i < 6*n {
			vpAssert(byte(got[i]) == '0'+(s[i/6]>>uint(5-i%6))&1, "the content changed")
		} else {
			c := '0'
			if (i-6*n)%6 == 0 {
				c = '1'
			}
			vpAssert(got[i] == c, "wrong padding")
		}
	}
}

// containers with any of the fields left blank: case = owner code, equipment letter
// and serial number left out or not
func vpH_ISO17363Blank() {
	var oc, ei, csn string
	if vpCase()&1 == 0 {
		oc = "CSQ"
	}
	if vpCase()&2 == 0 {
		ei = vpAlpha(1)
	}
	if vpCase()&4 == 0 {
		csn = "305438"
		if vpTier() > 0 {
			csn = vpDigits(6)
		}
	}
	bs, pc := MakeISO(false, "17363", oc, ei, csn, "", "", "", "")
	id := vpUnbits(bs)
	vpAssert(pc == "29a9" && len(id) == 10, "wrong length")
	if csn == "" {
		csn = vpSixBitText(id, 6, 6)
		for i := range csn {
			vpAssert(vpAnd(csn[i] >= '0', csn[i] <= '9'), "a generated serial number is not a number")
		}
	}
	if oc == "" {
		oc = vpSixBitText(id, 2, 3)
		for i := range oc {
			vpAssert(vpAnd(oc[i] >= 'A', oc[i] <= 'Z'), "a generated owner code is not of letters")
		}
	}
	if ei == "" {
		ei = "U"
	}
	cn := oc + ei + csn
	vpReach("container")
	vpCheckUII(id, "7B"+cn+string([]byte{'0' + byte(vpISO6346(cn))}))
}

// n six-bit characters of the tag
func vpSixBitText(id []byte, from, n int) string {
	b := make([]byte, n)
	for i := range b {
		var v byte
		for j := 0; j < 6; j++ {
			k := 6*(from+i) + j
			v = v<<1 | id[k/8]>>uint(7-k%8)&1
		}
		b[i] = byte(vpIte64(v < 32, uint64(v|64), uint64(v)))
	}
	return string(b)
}
