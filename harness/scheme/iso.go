package scheme

import (
	"encoding/hex"

	"github.com/iomz/gosstrak/tdt"
)

func vpAlpha(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByteIn('A', 'Z')
	}
	return string(b)
}

func vpDigits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpDigit()
	}
	return string(b)
}

// ISO 6346: letters count from 10 on, without the multiples of 11
func vpISO6346Value(c byte) uint64 {
	if c <= '9' {
		return uint64(c - '0')
	}
	t := [26]uint64{10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 34, 35, 36, 37, 38}
	return t[c-'A']
}

func vpISO6346(cn string) uint64 {
	var sum uint64
	for i := 0; i < 10; i++ {
		sum += vpISO6346Value(cn[i]) << uint(i)
	}
	return sum % 11 % 10
}

// case 0: every owner code, equipment category, and serial
func vpH_CheckDigit() { vpCheckDigit(0) }

// case 0: in lower case; others: a wrong length
func vpH_CheckDigitInput() { vpCheckDigit(1 + vpCase()) }

func vpCheckDigit(k int) {
	if k >= 2 {
		n := k - 2
		if n == 10 {
			return
		}
		_, err := GetISO6346CD(vpAlnum(n))
		vpReach("wrong length")
		vpAssert(err != nil, "a container number of a wrong length has a check digit")
		return
	}
	cn := vpAlpha(4) + vpDigits(6)
	in := []byte(cn)
	if k == 1 {
		for i := 0; i < 4; i++ {
			in[i] += 'a' - 'A'
		}
	}
	cd, err := GetISO6346CD(string(in))
	vpReach("check digit")
	vpAssert(err == nil, "a container number is rejected")
	vpObserve("cd", cd)
	vpAssert(uint64(cd) == vpISO6346(cn), "wrong check digit")
}

func vpUnbits(bs string) []byte {
	vpAssert(len(bs)%8 == 0, "not whole bytes")
	id := make([]byte, len(bs)/8)
	for i := 0; i < len(bs); i++ {
		vpAssert(vpOr(bs[i] == '0', bs[i] == '1'), "not a bit string")
		id[i/8] = id[i/8]<<1 | bs[i]&1
	}
	return id
}

// the characters of the tag followed by padding to whole words
func vpCheckUII(id []byte, chars string) {
	vpAssert(len(id)%2 == 0, "not whole words")
	vpAssert(len(id)*8 >= len(chars)*6 && len(id)*8-len(chars)*6 < 16, "wrong number of words")
	pad := "100000100000100000"
	for i := 0; i < len(id)*8; i++ {
		bit := id[i/8] >> uint(7-i%8) & 1
		if i < 6*len(chars) {
			vpAssert(bit == chars[i/6]>>uint(5-i%6)&1, "wrong character")
		} else {
			vpAssert(bit == pad[i-6*len(chars)]-'0', "wrong padding")
		}
	}
}

// container tags: case = length of the given serial (0: generated)
func vpH_ISO17363() {
	oc, ei, csn := vpAlpha(3), "", ""
	if vpCase() > 0 {
		ei = vpAlpha(1)
		csn = vpDigits(vpCase())
	}
	id, length, f, e, err := MakeISO17363(false, oc, ei, csn)
	if len(csn) > 6 {
		vpReach("long serial")
		vpAssert(err != nil && len(id) == 0, "a serial of more than six digits is encoded")
		return
	}
	vpReach("container")
	vpAssert(err == nil && f == "" && e == "", "a container tag is rejected")
	vpAssert(length == 80 && len(id) == 10, "wrong length")
	if ei == "" {
		ei = "U"
	}
	if csn == "" {
		b := make([]byte, 6)
		for i := range b {
			var v byte
			for j := 0; j < 6; j++ {
				k := 6*(6+i) + j
				v = v<<1 | id[k/8]>>uint(7-k%8)&1
			}
			b[i] = v
			vpAssert(vpAnd(v >= '0', v <= '9'), "a generated serial is not a number")
		}
		csn = string(b)
	}
	for len(csn) < 6 {
		csn = "0" + csn
	}
	want := "7B" + oc + ei + csn + string([]byte{'0' + byte(vpISO6346(oc+ei+csn))})
	vpCheckUII(id, want)
	vpObserve("tag", string(id))
}

// transport units: case = number of characters
func vpH_ISO17365() {
	n := vpCase()
	di := 1 + vpChoose(2)*2
	iac, cin := 2, 1+vpChoose(2)*2
	if n <= di+iac+cin {
		return
	}
	s := vpAlnum(n)
	id, length, f, e, err := MakeISO17365(false, s[:di], s[di:di+iac], s[di+iac:di+iac+cin], s[di+iac+cin:])
	vpReach("transport unit")
	vpAssert(err == nil && f == "" && e == "", "a transport unit tag is rejected")
	vpAssert(length == 8*len(id), "wrong length")
	vpCheckUII(id, s)
	vpObserve("tag", string(id))
}

// what the command prints decodes to the same identity: case 0: a container;
// others: a transport unit
func vpH_ISORoundTrip() {
	var bs, pc, want string
	if vpCase() == 0 {
		oc, ei, csn := vpAlpha(3), vpAlpha(1), vpDigits(6)
		bs, pc = MakeISO(false, "17363", oc, ei, csn, "", "", "", "")
		want = "urn:epc:id:iso17363:7B" + oc + ei + csn + string([]byte{'0' + byte(vpISO6346(oc+ei+csn))})
	} else {
		n := 4 + vpCase()
		s := vpAlnum(n)
		bs, pc = MakeISO(false, "17365", "", "", "", s[:2], s[2:3], s[3:4], s[4:])
		want = "urn:epc:id:iso17365:" + s
	}
	id := vpUnbits(bs)
	p, err := hex.DecodeString(pc)
	vpAssert(err == nil && len(p) == 2, "wrong protocol control bits")
	vpAssert(int(p[0]>>3) == len(id)/2, "wrong length in the protocol control bits")
	vpAssert(p[0]&7 == 1, "wrong indicators in the protocol control bits")
	urn, err := tdt.NewCore().Translate(p, id)
	vpReach("round trip")
	vpAssert(err == nil, "a generated tag is not translated")
	vpAssert(vpStrEq(urn, want), "the tag translates to another identity")
	vpObserve("urn", urn)
}

// missing mandatory fields
func vpH_ISOMissing() {
	_, _, _, _, err := MakeISO17365(false, vpAlnum(2), "", vpAlnum(2), vpAlnum(3))
	vpAssert(err != nil, "no issuing agency code")
	_, _, _, _, err = MakeISO17365(false, vpAlnum(2), vpAlnum(2), "", vpAlnum(3))
	vpAssert(err != nil, "no company identification")
	id, _, _, _, err := MakeISO17365(false, "25S", "UN", vpAlnum(3), "")
	vpAssert(err == nil && len(id) == 20, "no serial number is generated")
	vpReach("missing")
	for i := 8; i < 8+18; i++ {
		var v byte
		for j := 0; j < 6; j++ {
			k := 6*i + j
			v = v<<1 | id[k/8]>>uint(7-k%8)&1
		}
		vpAssert(vpOr(vpAnd(v >= '0', v <= '9'), vpAnd(v >= 1, v <= 6)), "a generated serial number is not hexadecimal")
	}
}
