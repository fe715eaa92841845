package filtering

import "os"

// vpPlain is a character which means nothing to CSV.
func vpPlain() byte {
	c := vpByteIn(' ', '~')
	vpAssume(vpAnd(c != '"', c != ','))
	return c
}

func vpLower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 'a' - 'A'
	}
	return c
}

// vpH_LoadCSV: a file of a few rows of a URI and patterns.
func vpH_LoadCSV() {
	rows := 1 + vpCase()
	var text []byte
	want := map[string][]string{}
	for i := 0; i < rows; i++ {
		var uri string
		taken := true
		switch vpChoose(4) {
		case 0:
			uri = "http://a"
			text = append(text, uri...)
		case 1:
			uri = "http://a"
			text = append(text, "HTTP://A"...)
			vpReach("upper case URI")
		case 2:
			c := vpPlain()
			uri = "https://" + string(vpLower(c))
			vpAssume(c != ' ')
			text = append(text, "https://"...)
			text = append(text, c)
		case 3:
			taken = false
			text = append(text, "#ttp://a"...)
			vpReach("not a URI")
		}
		for k := vpChoose(3); k > 0; k-- {
			text = append(text, ',')
			switch vpChoose(5) {
			case 0:
				p := "urn:epc:pat:" + string([]byte{vpPlain(), vpPlain()})
				text = append(text, p...)
				if taken {
					want[uri] = append(want[uri], p)
				}
				vpReach("pattern")
			case 1:
				p := "URN:EPC:PAT:" + string([]byte{vpPlain()})
				text = append(text, p...)
				if taken {
					want[uri] = append(want[uri], p)
				}
			case 2:
				// quoted, with a comma
				p := "urn:epc:pat:" + string([]byte{vpPlain(), ','})
				text = append(text, '"')
				text = append(text, p...)
				text = append(text, '"')
				if taken {
					want[uri] = append(want[uri], p)
				}
				vpReach("quoted")
			case 3:
				c := vpPlain()
				vpAssume(vpAnd(c != 'u', c != 'U'))
				text = append(text, c)
				text = append(text, "rn:epc:pat:"...)
				vpReach("not a pattern")
			case 4:
				// something before the pattern
				text = append(text, vpPlain())
				text = append(text, "urn:epc:pat:1"...)
			}
		}
		switch {
		case i < rows-1 && vpBool():
			text = append(text, '\r', '\n')
		case i < rows-1 || vpBool():
			text = append(text, '\n')
		}
	}
	os.WriteFile("ecspec.csv", text, 0o644)
	sub := LoadSubscriptionsFromCSVFile("ecspec.csv")
	vpAssert(len(sub) == len(want), "one entry per URI with patterns")
	n := 0
	for uri, ps := range want {
		got := sub[uri]
		vpAssert(len(got) == len(ps), "every pattern of the URI, once for every time it is there")
		for i, p := range ps {
			vpAssert(vpStrEq(got[i], p), "the patterns of a URI are in the order of the file")
			n++
		}
	}
	vpObserve("patterns", n)
}
