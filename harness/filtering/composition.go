package filtering

// case = shapes of two or three filters which have a byte in common: the
// composition and the children together pass what the filters pass
func vpH_Composition() {
	shapes := [][][2]int{ // offset, characters
		{{0, 8}, {0, 8}},
		{{0, 16}, {0, 8}},
		{{0, 16}, {8, 8}},
		{{4, 10}, {0, 12}},
		{{3, 9}, {8, 13}},
		{{0, 20}, {8, 16}},
		{{0, 8}, {2, 6}, {4, 4}},
		{{0, 16}, {8, 8}, {9, 7}},
		{{0, 6}, {0, 12}, {0, 18}},
		{{8, 8}},
		{{7, 2}, {9, 5}},
		{{0, 24}, {8, 8}, {5, 19}},
	}
	sh := shapes[vpCase()%len(shapes)]
	wild := vpCase() >= len(shapes)
	var fs []*FilterObject
	for _, x := range sh {
		t := ""
		if wild {
			t = vpFilterText(x[1])
		} else {
			b := make([]byte, x[1])
			for i := range b {
				b[i] = vpByteIn('0', '1')
			}
			t = string(b)
		}
		for _, f := range fs {
			// the children are known by their filter
			vpAssume(!vpStrEq(f.String, t))
		}
		fs = append(fs, NewFilter(t, x[0]))
	}
	c := NewComposition(fs)
	vpReach("composition")
	id := vpTag(5)
	cf := NewFilter(c.filter, c.offset)
	vpAssert(len(c.children) == len(fs), "a filter is lost")
	for _, f := range fs {
		ch := c.children[f.String]
		vpAssert(ch != nil, "a filter has no child")
		vpAssert(vpIff(f.Match(id), vpAnd(cf.Match(id), ch.Match(id))), "the composition does not pass what the filters pass")
	}
}
