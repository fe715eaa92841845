package filtering

// One operation on the engine and on the set of what is subscribed.
func vpStep(e Engine, pool []vpPat, in []bool) {
	op := vpChoose(4)
	if op == 3 { // two at once
		i := vpChoose(len(pool) - 1)
		sub := vpSubs(pool[i:i+2], []bool{true, true})
		if vpChoose(2) == 0 {
			e.AddSubscription(sub)
			in[i], in[i+1] = true, true
		} else {
			e.DeleteSubscription(sub)
			in[i], in[i+1] = false, false
		}
		return
	}
	i := vpChoose(len(pool))
	switch op {
	case 0:
		e.AddSubscription(Subscriptions{pool[i].uri: {pool[i].pat}})
		in[i] = true
	case 1:
		e.DeleteSubscription(Subscriptions{pool[i].uri: {pool[i].pat}})
		in[i] = false
	case 2: // somebody else's, which isn't there
		e.DeleteSubscription(Subscriptions{"http://h/z": {pool[i].pat}})
	}
}

// the patterns of two subscribers only
func vpOwned(pool []vpPat) []vpPat {
	for i := range pool {
		pool[i].uri = "http://h/" + string(rune('a'+i%2))
	}
	return pool
}

// any subset of other patterns of two subscribers, one operation
func vpShapes(k int, pool []vpPat, nb int) {
	pool = vpOwned(pool)
	in := vpPickCase(len(pool))
	e := vpEngineOf(k)(vpSubs(pool, in))
	if k == 2 {
		vpSearch(e, pool, in, vpNoPC, vpTag(nb))
	}
	vpStep(e, pool, in)
	vpSearch(e, pool, in, vpNoPC, vpTag(nb))
}

func vpH_ListNestedStep()     { vpShapes(0, vpNestedPool()[:6+vpTier()], 3) }
func vpH_PatriciaNestedStep() { vpShapes(1, vpNestedPool()[:6+vpTier()], 3) }
func vpH_SplayNestedStep()    { vpShapes(2, vpNestedPool()[:6+vpTier()], 3) }
func vpH_ListBranchStep()     { vpShapes(0, vpBranchPool()[:6+vpTier()], 3) }
func vpH_PatriciaBranchStep() { vpShapes(1, vpBranchPool()[:6+vpTier()], 3) }
func vpH_SplayBranchStep()    { vpShapes(2, vpBranchPool()[:5+vpTier()*2], 3) }
func vpH_ListTreeStep()       { vpShapes(0, vpTreePool()[:6+vpTier()*2], 2) }
func vpH_PatriciaTreeStep()   { vpShapes(1, vpTreePool()[:6+vpTier()*2], 2) }
func vpH_SplayTreeStep()      { vpShapes(2, vpTreePool()[:5+vpTier()*3], 2) }

// case = subset of the patterns subscribed from the beginning; the second half of
// the cases: of two subscribers
func vpHistory(k int) {
	n := 4 + vpTier()
	pool := vpPool()[:n]
	if vpCase()>>uint(n) == 1 {
		pool = vpOwned(pool)
	}
	in := make([]bool, n)
	for i := range in {
		in[i] = vpCase()>>uint(i)&1 == 1
	}
	e := vpEngineOf(k)(vpSubs(pool, in))
	for i := 0; i < 2; i++ {
		if k == 2 && i == 1 { // the searches change the tree
			vpSearch(e, pool, in, vpNoPC, vpTag(3))
		}
		vpStep(e, pool, in)
	}
	vpSearch(e, pool, in, vpNoPC, vpTag(3))
}

// longer histories of fewer patterns; case = subset of three
func vpLong(k int) {
	n := 3
	pool := vpPool()[:n]
	in := make([]bool, n)
	for i := range in {
		in[i] = vpCase()>>uint(i)&1 == 1
	}
	e := vpEngineOf(k)(vpSubs(pool, in))
	for i := 0; i < 3; i++ {
		if k == 2 && i == 1 {
			vpSearch(e, pool, in, vpNoPC, vpTag(2))
		}
		vpStep(e, pool, in)
	}
	vpSearch(e, pool, in, vpNoPC, vpTag(2))
}

func vpH_ListLong()     { vpLong(0) }
func vpH_PatriciaLong() { vpLong(1) }
func vpH_SplayLong()    { vpLong(2) }

func vpH_ListHistory()     { vpHistory(0) }
func vpH_PatriciaHistory() { vpHistory(1) }
func vpH_SplayHistory()    { vpHistory(2) }
