package filtering

import (
	"time"

	"github.com/iomz/go-llrp"
)

// A search lasts so long that the interval ends, and another engine comes into use,
// in the middle of it: every engine still searches for every tag, once.
func vpH_FactorySwitch() {
	vpBubble(func() {
		names := vpFactoryNames(vpCase())
		x := vpNewFactory(names, make([]time.Duration, len(names)), 1)
		const step = 300 * time.Millisecond
		n := 3 + vpTier()
		for k := 0; k < n; k++ {
			for i, e := range x.engines {
				if len(names) == 2 || i == k {
					e.took = 1 + int(step)*int(vpNum(3))
				} else {
					e.took = 1 + int(step)*((i+2*k)%4)
				}
			}
			id, uris, err := x.ef.Search(llrp.ReadEvent{})
			vpAssert(err == nil && len(uris) == 1, "a search gives the answer of an engine")
			known := false
			for _, e := range x.engines {
				known = known || id == e.name
				vpAssert(e.n == k+1, "every engine searches for every tag, once")
			}
			vpAssert(known, "a search gives the answer of an engine")
			vpReach("searched")
		}
		x.vpTick()
		x.vpTick()
		for _, e := range x.engines {
			vpAssert(x.events[e.name] == int64(n), "the reports count every search once")
			vpAssert(x.matches[e.name] == int64(n), "the reports count every match once")
		}
		vpAssert(x.other == 0, "the factory tells nothing else")
	})
}
