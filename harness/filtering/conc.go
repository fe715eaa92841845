package filtering

import (
	"context"
	"errors"
	"time"

	"github.com/iomz/go-llrp"
)

// vpTimedEngine answers what it is told after the time it is told.
type vpTimedEngine struct {
	Engine
	name string
	took []int
	hit  []bool
	n    int
}

func (e *vpTimedEngine) Name() string { return e.name }

func (e *vpTimedEngine) Search(re llrp.ReadEvent) (string, []string, error) {
	i := e.n
	e.n++
	time.Sleep(time.Duration(e.took[i]))
	if e.hit[i] {
		return "id", []string{"dest"}, nil
	}
	return "id", []string{}, nil
}

// vpGeneratorRun drives one generator through steps of any order: a search begins,
// the interval ends, the factory takes a message.
func vpGeneratorRun(steps int, maxTook int) {
	e := &vpTimedEngine{name: "List"}
	AvailableEngines = Engines{"List": func(Subscriptions) Engine { return e }}
	mc := make(chan ManagementMessage)
	eg := NewEngineGenerator("List", AvailableEngines["List"], 1, mc)
	eg.FSM.Event(context.Background(), "init", Subscriptions{})
	m := <-mc
	vpAssert(m.Type == OnEngineGenerated && m.EngineGeneratorInstance == eg, "a generated engine announces itself")
	vpAssert(eg.FSM.Is("ready"), "a generated engine is ready")

	searches, matches, done := 0, 0, 0
	answers := true
	var events, matched int64
	lastTook, lastEvents := 0, int64(0)
	take := func() bool {
		select {
		case m := <-mc:
			vpAssert(m.EngineName == "List", "reports name the engine")
			switch m.Type {
			case TrafficStatus:
				vpAssert(m.MatchedCount <= m.EventCount, "no report counts more matches than searches")
				vpAssert(m.EventCount >= 0 && m.MatchedCount >= 0, "counts are not negative")
				vpAssert(events+m.EventCount <= int64(len(e.took)), "no report counts searches which have not been")
				lastTook, lastEvents = 0, m.EventCount
				for i := events; i < events+m.EventCount; i++ {
					lastTook += e.took[i]
				}
				events += m.EventCount
				matched += m.MatchedCount
				vpReach("traffic")
			case EngineStatus:
				vpAssert(lastEvents > 0 && lastTook > 0, "throughput is reported when there were searches")
				if maxTook <= 2000 {
					vpAssert(vpSame(m.CurrentThroughput, float64(lastEvents*1000)/float64(lastTook)), "the throughput is the searches per microsecond spent in them")
				}
				vpReach("throughput")
			default:
				vpAssert(false, "a generator reports traffic and throughput")
			}
			return true
		default:
			return false
		}
	}
	drain := func() {
		for vpSettle(); take(); vpSettle() {
		}
	}
	for k := 0; k < steps; k++ {
		switch vpChoose(3) {
		case 0:
			if done < searches {
				continue // the factory searches for one tag at a time
			}
			hit := vpBool()
			d := 0
			if maxTook > 0 {
				d = int(vpNum(uint64(maxTook)))
			}
			e.took = append(e.took, d)
			e.hit = append(e.hit, hit)
			searches++
			if hit {
				matches++
			}
			go func() {
				id, uris, err := eg.Search(llrp.ReadEvent{})
				if id != "id" || err != nil || (len(uris) == 1) != hit {
					answers = false
				}
				done++
			}()
			time.Sleep(time.Duration(maxTook))
			vpSettle()
		case 1:
			time.Sleep(time.Second)
			vpSettle()
		case 2:
			take()
			vpSettle()
		}
	}
	drain()
	vpAssert(done == searches, "every search returns")
	vpAssert(answers, "a search returns what the engine answers")
	time.Sleep(time.Second)
	drain()
	vpAssert(events == int64(searches), "every search is counted in exactly one report")
	vpAssert(matched == int64(matches), "every search with a match is counted in exactly one report")
}

func vpH_GeneratorCounts() {
	vpBubble(func() { vpGeneratorRun(4+2*vpTier(), 0) })
}

// searches last longer than intervals
func vpH_GeneratorLong() {
	vpBubble(func() { vpGeneratorRun(3+vpTier(), 2500000000) })
}

func vpH_GeneratorThroughput() {
	vpBubble(func() { vpGeneratorRun(4+vpTier(), 2000) })
}

// vpNamedEngine answers its name after the time it is told.
type vpNamedEngine struct {
	Engine
	name string
	took int
	miss bool
	n    int
}

var errVpMiss = errors.New("no match")

func (e *vpNamedEngine) Name() string { return e.name }

func (e *vpNamedEngine) Search(re llrp.ReadEvent) (string, []string, error) {
	e.n++
	time.Sleep(time.Duration(e.took))
	if e.miss {
		return e.name, nil, errVpMiss
	}
	return e.name, []string{"dest"}, nil
}

// vpFactory is a factory of engines which take their time, and what it tells.
type vpFactory struct {
	ef       *EngineFactory
	engines  []*vpNamedEngine
	last     string // the engine announced last
	selected int
	traffic  map[string]int // reports
	events   map[string]int64
	matches  map[string]int64
	perf     map[string]float64
	other    int
	ticks    int
	interval int
}

// vpNewFactory starts a factory; engine i is generated after delay[i].
func vpNewFactory(names []string, delay []time.Duration, interval int) *vpFactory {
	x := &vpFactory{interval: interval, traffic: map[string]int{}, events: map[string]int64{}, matches: map[string]int64{}, perf: map[string]float64{}}
	AvailableEngines = Engines{}
	for i := range names {
		e := &vpNamedEngine{name: names[i]}
		d := delay[i]
		x.engines = append(x.engines, e)
		AvailableEngines[names[i]] = func(Subscriptions) Engine {
			time.Sleep(d)
			return e
		}
	}
	mc := make(chan ManagementMessage, 128)
	x.ef = NewEngineFactory(Subscriptions{}, interval, mc)
	go func() {
		for m := range mc {
			switch m.Type {
			case SelectedEngine:
				if m.EngineName == "" {
					x.other++ // no engine is in use which could be announced
				}
				x.last = m.EngineName
				x.selected++
			case TrafficStatus:
				x.traffic[m.EngineName]++
				x.events[m.EngineName] += m.EventCount
				x.matches[m.EngineName] += m.MatchedCount
			case EngineStatus:
				x.perf[m.EngineName] = m.CurrentThroughput
			default:
				x.other++
			}
		}
	}()
	go x.ef.Run()
	vpSettle()
	return x
}

// vpAnswer is the engine whose answer a search gives.
func (x *vpFactory) vpAnswer() string {
	id, uris, err := x.ef.Search(llrp.ReadEvent{})
	vpSettle()
	if x.engines[0].miss {
		vpAssert(err == errVpMiss && len(uris) == 0, "a search gives the answer of an engine")
	} else {
		vpAssert(err == nil && len(uris) == 1, "a search gives the answer of an engine")
	}
	return id
}

func (x *vpFactory) vpTick() {
	time.Sleep(time.Duration(x.interval) * time.Second)
	vpSettle()
	x.ticks++
}

func vpFactoryNames(k int) []string {
	return [][]string{
		{"List", "PatriciaTrie"}, {"PatriciaTrie", "List"}, {"SplayTree", "PatriciaTrie"}, {"LegacyEngine", "List"},
		{"LegacyEngine", "List", "SplayTree", "PatriciaTrie"}, {"PatriciaTrie", "SplayTree", "List", "LegacyEngine"},
	}[k]
}

var vpPriority = map[string]int{"LegacyEngine": 0, "List": 1, "SplayTree": 2, "PatriciaTrie": 3}

// Engines come into use as they are generated, the more promising ones instead of
// the others.
func vpH_FactoryGeneration() { vpFactoryGeneration(vpCase(), vpCase() < 4) }

func vpFactoryGeneration(k int, any bool) {
	vpBubble(func() {
		const step = 750 * time.Millisecond // an interval ends after the second
		names := vpFactoryNames(k)
		delay := make([]time.Duration, len(names))
		for i := range delay {
			if any {
				delay[i] = time.Duration(vpNum(uint64(2 * step)))
			} else {
				delay[i] = []time.Duration{0, time.Second, 5 * step / 3}[vpChoose(3)]
			}
		}
		x := vpNewFactory(names, delay, 1)
		for t := 0; t < 3; t++ {
			best := ""
			for i, n := range names {
				if delay[i] <= time.Duration(t)*step && (best == "" || vpPriority[n] > vpPriority[best]) {
					best = n
				}
			}
			vpAssert(x.ef.IsActive() == (best != ""), "a factory is active once an engine is generated")
			if best != "" {
				vpAssert(x.last == best, "the engine in use is announced")
				vpAssert(x.vpAnswer() == best, "of the engines generated the most promising is in use")
				vpReach("active")
			}
			time.Sleep(step)
			vpSettle()
		}
		vpAssert(x.other == 0, "the factory tells nothing else")
	})
}

// The engine with the best throughput comes into use, and every report arrives.
func vpH_FactoryAdoption() { vpFactoryAdoption(vpCase(), 2+vpTier()) }

func vpFactoryAdoption(k, rounds int) {
	vpBubble(func() {
		names := vpFactoryNames(k)
		x := vpNewFactory(names, make([]time.Duration, len(names)), 1+k%3)
		n, hits := 0, 0
		for round := 0; round < rounds; round++ {
			m := 1 + vpChoose(2)
			miss := vpChoose(2) == 1
			for _, e := range x.engines {
				e.took = 1 + int(vpNum(1999))
				e.miss = miss
			}
			for k := 0; k < m; k++ {
				x.vpAnswer()
				n++
				if !miss {
					hits++
				}
			}
			x.vpTick()
			x.vpTick()
			for _, e := range x.engines {
				vpAssert(x.traffic[e.name] == x.ticks, "every engine reports once in an interval")
				vpAssert(e.n == n, "every engine searches for every tag")
				vpAssert(x.events[e.name] == int64(n), "the reports count every search once")
				vpAssert(x.matches[e.name] == int64(hits), "the reports count every match once")
				vpAssert(vpSame(x.perf[e.name], float64(m*1000)/float64(m*e.took)), "the throughput of every engine is reported")
			}
			a := x.vpAnswer()
			n++
			if !miss {
				hits++
			}
			vpAssert(x.last == a, "the engine in use is announced")
			for _, e := range x.engines {
				vpAssert(x.perf[a] >= x.perf[e.name], "the engine with the best throughput is in use")
			}
			vpReach("adopted")
			x.vpTick()
		}
		vpAssert(x.other == 0, "the factory tells nothing else")
	})
}

// vpSlowEngine is an engine which takes a longer time.
type vpSlowEngine struct {
	Engine
	took int
}

func (e *vpSlowEngine) Search(re llrp.ReadEvent) (string, []string, error) {
	time.Sleep(time.Duration(e.took))
	return e.Engine.Search(re)
}

// Whichever engine is in use, the answer is the subscribers' of the tag. case = the
// fastest engine
func vpH_FactorySearch() {
	vpBubble(func() {
		fastest := []string{"List", "PatriciaTrie", "SplayTree", "LegacyEngine"}[vpCase()]
		pool := vpPool()[:3+vpTier()]
		in := vpPick(len(pool))
		given := AvailableEngines
		AvailableEngines = Engines{}
		for name, mk := range given {
			name, mk := name, mk
			AvailableEngines[name] = func(sub Subscriptions) Engine {
				if name == fastest {
					return &vpSlowEngine{mk(sub), 10}
				}
				return &vpSlowEngine{mk(sub), 20}
			}
		}
		mc := make(chan ManagementMessage, 128)
		ef := NewEngineFactory(vpSubs(pool, in), 1, mc)
		go ef.Run()
		vpSettle()
		vpAssert(ef.IsActive(), "a factory is active once an engine is generated")
		vpSearch(ef, pool, in, vpPC17365, vpISOTag(2))
		for i := 0; i < 2; i++ {
			time.Sleep(time.Second)
			vpSettle()
		}
		last := ""
		for len(mc) > 0 {
			if m := <-mc; m.Type == SelectedEngine {
				last = m.EngineName
			}
		}
		vpAssert(last == fastest, "the engine with the best throughput is in use")
		vpSearch(ef, pool, in, vpPC17365, vpISOTag(2))
		vpReach("adopted")
	})
}

// The same with other orders of the goroutines.
func vpH_GeneratorCountsOrders() { vpH_GeneratorCounts() }
func vpH_FactoryTwoOrders()      { vpFactoryGeneration(vpCase(), vpTier() > 0) }
func vpH_FactoryFourOrders()     { vpFactoryGeneration(4+vpCase(), false) }
func vpH_AdoptionTwoOrders()     { vpFactoryAdoption(vpCase(), 1) }
func vpH_AdoptionFourOrders()    { vpFactoryAdoption(4+vpCase(), 1) }

// hundreds of searches in an interval, a few of them matching or not; then more
func vpH_GeneratorMany() {
	vpBubble(func() {
		e := &vpTimedEngine{name: "List"}
		AvailableEngines = Engines{"List": func(Subscriptions) Engine { return e }}
		mc := make(chan ManagementMessage, 16)
		eg := NewEngineGenerator("List", AvailableEngines["List"], 1, mc)
		eg.FSM.Event(context.Background(), "init", Subscriptions{})
		m := <-mc
		vpAssert(m.Type == OnEngineGenerated, "a generated engine announces itself")
		for round := 0; round < 3; round++ {
			n := []int{300, 1, 70}[round] * (1 + vpCase())
			hits, took := int64(0), 0
			for i := 0; i < n; i++ {
				hit := i%3 == 1
				d := 1 + i%7
				if i == n/2 || i == n-1 {
					hit = vpBool()
					d = 1 + int(vpNum(999))
				}
				if hit {
					hits++
				}
				took += d
				e.hit = append(e.hit, hit)
				e.took = append(e.took, d)
				_, uris, err := eg.Search(llrp.ReadEvent{})
				vpAssert(err == nil && (len(uris) == 1) == hit, "a search returns what the engine answers")
			}
			time.Sleep(time.Second)
			vpSettle()
			vpAssert(len(mc) == 2, "traffic and throughput are reported in an interval")
			traffic, perf := <-mc, <-mc
			vpReach("many")
			vpAssert(traffic.Type == TrafficStatus && perf.Type == EngineStatus, "traffic and throughput are reported in an interval")
			vpAssert(traffic.EventCount == int64(n), "every search is counted in exactly one report")
			vpAssert(traffic.MatchedCount == hits, "every search with a match is counted in exactly one report")
			vpAssert(vpSame(perf.CurrentThroughput, float64(n*1000)/float64(took)), "the throughput is the searches per microsecond spent in them")
		}
	})
}

// the fastest of four engines changes many times: case = order of the engines
func vpH_FactoryMany() {
	vpBubble(func() {
		names := vpFactoryNames(4 + vpCase())
		x := vpNewFactory(names, make([]time.Duration, len(names)), 1)
		n := 0
		free := vpSome(8, 3)
		for round := 0; round < 8; round++ {
			m := 1 + round*5%13
			for i, e := range x.engines {
				e.took = 1000 + (i*7+round*3)%4*100
				if round == free && i%2 == 0 {
					e.took = 1 + int(vpNum(1999))
				}
			}
			for k := 0; k < m; k++ {
				x.vpAnswer()
				n++
			}
			x.vpTick()
			x.vpTick()
			for _, e := range x.engines {
				vpAssert(x.traffic[e.name] == x.ticks, "every engine reports once in an interval")
				vpAssert(e.n == n, "every engine searches for every tag")
				vpAssert(x.events[e.name] == int64(n), "the reports count every search once")
				vpAssert(vpSame(x.perf[e.name], float64(m*1000)/float64(m*e.took)), "the throughput of every engine is reported")
			}
			a := x.vpAnswer()
			n++
			vpAssert(x.last == a, "the engine in use is announced")
			for _, e := range x.engines {
				vpAssert(x.perf[a] >= x.perf[e.name], "the engine with the best throughput is in use")
			}
			vpReach("adopted")
			x.vpTick()
		}
		vpAssert(x.other == 0, "the factory tells nothing else")
	})
}
