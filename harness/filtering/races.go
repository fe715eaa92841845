package filtering

import (
	"time"

	"github.com/iomz/go-llrp"
)

// vpPacedEngine takes the time it was built with.
type vpPacedEngine struct {
	Engine
	took time.Duration
}

func (e *vpPacedEngine) Search(re llrp.ReadEvent) (string, []string, error) {
	time.Sleep(e.took)
	return e.Engine.Search(re)
}

// Tags are searched for as in a session, while engines are generated, report and come
// into use: nothing is accessed by two goroutines at once. case = the fastest engine
func vpH_Races()       { vpRaceRun([]byte{vpByte(), 0xff}) }
func vpH_RacesOrders() { vpRaceRun([]byte{byte(0x83 * vpChoose(2)), 0xff}) }

func vpRaceRun(tag []byte) {
	vpBubble(func() {
		vpRaces()
		fastest := []string{"List", "PatriciaTrie", "SplayTree", "LegacyEngine"}[vpCase()]
		pool := vpPool()[:3]
		given := AvailableEngines
		AvailableEngines = Engines{}
		for name, mk := range given {
			name, mk := name, mk
			took, wait := 20*time.Millisecond, time.Duration(0)
			if name == fastest {
				took = 10 * time.Millisecond
				wait = []time.Duration{0, 700 * time.Millisecond}[vpChoose(2)]
			}
			AvailableEngines[name] = func(sub Subscriptions) Engine {
				time.Sleep(wait)
				return &vpPacedEngine{mk(sub), took}
			}
		}
		mc := make(chan ManagementMessage, 128)
		ef := NewEngineFactory(vpSubs(pool, []bool{true, true, true}), 1, mc)
		got := make(chan int, 1)
		go func() {
			n := 0
			for m := range mc {
				if m.Type == SelectedEngine && m.EngineName != "" {
					n++
				}
				select {
				case <-got:
				default:
				}
				got <- n
			}
		}()
		go ef.Run()
		for i := 0; !ef.IsActive(); i++ {
			vpAssert(i < 10, "a factory is active once an engine is generated")
			time.Sleep(100 * time.Millisecond)
		}
		pause := 350 * time.Millisecond * time.Duration(vpChoose(4))
		for k := 0; k < 3+vpTier(); k++ {
			ef.Search(llrp.ReadEvent{PC: vpPC17365, ID: tag})
			time.Sleep(pause)
		}
		time.Sleep(2 * time.Second)
		ef.Search(llrp.ReadEvent{PC: vpPC17365, ID: tag})
		vpAssert(<-got >= 1, "the engine in use is announced")
		vpReach("searched")
	})
}
