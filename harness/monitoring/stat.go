package monitoring

import (
	"errors"
	"time"

	client "github.com/influxdata/influxdb1-client/v2"
)

// What the database was given: one entry per write.
type vpWritten struct {
	db, user, pass string
	points         []vpPoint
}

type vpPoint struct {
	name   string
	tags   map[string]string
	ints   map[string]int64
	floats map[string]float64
	at     int64 // nanoseconds, as the database has it
}

var vpWrites []vpWritten

// vpDB is where the database listens; the native side has a server there.
var vpDB = "http://127.0.0.1:8086"

var vpWaitFor = func(func() bool) {
	vpSettle()
	if vpWriteTime > 0 {
		time.Sleep(100 * vpWriteTime)
	}
}

// The engine puts these in the place of the client of the database.

type vpClient struct {
	client.Client
	conf client.HTTPConfig
}

func vpNewHTTPClient(conf client.HTTPConfig) (client.Client, error) {
	if conf.Addr != vpDB {
		return nil, errors.New("no such database")
	}
	return &vpClient{conf: conf}, nil
}

func (c *vpClient) Close() error { return nil }

func (c *vpClient) Write(bp client.BatchPoints) error {
	w := vpWritten{db: bp.Database(), user: c.conf.Username, pass: c.conf.Password}
	unit := vpUnit[bp.Precision()]
	for _, p := range bp.Points() {
		x := *vpPoints[p]
		if x.at == 0 {
			x.at = time.Now().UnixNano() // the database takes its own time
		}
		x.at -= x.at % unit
		w.points = append(w.points, x)
	}
	time.Sleep(vpWriteTime)
	vpWrites = append(vpWrites, w)
	return nil
}

var vpUnit = map[string]int64{"": 1, "n": 1, "ns": 1, "u": 1e3, "us": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9}

// vpWriteTime is what a write takes.
var vpWriteTime time.Duration

var vpPoints = map[*client.Point]*vpPoint{}

func vpNewPoint(name string, tags map[string]string, fields map[string]interface{}, t ...time.Time) (*client.Point, error) {
	if name == "" || len(fields) == 0 {
		return nil, errors.New("no name or no fields")
	}
	p := &vpPoint{name: name, tags: map[string]string{}, ints: map[string]int64{}, floats: map[string]float64{}}
	if len(t) > 0 {
		p.at = t[0].UnixNano()
	}
	for k, v := range tags {
		p.tags[k] = v
	}
	for k, v := range fields {
		switch v := v.(type) {
		case int:
			p.ints[k] = int64(v)
		case int64:
			p.ints[k] = v
		case float64:
			p.floats[k] = v
		default:
			return nil, errors.New("a field of another type")
		}
	}
	pt := new(client.Point)
	vpPoints[pt] = p
	return pt, nil
}

// vpH_StatManager: any few messages, one after the other.
func vpH_StatManager() {
	n := 1 + vpCase()
	vpWrites = nil
	sm := NewStatManager("master", vpDB, "who", "secret", "stats")
	names := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree", "Legacy"}
	var want []vpPoint
	for i := 0; i < n; i++ {
		eng := vpChoose(len(names))
		p := vpPoint{tags: map[string]string{}, ints: map[string]int64{}, floats: map[string]float64{}}
		m := StatMessage{Name: names[eng]}
		good := true
		switch vpChoose(4) {
		case 0:
			in, hit := int64(vpNum(1<<20)), int64(vpNum(1<<20))
			m.Type = Traffic
			m.Value = []interface{}{in, hit}
			p.name = "traffic"
			p.tags["engine"] = m.Name
			p.ints["incoming_events"] = in
			p.ints["matched_events"] = hit
			if in != 0 {
				p.floats["matching_probability"] = float64(hit*100) / float64(in)
				vpReach("probability")
			} else {
				vpReach("no traffic")
			}
		case 1:
			m.Type = EngineThroughput
			v := float64(vpNum(1<<20)) / 8
			m.Value = []interface{}{v}
			p.name = "throughput"
			p.tags["engine"] = m.Name
			p.floats["event_per_us"] = v
			vpReach("throughput")
		case 2:
			m.Type = SelectedEngine
			p.name = "engine"
			p.ints["selected"] = int64(eng % 4)
			vpReach("selected")
		case 3:
			// values which aren't counts
			good = false
			m.Type = Traffic
			if vpBool() {
				m.Value = []interface{}{int(vpNum(9)), int64(1)}
			} else {
				m.Value = []interface{}{int64(vpNum(9)), "1"}
			}
			vpReach("malformed")
		}
		sm.StatMessageChannel <- m
		if good {
			want = append(want, p)
		}
		vpWaitFor(func() bool { return len(vpWrites) >= len(want) })
		if !good {
			vpAssert(len(vpWrites) == len(want), "a message without counts isn't written")
			continue
		}
		vpAssert(len(vpWrites) == len(want), "a message is written once, when it comes")
		w := vpWrites[len(want)-1]
		vpAssert(w.db == "stats" && w.user == "who" && w.pass == "secret", "the points go to the database they are meant for")
		vpAssert(len(w.points) == 1, "what is written is the point of the message")
		vpSamePoint(w.points[0], p)
	}
	vpObserve("writes", len(vpWrites))
}

func vpSamePoint(got, want vpPoint) {
	vpAssert(got.name == want.name, "the measurement is that of the message")
	vpAssert(len(got.tags) == len(want.tags), "tags: no more and no less")
	for k, v := range want.tags {
		vpAssert(got.tags[k] == v, "the tag "+k)
	}
	vpAssert(len(got.ints) == len(want.ints) && len(got.floats) == len(want.floats), "fields: no more and no less")
	for k, v := range want.ints {
		g, ok := got.ints[k]
		vpAssert(ok && g == v, "the field "+k)
	}
	for k, v := range want.floats {
		g, ok := got.floats[k]
		vpAssert(ok, "there is the field "+k)
		vpAssert(vpSame(g, v), "the field "+k)
	}
}

// vpH_StatMany: many messages of every kind in turn; case = the first kind
func vpH_StatMany() {
	vpWrites = nil
	sm := NewStatManager("master", vpDB, "who", "secret", "stats")
	names := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}
	for i := 0; i < 40; i++ {
		eng := i * 3 / 2 % 4
		p := vpPoint{tags: map[string]string{}, ints: map[string]int64{}, floats: map[string]float64{}}
		m := StatMessage{Name: names[eng]}
		switch (i + vpCase()) % 3 {
		case 0:
			in, hit := int64(i/6%2*i), int64(i/2)
			if i%10 == 3 {
				hit = int64(vpNum(1 << 20))
			}
			m.Type = Traffic
			m.Value = []interface{}{in, hit}
			p.name = "traffic"
			p.tags["engine"] = m.Name
			p.ints["incoming_events"] = in
			p.ints["matched_events"] = hit
			if in != 0 {
				p.floats["matching_probability"] = float64(hit*100) / float64(in)
			}
		case 1:
			m.Type = EngineThroughput
			v := float64(i) / 16
			m.Value = []interface{}{v}
			p.name = "throughput"
			p.tags["engine"] = m.Name
			p.floats["event_per_us"] = v
		case 2:
			m.Type = SelectedEngine
			p.name = "engine"
			p.ints["selected"] = int64(eng % 4)
		}
		sm.StatMessageChannel <- m
		vpWaitFor(func() bool { return len(vpWrites) >= i+1 })
		vpAssert(len(vpWrites) == i+1, "a message is written once, when it comes")
		w := vpWrites[i]
		vpAssert(w.db == "stats" && w.user == "who" && w.pass == "secret", "the points go to the database they are meant for")
		vpAssert(len(w.points) == 1, "what is written is the point of the message")
		vpSamePoint(w.points[0], p)
	}
	vpReach("many")
	vpObserve("writes", len(vpWrites))
}

// vpH_StatTimes: messages of one kind and engine as fast as they are taken: the
// database keeps one point for each time, so the times differ. case = the kind
func vpH_StatTimes() {
	vpWrites = nil
	vpWriteTime = 20 * time.Microsecond
	sm := NewStatManager("master", vpDB, "who", "secret", "stats")
	names := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}
	name := names[vpChoose(len(names))]
	const n = 12
	for i := 0; i < n; i++ {
		m := StatMessage{Name: name}
		switch vpCase() {
		case 0:
			m.Type = Traffic
			m.Value = []interface{}{int64(10), int64(i)}
		case 1:
			m.Type = EngineThroughput
			m.Value = []interface{}{float64(i) / 16}
		case 2:
			m.Type = SelectedEngine
		}
		sm.StatMessageChannel <- m
	}
	points := func() (out []vpPoint) {
		for _, w := range vpWrites {
			out = append(out, w.points...)
		}
		return
	}
	vpWaitFor(func() bool { return len(points()) >= n })
	ps := points()
	vpAssert(len(ps) == n, "each message is written")
	for i := range ps {
		for j := 0; j < i; j++ {
			vpAssert(ps[i].at != ps[j].at, "a point replaces another one in the database")
		}
	}
	vpReach("times")
	vpObserve("points", len(ps))
}
