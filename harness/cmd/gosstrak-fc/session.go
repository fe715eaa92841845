package main

import (
	"errors"
	"net"
	"os"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
)

// The peer: an interrogator which sends to and receives from gosstrak-fc.

var vpInterrogator = "127.0.0.1:5084"
var vpNoFile = "none.csv" // no subscriptions

var vpIn chan []byte
var vpOutBytes []byte // what gosstrak-fc sent

var vpSend = func(b []byte) { vpIn <- b; vpSettle() }
var vpWaitFor = func(func() bool) { vpSettle() }
var vpReceived = func() []byte { return vpOutBytes }
var vpAfter = func(n int, _ func() bool) { time.Sleep(time.Duration(n) * time.Second); vpSettle() } // waits for intervals
var vpConnected = func() { vpSettle(); time.Sleep(2 * time.Second); vpSettle() }

type vpConn struct {
	net.Conn
	rest []byte
}

func (c *vpConn) Read(b []byte) (int, error) {
	for len(c.rest) == 0 {
		c.rest = <-vpIn
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *vpConn) Write(b []byte) (int, error) {
	vpOutBytes = append(vpOutBytes, b...)
	return len(b), nil
}

func (c *vpConn) Close() error                     { return nil }
func (c *vpConn) SetDeadline(time.Time) error      { return nil }
func (c *vpConn) SetReadDeadline(time.Time) error  { return nil }
func (c *vpConn) SetWriteDeadline(time.Time) error { return nil }
func (c *vpConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *vpConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }

func vpDial(network, address string) (net.Conn, error) {
	vpAssert(address == vpInterrogator, "the connection is to the interrogator")
	return vpAnyConn(), nil
}

func vpDialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return vpDial(network, address)
}

type vpListener struct{ net.Listener }

func (vpListener) Accept() (net.Conn, error) {
	<-make(chan struct{})
	return nil, nil
}

func vpListen(network, address string) (net.Listener, error) { return vpListener{}, nil }

// An engine which keeps what it is asked.

type vpEngine struct{ filtering.Engine }

type vpAsked struct{ id, pc []byte }

var vpSearched []vpAsked
var vpHits []bool // which searches match; all if nil

func (vpEngine) Name() string { return "List" }

func (vpEngine) Search(re llrp.ReadEvent) (string, []string, error) {
	vpSearched = append(vpSearched, vpAsked{append([]byte{}, re.ID...), append([]byte{}, re.PC...)})
	if vpHits != nil && !vpHits[len(vpSearched)-1] {
		return "", nil, errors.New("no match")
	}
	return "urn", []string{"http://dest"}, nil
}

func vpFlags(initial int, interval int, stat bool) {
	no, empty := "127.0.0.1:0", ""
	ecspecFile = &vpNoFile
	llrpInitialMessageID = &initial
	llrpAddr = &vpInterrogator
	managementAddr = &no
	enableStat = &stat
	statInterval = &interval
	influxAddr, influxUser, influxPass, influxDB = &vpDB, &empty, &empty, &empty
	vpWrites = nil
	os.WriteFile(vpNoFile, nil, 0o644)
	vpHits, vpSearched, vpOutBytes, vpIn = nil, nil, nil, make(chan []byte)
	filtering.AvailableEngines = filtering.Engines{"List": func(filtering.Subscriptions) filtering.Engine { return vpEngine{} }}
}

func vpBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vpByte()
	}
	return b
}

func vpMessage(header uint16, body []byte) []byte {
	n := len(body) + 10
	m := []byte{byte(header >> 8), byte(header), 0, 0, byte(n >> 8), byte(n)}
	m = append(m, vpBytes(4)...) // any message ID
	return append(m, body...)
}

// vpTag is a TagReportData.
func vpTag(want *[]vpAsked) []byte {
	var p []byte
	var a vpAsked
	if vpBool() {
		a.id = vpBytes(12)
		p = append([]byte{141}, a.id...)
	} else {
		n := 2 * (1 + vpChoose(2))
		a.id = vpBytes(n)
		p = append([]byte{0, 241, 0, byte(6 + n), 0, byte(8 * n)}, a.id...)
	}
	a.pc = vpBytes(2)
	p = append(p, 140, a.pc[0], a.pc[1])
	*want = append(*want, a)
	return append([]byte{0, 240, 0, byte(4 + len(p))}, p...)
}

// vpH_Session: the interrogator sends a few messages, in pieces of any size.
func vpH_Session() {
	n := 1 + vpCase()
	initial := int(vpNum(1<<32 - 1))
	vpFlags(initial, 3600, false)
	go run()
	vpConnected()

	var stream []byte
	var want []vpAsked
	var replies []uint16
	for i := 0; i < n; i++ {
		switch vpChoose(4) {
		case 0:
			stream = append(stream, vpMessage(llrp.ReaderEventNotificationHeader, vpBytes(vpChoose(3)))...)
			replies = append(replies, llrp.SetReaderConfigHeader)
			vpReach("notification")
		case 1:
			stream = append(stream, vpMessage(llrp.KeepaliveHeader, nil)...)
			replies = append(replies, llrp.KeepaliveAckHeader)
			vpReach("keepalive")
		case 2:
			stream = append(stream, vpMessage(llrp.SetReaderConfigResponseHeader, vpBytes(4*vpChoose(2)))...)
			vpReach("response")
		case 3:
			var body []byte
			for k := vpChoose(3); k > 0; k-- {
				body = append(body, vpTag(&want)...)
			}
			stream = append(stream, vpMessage(llrp.ROAccessReportHeader, body)...)
			vpReach("report")
		}
	}
	cut := 0
	if n < 3 {
		cut = vpChoose(len(stream))
	} else {
		cut = len(stream) * vpChoose(4) / 4
	}
	if cut > 0 {
		vpSend(stream[:cut])
		vpSend(stream[cut:])
		vpReach("in two pieces")
	} else {
		vpSend(stream)
	}

	// every report's tags are searched for, in the order in which they were read
	size := 0
	for _, r := range replies {
		if r == llrp.KeepaliveAckHeader {
			size += 10
		} else {
			size += len(llrp.SetReaderConfig(0))
		}
	}
	vpWaitFor(func() bool { return len(vpSearched) >= len(want) && len(vpReceived()) >= size })
	vpAssert(len(vpSearched) == len(want), "every tag of a report is searched for, once")
	for i, a := range want {
		s := vpSearched[i]
		vpAssert(vpStrEq(string(s.id), string(a.id)) && vpStrEq(string(s.pc), string(a.pc)), "the search is for the tag which was read")
	}
	got := vpReceived()
	for k, h := range replies {
		vpAssert(len(got) >= 10, "notifications and keepalives are answered")
		vpAssert(got[0] == byte(h>>8) && got[1] == byte(h), "the answer is the one to the message")
		id := uint32(got[6])<<24 | uint32(got[7])<<16 | uint32(got[8])<<8 | uint32(got[9])
		if k == 0 {
			vpAssert(id == uint32(initial), "message IDs start from the one configured")
		}
		full := llrp.KeepaliveAck(id)
		if h == llrp.SetReaderConfigHeader {
			full = llrp.SetReaderConfig(id)
		}
		vpAssert(len(got) >= len(full), "the answer is whole")
		vpAssert(vpStrEq(string(got[:len(full)]), string(full)), "the answer is well-formed")
		got = got[len(full):]
	}
	vpAssert(len(got) == 0, "nothing else is sent")
	vpObserve("searched", len(vpSearched))
	vpObserve("replies", len(replies))
}

// case = kind*4 + length: a message of a length about or beyond the 65535 bytes two
// bytes can tell, then a report of one tag and a keepalive
func vpH_SessionLarge() {
	size := []int{65535, 65536, 65545, 131072 + 12}[vpCase()%4]
	vpFlags(0, 3600, false)
	go run()
	vpConnected()
	large := func(header uint16, body []byte) []byte {
		m := vpMessage(header, body)
		m[2], m[3] = byte(len(m)>>24), byte(len(m)>>16)
		return m
	}
	var want, last []vpAsked
	var stream []byte
	if vpCase()/4 == 0 {
		stream = large(llrp.SetReaderConfigResponseHeader, make([]byte, size-10))
	} else { // tags of the largest size
		var body []byte
		const words = 31
		for len(body) < size {
			a := vpAsked{make([]byte, 2*words), []byte{0xfc, 0}}
			copy(a.id, vpBytes(1))
			n := len(a.id)
			body = append(body, 0, 240, 0, byte(4+6+n+3), 0, 241, 0, byte(6+n), byte(8*n>>8), byte(8*n&255))
			body = append(append(body, a.id...), 140, a.pc[0], a.pc[1])
			want = append(want, a)
		}
		stream = large(llrp.ROAccessReportHeader, body)
	}
	stream = append(stream, vpMessage(llrp.ROAccessReportHeader, vpTag(&last))...)
	stream = append(stream, vpMessage(llrp.KeepaliveHeader, nil)...)
	want = append(want, last...)
	vpSend(stream)
	vpWaitFor(func() bool { return len(vpSearched) >= len(want) && len(vpReceived()) >= 10 })
	vpReach("large")
	vpAssert(len(vpSearched) == len(want), "every tag of a report is searched for, once")
	for i, a := range want {
		s := vpSearched[i]
		vpAssert(vpStrEq(string(s.id), string(a.id)) && vpStrEq(string(s.pc), string(a.pc)), "the search is for the tag which was read")
	}
	vpAssert(vpStrEq(string(vpReceived()), string(llrp.KeepaliveAck(0))), "the keepalive is answered")
	vpObserve("searched", len(vpSearched))
}

// many messages of every kind in pieces of a few sizes, reports of many tags:
// case = size of the pieces
func vpH_SessionMany() {
	piece := []int{1000000, 1, 7, 64, 1000, 4096}[vpCase()]
	initial := int(vpNum(1<<32 - 1))
	vpFlags(initial, 3600, false)
	go run()
	vpConnected()
	var stream []byte
	var want []vpAsked
	var replies []uint16
	for i := 0; i < 24; i++ {
		var header uint16
		var body []byte
		switch i * 7 % 5 {
		case 0:
			header, body = llrp.ReaderEventNotificationHeader, make([]byte, i*3%22)
			replies = append(replies, llrp.SetReaderConfigHeader)
		case 1:
			header = llrp.KeepaliveHeader
			replies = append(replies, llrp.KeepaliveAckHeader)
		case 2:
			header, body = llrp.SetReaderConfigResponseHeader, make([]byte, i)
		default:
			header = llrp.ROAccessReportHeader
			for k := 0; k < i*5%17; k++ {
				n := []int{12, 2, 16, 12, 4, 62}[(i+k)%6]
				a := vpAsked{make([]byte, n), []byte{byte(k), byte(i)}}
				for j := range a.id {
					a.id[j] = byte(i*31 + k*7 + j)
				}
				if k == 2 {
					a.id[n-1], a.pc[0] = vpByte(), vpByte()
				}
				p := append([]byte{141}, a.id...)
				if n != 12 {
					p = append([]byte{0, 241, 0, byte(6 + n), byte(8 * n >> 8), byte(8 * n & 255)}, a.id...)
				}
				p = append(p, 140, a.pc[0], a.pc[1])
				body = append(append(body, 0, 240, 0, byte(4+len(p))), p...)
				want = append(want, a)
			}
		}
		n := len(body) + 10
		stream = append(stream, byte(header>>8), byte(header), 0, 0, byte(n>>8), byte(n), byte(i), 0, vpByte(), 7)
		stream = append(stream, body...)
	}
	for rest := stream; len(rest) > 0; {
		n := piece
		if piece == 1 && len(rest) < len(stream)-200 { // byte by byte at first
			n = len(rest)
		}
		if n > len(rest) {
			n = len(rest)
		}
		vpSend(rest[:n])
		rest = rest[n:]
	}
	size := 0
	for _, r := range replies {
		if r == llrp.KeepaliveAckHeader {
			size += 10
		} else {
			size += len(llrp.SetReaderConfig(0))
		}
	}
	vpWaitFor(func() bool { return len(vpSearched) >= len(want) && len(vpReceived()) >= size })
	vpReach("many")
	vpAssert(len(vpSearched) == len(want), "every tag of a report is searched for, once")
	for i, a := range want {
		s := vpSearched[i]
		vpAssert(vpStrEq(string(s.id), string(a.id)) && vpStrEq(string(s.pc), string(a.pc)), "the search is for the tag which was read")
	}
	got := vpReceived()
	for _, h := range replies {
		vpAssert(len(got) >= 10, "notifications and keepalives are answered")
		vpAssert(got[0] == byte(h>>8) && got[1] == byte(h), "the answer is the one to the message")
		id := uint32(got[6])<<24 | uint32(got[7])<<16 | uint32(got[8])<<8 | uint32(got[9])
		full := llrp.KeepaliveAck(id)
		if h == llrp.SetReaderConfigHeader {
			full = llrp.SetReaderConfig(id)
		}
		vpAssert(len(got) >= len(full), "the answer is whole")
		vpAssert(vpStrEq(string(got[:len(full)]), string(full)), "the answer is well-formed")
		got = got[len(full):]
	}
	vpAssert(len(got) == 0, "nothing else is sent")
	vpObserve("searched", len(vpSearched))
}

// reports of many tags in several intervals, a few of the tags matching or not:
// case = seed of the numbers of tags
func vpH_StatsMany() {
	vpFlags(0, 1, true)
	vpHits = []bool{}
	go run()
	vpConnected()
	hits, tags := int64(0), 0
	for i := 0; i < 8; i++ {
		var body []byte
		n := (i*11 + vpCase()*5) % 40
		for k := 0; k < n; k++ {
			a := vpAsked{make([]byte, 12), []byte{0x30, 0}}
			a.id[3], a.id[11] = byte(k), byte(i)
			if k == 0 {
				a.id[5] = vpByte()
			}
			p := append(append([]byte{141}, a.id...), 140, a.pc[0], a.pc[1])
			body = append(append(body, 0, 240, 0, byte(4+len(p))), p...)
			hit := k%4 == 1
			if i%3 == 0 && k == n/2 {
				hit = vpBool()
			}
			if hit {
				hits++
			}
			vpHits = append(vpHits, hit)
			tags++
		}
		m := len(body) + 10
		vpSend(append([]byte{0x04, 61, 0, 0, byte(m >> 8), byte(m), 0, 0, 0, byte(i)}, body...))
		if i%3 == 1 {
			vpAfter(1, nil)
		}
	}
	count := func() (in, matched int64) {
		for _, p := range vpPointsWritten() {
			in += p.ints["incoming_events"]
			matched += p.ints["matched_events"]
		}
		return
	}
	vpAfter(2, func() bool { in, m := count(); return in >= int64(tags) && m >= hits })
	in, matched := count()
	vpReach("many")
	vpAssert(in == int64(tags), "the traffic is that of the reports")
	vpAssert(matched == hits, "the matches are those of the searches")
	vpObserve("matched", matched)
}

func vpH_SessionOrders() { vpH_Session() }

func vpH_StatsOrders() { vpH_SessionStats() }

var vpPointsWritten = func() (ps []vpPoint) {
	for _, w := range vpWrites {
		ps = append(ps, w.points...)
	}
	return ps
}

// vpH_SessionStats: what the database is told is what the interrogator reported.
func vpH_SessionStats() {
	n := 1 + vpCase()
	vpFlags(0, 1, true)
	vpHits = []bool{}
	go run()
	vpConnected()
	var want []vpAsked
	hits := int64(0)
	for i := 0; i < n; i++ {
		var body []byte
		for k := vpChoose(3); k > 0; k-- {
			body = append(body, vpTag(&want)...)
			hit := vpBool()
			if hit {
				hits++
				vpReach("match")
			}
			vpHits = append(vpHits, hit)
		}
		vpSend(vpMessage(llrp.ROAccessReportHeader, body))
		if vpBool() {
			vpAfter(1, nil)
			vpReach("interval")
		}
	}
	told := 0
	count := func() (in, matched int64) {
		told = 0
		for _, p := range vpPointsWritten() {
			if p.name == "engine" {
				told++
			}
			in += p.ints["incoming_events"]
			matched += p.ints["matched_events"]
		}
		return
	}
	vpAfter(2, func() bool { in, m := count(); return in >= int64(len(want)) && m >= hits && told > 0 })
	in, matched := count()
	vpAssert(in == int64(len(want)), "the traffic is that of the reports")
	vpAssert(matched == hits, "the matches are those of the searches")
	selected := 0
	for _, p := range vpPointsWritten() {
		switch p.name {
		case "traffic", "throughput":
			vpAssert(p.tags["engine"] == "List", "points name the engine")
		case "engine":
			v, ok := p.ints["selected"]
			vpAssert(ok && v == 1, "the selected engine is the one in use")
			selected++
		default:
			vpAssert(false, "no other measurements")
		}
	}
	vpAssert(selected > 0, "the selected engine is reported")
	vpObserve("searched", len(vpSearched))
	vpObserve("matched", matched)
}

// vpH_SessionMatches: with patterns from a file and the engines there are, the database
// is told of the matches the patterns have among the tags.
func vpH_SessionMatches() {
	engines := filtering.AvailableEngines
	vpFlags(0, 1, true)
	filtering.AvailableEngines = engines
	pats := []struct{ text, bits string }{
		{"@A", "000000000001"}, {"@", "000000"}, {"P", "010000"}, {"@@", "000000000000"},
	}[:2+vpTier()*2]
	var text []byte
	var in []int
	for i, p := range pats {
		if vpBool() {
			text = append(text, ("http://h/" + string(rune('a'+i)) + ",urn:epc:pat:iso17365:" + p.text + "\n")...)
			in = append(in, i)
		}
	}
	os.WriteFile(vpNoFile, text, 0o644)
	go run()
	vpConnected()
	vpAfter(1, nil) // every engine is there by now

	n, matches := 1+vpCase(), int64(0)
	var body []byte
	for k := 0; k < n; k++ {
		id := vpBytes(2)
		// 32 is the padding
		vpAssume(vpAnd(id[0]>>2 != 32, (id[0]&3)<<4|id[1]>>4 != 32))
		match := false
		for _, i := range in {
			same := true
			for j, c := range pats[i].bits {
				same = vpAnd(same, id[j/8]>>uint(7-j%8)&1 == byte(c-'0'))
			}
			match = vpOr(match, same)
		}
		if match {
			matches++
			vpReach("match")
		} else {
			vpReach("no match")
		}
		body = append(body, 0, 240, 0, 15, 0, 241, 0, 8, 0, 16, id[0], id[1], 140, 0x09, 0xa2)
	}
	vpSend(vpMessage(llrp.ROAccessReportHeader, body))

	count := func(engine string) (in, matched int64) {
		for _, p := range vpPointsWritten() {
			if p.tags["engine"] == engine {
				in += p.ints["incoming_events"]
				matched += p.ints["matched_events"]
			}
		}
		return
	}
	vpAfter(2, func() bool {
		for e := range engines {
			if i, m := count(e); i < int64(n) || m < matches {
				return false
			}
		}
		return true
	})
	for e := range engines {
		i, m := count(e)
		vpAssert(i == int64(n), "every engine searches for every tag")
		vpAssert(m == matches, "an engine's matches are those of the patterns")
	}
	vpObserve("matches", matches)
}
