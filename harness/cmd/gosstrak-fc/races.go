package main

import (
	"net"
	"os"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
)

// A connection whose bytes arrive in the memory of the session.
type vpRacyConn struct{ vpConn }

func (c *vpRacyConn) Read(b []byte) (int, error) {
	for len(c.rest) == 0 {
		c.rest = <-vpIn
	}
	n := arrive(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

// arrive counts as an access of the session
func arrive(b, from []byte) int { return copy(b, from) }

var vpRacy bool

func vpAnyConn() net.Conn {
	if vpRacy {
		return &vpRacyConn{}
	}
	return &vpConn{}
}

// vpPost sends and doesn't wait for the session.
var vpPost = func(b []byte) { vpIn <- b }

// A session with statistics, while intervals end: nothing is accessed by two
// goroutines at once.
func vpH_SessionRaces() {
	vpRacy = true
	vpRaces()
	engines := filtering.AvailableEngines
	vpFlags(1000, 1, true)
	filtering.AvailableEngines = engines
	os.WriteFile(vpNoFile, []byte("http://h/a,urn:epc:pat:iso17365:@\nhttp://h/b,urn:epc:pat:iso17365:P\n"), 0o644)
	go run()
	vpConnected()
	for k := 0; k < 2+vpTier(); k++ {
		var stream []byte
		for i := 0; i < 3; i++ {
			var body []byte
			if i < 2 {
				for j := 0; j <= i; j++ {
					first := byte(0)
					if j == 0 {
						first = byte(0x83 * vpChoose(2))
					}
					body = append(body, 0, 240, 0, 15, 0, 241, 0, 8, 0, 16, first, byte(1+j), 140, 0x09, 0xa2)
				}
				stream = append(stream, vpMessage(llrp.ROAccessReportHeader, body)...)
			} else {
				stream = append(stream, vpMessage(llrp.KeepaliveHeader, nil)...)
			}
		}
		vpPost(stream)
		time.Sleep(time.Duration(vpChoose(2)) * 1200 * time.Millisecond)
		vpReach("posted")
	}
	time.Sleep(2200 * time.Millisecond)
}
