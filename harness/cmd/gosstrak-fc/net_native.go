package main

import (
	"net"
	"sync"
	"time"
)

func init() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	vpInterrogator = l.Addr().String()
	var mu sync.Mutex
	var out []byte
	var c net.Conn
	vpConnected = func() {
		var err error
		if c, err = l.Accept(); err != nil {
			panic(err)
		}
		mu.Lock()
		out = nil
		mu.Unlock()
		go func() {
			b := make([]byte, 4096)
			for {
				n, err := c.Read(b)
				mu.Lock()
				out = append(out, b[:n]...)
				mu.Unlock()
				if err != nil {
					return
				}
			}
		}()
	}
	vpSend = func(b []byte) {
		c.Write(b)
		time.Sleep(20 * time.Millisecond)
	}
	vpPost = func(b []byte) { c.Write(b) }
	vpReceived = func() []byte {
		mu.Lock()
		defer mu.Unlock()
		return append([]byte{}, out...)
	}
	vpAfter = func(n int, ok func() bool) {
		if ok == nil {
			time.Sleep(time.Duration(n) * time.Second)
			return
		}
		for i := 0; i < 1200*n && !ok(); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(20 * time.Millisecond)
	}
	vpWaitFor = func(ok func() bool) {
		for i := 0; i < 2000; i++ {
			if ok() && i > 3 {
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
}
