package main

import (
	"io"
	"net/http"
	"net/http/httptest"
	"sync"
	"time"

	"github.com/influxdata/influxdb1-client/models"
)

// A database which keeps what is written to it.
func init() {
	var mu sync.Mutex
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer w.WriteHeader(http.StatusNoContent)
		if r.URL.Path != "/write" {
			return
		}
		b, _ := io.ReadAll(r.Body)
		q := r.URL.Query()
		pts, err := models.ParsePointsWithPrecision(b, time.Now(), q.Get("precision"))
		if err != nil {
			panic(err)
		}
		wr := vpWritten{db: q.Get("db")}
		wr.user, wr.pass, _ = r.BasicAuth()
		for _, pt := range pts {
			p := vpPoint{name: string(pt.Name()), tags: pt.Tags().Map(), ints: map[string]int64{}, floats: map[string]float64{}}
			fs, _ := pt.Fields()
			for k, v := range fs {
				switch v := v.(type) {
				case int64:
					p.ints[k] = v
				case float64:
					p.floats[k] = v
				}
			}
			wr.points = append(wr.points, p)
		}
		mu.Lock()
		vpWrites = append(vpWrites, wr)
		mu.Unlock()
	}))
	vpDB = s.URL
	vpPointsWritten = func() (ps []vpPoint) {
		mu.Lock()
		defer mu.Unlock()
		for _, w := range vpWrites {
			ps = append(ps, w.points...)
		}
		return ps
	}
}
