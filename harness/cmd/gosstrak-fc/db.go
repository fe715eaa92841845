package main

import (
	"errors"
	"time"

	client "github.com/influxdata/influxdb1-client/v2"
)

// What the database was given: one entry per write.
type vpWritten struct {
	db, user, pass string
	points         []vpPoint
}

type vpPoint struct {
	name   string
	tags   map[string]string
	ints   map[string]int64
	floats map[string]float64
}

var vpWrites []vpWritten

// vpDB is where the database listens; the native side has a server there.
var vpDB = "http://127.0.0.1:8086"

// The engine puts these in the place of the client of the database.

type vpClient struct {
	client.Client
	conf client.HTTPConfig
}

func vpNewHTTPClient(conf client.HTTPConfig) (client.Client, error) {
	if conf.Addr != vpDB {
		return nil, errors.New("no such database")
	}
	return &vpClient{conf: conf}, nil
}

func (c *vpClient) Close() error { return nil }

func (c *vpClient) Write(bp client.BatchPoints) error {
	w := vpWritten{db: bp.Database(), user: c.conf.Username, pass: c.conf.Password}
	for _, p := range bp.Points() {
		w.points = append(w.points, *vpPoints[p])
	}
	vpWrites = append(vpWrites, w)
	return nil
}

var vpPoints = map[*client.Point]*vpPoint{}

func vpNewPoint(name string, tags map[string]string, fields map[string]interface{}, t ...time.Time) (*client.Point, error) {
	if name == "" || len(fields) == 0 {
		return nil, errors.New("no name or no fields")
	}
	p := &vpPoint{name: name, tags: map[string]string{}, ints: map[string]int64{}, floats: map[string]float64{}}
	for k, v := range tags {
		p.tags[k] = v
	}
	for k, v := range fields {
		switch v := v.(type) {
		case int:
			p.ints[k] = int64(v)
		case int64:
			p.ints[k] = v
		case float64:
			p.floats[k] = v
		default:
			return nil, errors.New("a field of another type")
		}
	}
	pt := new(client.Point)
	vpPoints[pt] = p
	return pt, nil
}
