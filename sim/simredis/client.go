// Package simredis makes the clients that instrumented code constructs itself
// reach the simulated server.
package simredis

import (
	"context"
	"net"

	"github.com/go-redis/redis/v8"
)

// Dial connects to the server of the run.
var Dial func(ctx context.Context, network, addr string) (net.Conn, error)

// Made is told of every client made here.
var Made func(*redis.Client)

// Tune adjusts options that the code under test leaves at their defaults.
var Tune func(*redis.Options)

// NewClient is redis.NewClient with the dialer replaced.
func NewClient(o *redis.Options) *redis.Client {
	if Dial == nil {
		return redis.NewClient(o)
	}
	c := *o
	c.Dialer = Dial
	if Tune != nil {
		Tune(&c)
	}
	cl := redis.NewClient(&c)
	if Made != nil {
		Made(cl)
	}
	return cl
}
