package main

import (
	"fmt"
	"hash/fnv"

	"github.com/innerr/ticat/zsim/rt"
)

// Choice is the recorded stream of workload decisions. 0 is always the simplest
// value, so that minimising the tape simplifies the workload.
type Choice struct {
	seed   uint64
	replay bool
	tape   []int
	rec    []int
}

func (c *Choice) N(n int) int {
	i := len(c.rec)
	v := 0
	if n > 1 {
		if c.replay {
			if i < len(c.tape) {
				v = c.tape[i]
				if v >= n {
					v %= n
				}
			}
		} else {
			v = int(rt.Mix(c.seed, uint64(i)) % uint64(n))
		}
	}
	c.rec = append(c.rec, v)
	return v
}

// P is true once in n times; the simple choice is false.
func (c *Choice) P(n int) bool { return c.N(n) == n-1 }
func (c *Choice) Bool() bool   { return c.N(2) == 1 }

// Pct is true in p of 100 cases; the simple choice is false.
func (c *Choice) Pct(p int) bool { return c.N(100) >= 100-p }

func pick[T any](c *Choice, xs ...T) T { return xs[c.N(len(xs))] }

// W picks an index with the given weights.
func (c *Choice) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := c.N(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func (c *Choice) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + c.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func tapeKey(t []int) uint64 {
	return hash64(fmt.Sprint(t))
}
