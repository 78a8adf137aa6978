package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"egtsverif/world"
)

type best struct {
	p    *world.Plan
	ch   []int
	hash uint64
	msg  string
}

func minimise() {
	secs := flag.Int("secs", 60, "")
	flag.Parse()
	dst := flag.Arg(1) // before simulated programs set up flags of their own
	rp, p := loadReplay(flag.Arg(0))
	end := time.Now().Add(time.Duration(*secs) * time.Second)
	left := func() bool { return time.Now().Before(end) }
	try := func(p *world.Plan, ch []int) *best {
		r := world.Run(p, ch, false)
		if r.Infra != "" {
			return nil
		}
		v := find(r.Viol, rp.Property, rp.Class)
		if v == nil || v.Known != "" {
			return nil
		}
		return &best{p: p, ch: append([]int{}, r.Choices...), hash: r.Hash, msg: v.Msg}
	}
	ch := rp.Choices
	if ch == nil {
		ch = []int{}
	}
	cur := try(p, ch)
	if cur == nil {
		fmt.Fprintln(os.Stderr, "the recorded run does not reproduce")
		os.Exit(3)
	}
	// the plan
	attempt := func(q *world.Plan) bool {
		if b := try(q.Clone(), []int{}); b != nil {
			cur = b
			return true
		}
		if b := try(q.Clone(), nil); b != nil {
			cur = b
			return true
		}
		for k := uint64(1); k <= 2; k++ {
			x := q.Clone()
			x.Seed = q.Seed + k*7919
			if b := try(x, nil); b != nil {
				cur = b
				return true
			}
		}
		return false
	}
	for again := true; again && left(); {
		again = false
		for i := 0; left(); i++ {
			q := cur.p.Reduce(i)
			if q == nil {
				break
			}
			if attempt(q) {
				again = true
				i--
			}
		}
	}
	// the choices: shortest prefix, then zeroes
	for left() && len(cur.ch) > 0 {
		n := len(cur.ch)
		ok := false
		for _, k := range []int{0, n / 4, n / 2, n * 3 / 4, n * 9 / 10, n - 1} {
			if k >= n {
				continue
			}
			b := try(cur.p, append([]int{}, cur.ch[:k]...))
			if b != nil {
				b.ch = trim(b.ch)
				if len(b.ch) < n {
					cur = b
					ok = true
					break
				}
			}
		}
		if !ok {
			break
		}
	}
	for size := len(cur.ch) / 2; size >= 1 && left(); size /= 2 {
		for o := 0; o < len(cur.ch) && left(); o += size {
			c := append([]int{}, cur.ch...)
			nz := false
			for i := o; i < o+size && i < len(c); i++ {
				if c[i] != 0 {
					nz = true
				}
				c[i] = 0
			}
			if !nz {
				continue
			}
			if b := try(cur.p, c); b != nil {
				b.ch = trim(b.ch)
				cur = b
			}
		}
	}
	cur.ch = trim(cur.ch)
	r := world.Run(cur.p, append([]int{}, cur.ch...), true)
	v := find(r.Viol, rp.Property, rp.Class)
	if v == nil {
		fmt.Fprintln(os.Stderr, "minimised run does not reproduce")
		os.Exit(3)
	}
	out := Replay{Property: rp.Property, Class: rp.Class, Violation: v.Msg, FoundSeed: rp.FoundSeed, Hash: fmt.Sprintf("%016x", r.Hash), Plan: cur.p.JSON(), Choices: cur.ch, Trace: r.Log}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(dst, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func trim(c []int) []int {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}
