//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zzverif/rt"
	"github.com/alexander-yu/stream/zzverif/vrand"
	"github.com/alexander-yu/stream/zzverif/vsync"
)

// uniform enumerates every outcome of every random draw of a stream of n items
// and adds up the exact probability of every resulting sample. looks lists the
// positions after which a sample is taken (and spoilt) on the way.
func uniform(c *rt.C, size, n int, looks map[int]bool, off int) {
	if unsupported != "" {
		c.Cap("not explored: " + unsupported)
		return
	}
	vrand.Enum = true
	defer func() { vrand.Enum = false }()
	vrand.Inexact = false
	prob := map[string]*big.Rat{}
	x := vsync.NewSched(0)
	runs := 0
	var trace func() []string
	trace = func() []string {
		return []string{fmt.Sprintf("Reservoir{Size: %d}, pushes of the items %d..%d, draws with %v outcomes", size, off, off+n-1, x.Choices())}
	}
	for {
		if runs&255 == 0 {
			rt.Tick()
			if c.Expired() {
				c.Cap("time")
				return
			}
		}
		runs++
		var got []interface{}
		bad := ""
		resetAll()
		x.Run([]func(){func() {
			r := &sample.Reservoir{Size: size}
			for i := 0; i < n; i++ {
				r.Push(off + i)
				if looks[i] {
					s := r.Sample()
					want := min(i+1, size)
					if len(s) != want {
						bad = fmt.Sprintf("after %d pushes the sample holds %d items, want %d", i+1, len(s), want)
					}
					for j := range s {
						s[j] = "spoilt"
					}
				}
			}
			got = r.Sample()
		}})
		c.R.Traces++
		c.R.Transitions += int64(n)
		if x.Panicked != nil {
			c.Violate(fmt.Sprintf("size %d/panic", size), fmt.Sprintf("Reservoir(%d) panics: %v", size, x.Panicked), trace())
		}
		if x.Deadlock || x.Overrun {
			c.Count("runs that did not end", 1)
			return
		}
		if bad != "" {
			c.Violate(fmt.Sprintf("size %d/size", size), bad, trace())
		}
		if len(got) != min(n, size) {
			c.Violate(fmt.Sprintf("size %d/size", size), fmt.Sprintf("after %d pushes a reservoir of size %d holds %d items", n, size, len(got)), trace())
		}
		var idx []int
		for _, v := range got {
			i, ok := v.(int)
			if !ok || i < off || i >= off+n {
				c.Violate(fmt.Sprintf("size %d/foreign", size), fmt.Sprintf("the sample %v holds %v, which was not pushed", got, v), trace())
			}
			idx = append(idx, i)
		}
		sort.Ints(idx)
		for i := 1; i < len(idx); i++ {
			if idx[i] == idx[i-1] {
				c.Violate(fmt.Sprintf("size %d/twice", size), fmt.Sprintf("the sample %v holds position %d twice", got, idx[i]-off), trace())
			}
		}
		w := new(big.Rat).SetInt64(1)
		for _, k := range x.Choices() {
			w.Mul(w, big.NewRat(1, int64(k)))
		}
		k := fmt.Sprint(idx)
		if prob[k] == nil {
			prob[k] = new(big.Rat)
		}
		prob[k].Add(prob[k], w)
		if !x.Next() {
			break
		}
	}
	c.R.States += int64(len(prob))
	if int64(n) > c.R.MaxDepth {
		c.R.MaxDepth = int64(n)
	}
	// every subset, equally likely
	m := min(n, size)
	total := new(big.Int).Binomial(int64(n), int64(m))
	want := new(big.Rat).SetFrac(big.NewInt(1), total)
	tol := new(big.Rat)
	if vrand.Inexact {
		// draws from a continuous range were replaced by a grid
		tol.Mul(want, big.NewRat(1, 4))
		c.Count("streams judged on a grid", 1)
	}
	c.R.Evals += total.Int64()
	if int64(len(prob)) < total.Int64() && !vrand.Inexact {
		c.Violate(fmt.Sprintf("size %d/subsets", size), fmt.Sprintf("size %d, %d pushes: only %d of %v subsets can occur", size, n, len(prob), total), trace())
	}
	var ks []string
	for k := range prob {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		d := new(big.Rat).Sub(prob[k], want)
		if d.Abs(d).Cmp(tol) > 0 {
			c.Violate(fmt.Sprintf("size %d/bias", size), fmt.Sprintf("size %d, %d pushes: the sample %s has probability %v, want %v", size, n, k, prob[k], want), trace())
		}
		c.Outcome(fmt.Sprint(size, n, k))
	}
	c.Sample(fmt.Sprintf("size %d, %d items: %d random outcomes, %d samples, each with probability %v", size, n, runs, len(prob), want))
}

// layers: the reservoir as a Markov chain. After every push, every reachable
// internal state of the real reservoir (its canonical fingerprint) and its exact
// probability, from which the probability of every sample follows; a state is
// rebuilt by replaying one sequence of draws that leads to it.
func layers(c *rt.C, size, n int) {
	if unsupported != "" {
		c.Cap("not explored: " + unsupported)
		return
	}
	type node struct {
		draws []int
		p     *big.Rat
	}
	vrand.Enum = true
	defer func() { vrand.Enum, vrand.Chooser = false, nil }()
	vrand.Inexact = false
	cur := map[string]*node{"": {p: big.NewRat(1, 1)}}
	order := []string{""}
	for k := 1; k <= n; k++ {
		next := map[string]*node{}
		var norder []string
		seen := map[string]*big.Rat{}
		var draws, arity []int
		trace := func() []string {
			return []string{fmt.Sprintf("Reservoir{Size: %d}, pushes of the items 0..%d, outcomes of the draws %v of %v", size, k-1, draws, arity)}
		}
		for si, key := range order {
			st := cur[key]
			if si&63 == 0 {
				rt.Tick()
				if c.Expired() {
					c.Cap(fmt.Sprintf("%d pushes done", k-1))
					return
				}
			}
			tail := []int{} // outcomes of the draws of the last push
			for {
				draws, arity = draws[:0], arity[:0]
				vrand.Chooser = func(m int) int {
					i := len(draws)
					v := 0
					if i < len(st.draws) {
						v = st.draws[i]
					} else if j := i - len(st.draws); j < len(tail) {
						v = tail[j]
					}
					draws, arity = append(draws, v), append(arity, m)
					return v
				}
				r := &sample.Reservoir{Size: size}
				for i := 0; i < k; i++ {
					r.Push(i)
				}
				fp := fingerprint(r)
				got := r.Sample()
				c.R.Transitions++
				if vrand.Inexact || len(draws) < len(st.draws) {
					c.Count("streams left to the complete enumeration", 1)
					return
				}
				if len(got) != min(k, size) {
					c.Violate(fmt.Sprintf("size %d/size", size), fmt.Sprintf("after %d pushes a reservoir of size %d holds %d items", k, size, len(got)), trace())
				}
				idx := make([]int, 0, len(got))
				for _, v := range got {
					i, ok := v.(int)
					if !ok || i < 0 || i >= k {
						c.Violate(fmt.Sprintf("size %d/foreign", size), fmt.Sprintf("the sample %v holds %v, which was not pushed", got, v), trace())
					}
					idx = append(idx, i)
				}
				sort.Ints(idx)
				for i := 1; i < len(idx); i++ {
					if idx[i] == idx[i-1] {
						c.Violate(fmt.Sprintf("size %d/twice", size), fmt.Sprintf("the sample %v holds position %d twice", got, idx[i]), trace())
					}
				}
				w := new(big.Rat).Set(st.p)
				for _, m := range arity[len(st.draws):] {
					w.Mul(w, big.NewRat(1, int64(m)))
				}
				if nd := next[fp]; nd != nil {
					nd.p.Add(nd.p, w)
				} else {
					next[fp] = &node{append([]int{}, draws...), new(big.Rat).Set(w)}
					norder = append(norder, fp)
				}
				ik := fmt.Sprint(idx)
				if seen[ik] == nil {
					seen[ik] = new(big.Rat)
				}
				seen[ik].Add(seen[ik], w)
				// the next outcome of the last push's draws
				tail = append(tail[:0], draws[len(st.draws):]...)
				for len(tail) > 0 && tail[len(tail)-1]+1 >= arity[len(st.draws)+len(tail)-1] {
					tail = tail[:len(tail)-1]
				}
				if len(tail) == 0 {
					break
				}
				tail[len(tail)-1]++
			}
		}
		c.R.States += int64(len(next))
		m := min(k, size)
		total := new(big.Int).Binomial(int64(k), int64(m))
		want := new(big.Rat).SetFrac(big.NewInt(1), total)
		draws, arity = nil, nil
		if int64(len(seen)) < total.Int64() {
			c.Violate(fmt.Sprintf("size %d/subsets", size), fmt.Sprintf("size %d, %d pushes: only %d of %v subsets can occur", size, k, len(seen), total), trace())
		}
		var ks []string
		for s := range seen {
			ks = append(ks, s)
		}
		sort.Strings(ks)
		for _, s := range ks {
			c.R.Evals++
			if seen[s].Cmp(want) != 0 {
				c.Violate(fmt.Sprintf("size %d/bias", size), fmt.Sprintf("size %d, %d pushes: the sample %s has probability %v, want %v", size, k, s, seen[s], want), trace())
			}
		}
		cur, order = next, norder
		if int64(k) > c.R.MaxDepth {
			c.R.MaxDepth = int64(k)
		}
	}
	c.R.Traces++
	c.Outcome(fmt.Sprint(size, n, len(cur)))
	c.Sample(fmt.Sprintf("size %d, %d items: %d internal states after the last push, all probabilities exact", size, n, len(cur)))
}

func p20() *rt.Check {
	return &rt.Check{Property: "P20",
		Rule:        "every outcome of every random draw of every stream is enumerated and the exact (rational) probability of each resulting sample is added up: all subsets of the right size, each with probability 1 over their number, no position twice; samples taken on the way at every subset of positions change nothing. For longer streams: every reachable internal state after every push (fingerprint of the whole object) with its exact probability. Concurrent pushes: see P13",
		Bounds:      concBounds("sizes 0-6, streams up to 8 items (up to 45000 outcomes each), samples at every subset of positions for streams of up to 5 items; state by state up to 90 items for size 1, 34 for 2, 18 for 3, 12 for 4, 9 for 5-7; up to the items' identity 1100 items for size 1, 700 for 2 and 3, 200-400 for 5-200; single pushes up to number 65538", "streams up to 10 items (up to 4 million outcomes); state by state up to 260, 64, 28, 17, 13, 12, 11 items, and up to the identity four times as many"),
		Assumptions: []string{"package math/rand's bounded draws are uniform and independent; draws from continuous ranges, if any, are replaced by a grid and judged with a tolerance"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			lens := []int{300, 90, 34, 18, 12, 9, 9, 9}
			if tier == "thorough" {
				lens = []int{700, 260, 64, 28, 17, 13, 12, 11}
			}
			for size, n := range lens {
				size, n := size, n
				js = append(js, rt.Job{Name: fmt.Sprintf("size %d, chain of %d items", size, n), Run: func(c *rt.C) { layers(c, size, n) }})
			}
			for _, x := range [][2]int{{1, 1100}, {2, 700}, {3, 700}, {5, 400}, {10, 300}, {40, 200}, {100, 230}, {200, 230}} {
				size, n := x[0], x[1]*pick(tier, 1, 4)
				js = append(js, rt.Job{Name: fmt.Sprintf("size %d, chain of %d unlabelled items", size, n), Run: func(c *rt.C) { relabelled(c, size, n) }})
			}
			for _, size := range []int{1, 2, 3, 7, 64} {
				size := size
				js = append(js, rt.Job{Name: fmt.Sprintf("size %d, far pushes", size), Run: func(c *rt.C) {
					far(c, size, []int{129, 255, 256, 257, 512, 1000, 1001, 1024, 1025, 2048, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 65538})
				}})
			}
			for size := 0; size <= 6; size++ {
				for n := 0; n <= pick(tier, 8, 10); n++ {
					// outcomes: product of size+1..n
					o := 1
					for i := max(size, 0) + 1; i <= n; i++ {
						o *= i
					}
					if size == 0 {
						o = 1
						for i := 1; i <= n; i++ {
							o *= i
						}
					}
					if o > pick(tier, 45000, 4000000) {
						continue
					}
					size, n := size, n
					js = append(js, rt.Job{Name: fmt.Sprintf("size %d, %d items", size, n), Run: func(c *rt.C) {
						uniform(c, size, n, nil, 0)
						uniform(c, size, n, map[int]bool{n - 2: true, n - 1: true}, 50)
						if n <= 5 {
							for mask := 0; mask < 1<<n; mask++ {
								l := map[int]bool{}
								for i := 0; i < n; i++ {
									l[i] = mask>>i&1 == 1
								}
								uniform(c, size, n, l, 7)
							}
						}
					}})
				}
			}
			return js
		}}
}
