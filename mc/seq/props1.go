//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/alexander-yu/stream/zzverif/rt"
)

func main() { rt.Main(checks()) }

func pick(tier string, q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

// seqJobs splits allSequences over the first step so that the work parallelises.
func seqJobs(k *Kind, alpha []Step, depth int, split bool) []rt.Job {
	if !split {
		return []rt.Job{{Name: fmt.Sprintf("%s/all-%d^%d", k.Name, len(alpha), depth), Run: func(c *rt.C) { allSequences(c, k, alpha, depth, -1) }}}
	}
	var js []rt.Job
	for f := range alpha {
		f := f
		js = append(js, rt.Job{Name: fmt.Sprintf("%s/all-%d^%d/%s", k.Name, len(alpha), depth, alpha[f]), Run: func(c *rt.C) { allSequences(c, k, alpha, depth, f) }})
	}
	return js
}

func winJob(k *Kind, alpha []Step, n, every int) rt.Job {
	return rt.Job{Name: fmt.Sprintf("%s/windows-%d^%d", k.Name, len(alpha), n), Run: func(c *rt.C) { everyWindow(c, k, alpha, n, every) }}
}

func lassoJob(k *Kind, alpha []Step, pl, ll, n, every int) rt.Job {
	return rt.Job{Name: fmt.Sprintf("%s/lassos-%d.%d", k.Name, pl, ll), Run: func(c *rt.C) { lassos(c, k, alpha, pl, ll, n, every) }}
}

func longJobs(k *Kind, n, every int) rt.Job {
	return rt.Job{Name: fmt.Sprintf("%s/long-%d", k.Name, n), Run: func(c *rt.C) {
		for _, p := range patterns() {
			longStream(c, k, p, n, every, 0)
		}
		// with a clear in the middle of a wrap-around
		ca := k.Window + k.Window/2 + 3
		for _, p := range patterns()[:6] {
			longStream(c, k, p, n/2, every, ca)
		}
	}}
}

func vsteps(arity int, vals ...float64) []Step { return pushes(arity, vals) }

func p01() *rt.Check {
	return &rt.Check{Property: "P01",
		Rule: "every sequence of pushes (over the alphabet) and clears up to the depth on a fresh object; streams containing every window content; every ultimately periodic stream up to the prefix/loop bound; long patterned streams; each observation compared with the extremes of the reference window. States = checked histories, transitions = operations executed.",
		Bounds: func(t string) string {
			return "windows 0-5 all 4-letter words (3 values + clear) of length 8 (thorough 10), windows 5-8 two values length 13 (16); every window content for w<=6 over 3 values; windows 7-1024 long streams; streams of over 2^16 values for windows 0, 1, 3, 100, 5000, 66000"
		},
		Assumptions: []string{"values are not NaN"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			special := vsteps(1, 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324)
			for _, mx := range []bool{false, true} {
				for w := 0; w <= 5; w++ {
					k := kMinMax(mx, w, false)
					js = append(js, seqJobs(k, withClear(vsteps(1, 0, 1, -1)), pick(tier, 8, 10), tier == "thorough")...)
					js = append(js, seqJobs(k, withClear(special), pick(tier, 5, 6), false)...)
					js = append(js, seqJobs(k, vsteps(1, 1, 2, 3, 4, 5), pick(tier, 6, 8), false)...)
				}
				js = append(js, seqJobs(kMinMax(mx, 0, true), withClear(vsteps(1, 0, 1, -1)), pick(tier, 8, 9), false)...)
				js = append(js, seqJobs(kMinMax(mx, 0, true), withClear(special), 5, false)...)
				for w := 5; w <= 8; w++ {
					js = append(js, seqJobs(kMinMax(mx, w, false), vsteps(1, 0, 1), pick(tier, 13, 16), false)...)
					js = append(js, seqJobs(kMinMax(mx, w, false), withClear(vsteps(1, 0, 1)), pick(tier, 9, 11), false)...)
				}
				for w := 1; w <= 6; w++ {
					js = append(js, winJob(kMinMax(mx, w, false), vsteps(1, 0, 1, -1), w+pick(tier, 3, 5), 1))
					js = append(js, winJob(kMinMax(mx, w, false), vsteps(1, 5, 2, 7, -1, 3), w+pick(tier, 1, 2), 1))
				}
				for _, w := range []int{0, 3, 7, 8, 15, 16, 17} {
					js = append(js, lassoJob(kMinMax(mx, w, false), vsteps(1, 0, 1, -1), 2, pick(tier, 4, 5), 6*w+40, 1))
				}
				for _, w := range []int{0, 1, 2, 7, 31, 32, 33, 64, 100, 257, 1024} {
					js = append(js, longJobs(kMinMax(mx, w, false), 5*w+600, 1))
				}
				for _, w := range []int{0, 1, 3, 100, 5000, 66000} {
					js = append(js, veryLongJob(kMinMax(mx, w, false), []int{0, 3, 1000}, "asc", "desc", "zigzag", "lcg", "organ", "const"))
				}
			}
			return js
		}}
}

func p02() *rt.Check {
	return &rt.Check{Property: "P02",
		Rule: "for every backing structure (AVL, red-black, skip list under several maximal levels, probabilities and cyclic level schedules) and interpolation: every push/clear sequence up to the depth, every window content, every ultimately periodic stream up to the bound, long patterned streams; after every step every quantile of a 16-element grid is compared with the documented rule on the sorted reference window",
		Bounds: func(t string) string {
			return "windows 0-5, 3 values + clear, length 6-7 (thorough 8-9); every window content for w<=5; windows 7-129 long streams; streams of over 2^16 values for windows 0, 3, 1000, 66000"
		},
		Assumptions: []string{"values are finite and |x| <= 1e150"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			ims := impls()
			short := phis[:6]
			for ii, im := range ims {
				for interp := 0; interp < 5; interp++ {
					for w := 0; w <= 5; w++ {
						k := kQuantile(w, im, interp, short)
						d := pick(tier, 5, 7)
						if (ii+interp+w)%3 == 0 {
							d++
						}
						js = append(js, seqJobs(k, withClear(vsteps(1, 0, 1, -2)), d, false)...)
					}
					for w := 1; w <= 5; w++ {
						kk := kQuantile(w, im, interp, phis)
						js = append(js, winJob(kk, vsteps(1, 4, 1.5, -3), w+pick(tier, 2, 4), 1))
					}
					for _, w := range []int{0, 6, 7, 33, 65, 129} {
						kk := kQuantile(w, im, interp, phis)
						js = append(js, rt.Job{Name: kk.Name + "/long", Run: func(c *rt.C) {
							n := 4*w + 300
							ev := 1 + w/16
							for pi, p := range patterns() {
								longStream(c, kk, p, n, ev, 0)
								if pi%3 == 0 {
									longStream(c, kk, p, n, ev, w+w/2+3)
								}
							}
						}})
					}
				}
				js = append(js, seqJobs(kQuantile(0, im, iLinear, phis), vsteps(1, 1e150, -1e150, 1e-300, 0, math.Copysign(0, -1), 7), pick(tier, 5, 6), false)...)
				js = append(js, seqJobs(kQuantile(3, im, iMidpoint, phis), vsteps(1, 1e150, -1e150, 1e-300, 0, math.Copysign(0, -1), 7), pick(tier, 5, 6), false)...)
				for w := 0; w <= 6; w++ {
					js = append(js, seqJobs(kMedian(w, im), withClear(vsteps(1, 0, 1, -2)), pick(tier, 7, 8), false)...)
					js = append(js, seqJobs(kIQR(w, im), withClear(vsteps(1, 0, 1, -2)), pick(tier, 7, 8), false)...)
				}
				for _, w := range []int{4, 8} {
					js = append(js, lassoJob(kQuantile(w, im, iLinear, short), vsteps(1, 0, 1, 2), 2, 4, 3*w+20, 1))
				}
				if im.name == "avl" || im.name == "rb" || im.name == "skip-p50" {
					for i, w := range []int{0, 3, 1000, 66000} {
						if w == 66000 && im.name == "skip-p50" {
							continue // few levels: slow
						}
						js = append(js, veryLongJob(kQuantile(w, im, i, short), []int{0}, "lcg", "asc"), veryLongJob(kMedian(w, im), []int{3, 20000}, "zigzag"), veryLongJob(kIQR(w, im), []int{0}, "zigzag"))
					}
				}
				for _, w := range []int{0, 9, 50, 130} {
					js = append(js, longJobs(kMedian(w, im), 4*w+200, 1+w/20), longJobs(kIQR(w, im), 4*w+200, 1+w/20))
				}
			}
			return js
		}}
}

func p03() *rt.Check {
	return &rt.Check{Property: "P03",
		Rule: "every push/clear sequence up to the depth, every window content in a long stream, every ultimately periodic stream up to the bound and long patterned streams on the heap median; each answer compared with the median of the sorted reference window",
		Bounds: func(t string) string {
			return "windows 0-6, 3-4 values + clear, length 8-9 (thorough 10-11); every window content for w<=7; windows up to 1000 long streams; streams of over 2^16 values for windows 0, 1, 3, 10, 700"
		},
		Assumptions: []string{"values are finite and |x| <= 1e150"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			for w := 0; w <= 6; w++ {
				k := kHeapMedian(w, false)
				js = append(js, seqJobs(k, withClear(vsteps(1, 1, 2, 3)), pick(tier, 8, 10), tier == "thorough")...)
				js = append(js, seqJobs(k, vsteps(1, 1, 2, 3), pick(tier, 10, 12), tier == "thorough")...)
				js = append(js, seqJobs(k, vsteps(1, 1, 2, 3, 4, 5), pick(tier, 7, 9), false)...)
				js = append(js, seqJobs(k, withClear(vsteps(1, 0, math.Copysign(0, -1), -1e150, 1e150, 5e-324)), pick(tier, 6, 7), false)...)
			}
			js = append(js, seqJobs(kHeapMedian(0, true), withClear(vsteps(1, 1, 2, 3)), pick(tier, 8, 9), false)...)
			for w := 7; w <= 9; w++ {
				js = append(js, seqJobs(kHeapMedian(w, false), vsteps(1, 1, 2), pick(tier, 14, 18), false)...)
			}
			for w := 1; w <= 7; w++ {
				js = append(js, winJob(kHeapMedian(w, false), vsteps(1, 1, 2, 3), w+pick(tier, 3, 5), 1))
				js = append(js, winJob(kHeapMedian(w, false), vsteps(1, 4, 1, 3, 2, 5), pick(tier, 7, 8), 1))
			}
			for _, w := range []int{0, 2, 3, 5, 8, 13} {
				js = append(js, lassoJob(kHeapMedian(w, false), vsteps(1, 1, 2, 3), 3, pick(tier, 4, 5), 8*w+40, 1))
			}
			for _, w := range []int{0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 100, 257, 1000} {
				js = append(js, longJobs(kHeapMedian(w, false), 5*w+400, 1+w/32))
			}
			for _, w := range []int{0, 1, 3, 10, 700} {
				js = append(js, veryLongJob(kHeapMedian(w, false), []int{0, 3, 20000}, "asc", "desc", "lcg", "organ"))
			}
			return js
		}}
}
