//go:build go1.22

package main

import (
	"math"
	"sort"
)

// Exp is what the reference model expects of one observation.
type Exp struct {
	Mode byte // 0 skip (not defined), 1 error, 2 value
	V    float64
	Tol  float64
	Alt  []float64 // further accepted values (rounding of the raw quantile index)
}

func skip() Exp              { return Exp{} }
func wantErr() Exp           { return Exp{Mode: 1} }
func val(v, tol float64) Exp { return Exp{Mode: 2, V: v, Tol: tol} }
func exact(v float64) Exp    { return Exp{Mode: 2, V: v} }

// Obs is what the implementation answered.
type Obs struct {
	V   float64
	Err bool
}

const u = 2.220446049250313e-16

// neumaier sum
func ksum(n int, f func(i int) float64) float64 {
	s, c := 0.0, 0.0
	for i := 0; i < n; i++ {
		x := f(i)
		t := s + x
		if math.Abs(s) >= math.Abs(x) {
			c += (s - t) + x
		} else {
			c += (x - t) + s
		}
		s = t
	}
	return s + c
}

func ipow(x float64, k int) float64 {
	r := 1.0
	for ; k > 0; k-- {
		r *= x
	}
	return r
}

// scale describes the data an incremental algorithm has seen since the last clear.
type scale struct {
	N int     // operations since the last clear
	M float64 // largest magnitude
	R float64 // range (max-min)
}

func scaleOf(xs []float64) scale {
	if len(xs) == 0 {
		return scale{}
	}
	lo, hi := xs[0], xs[0]
	for _, x := range xs {
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	return scale{len(xs), math.Max(math.Abs(lo), math.Abs(hi)), hi - lo}
}

// meanTol bounds the rounding error of an incrementally maintained mean.
func (s scale) meanTol() float64 { return 4 * u * float64(s.N+4) * (s.M + s.R) }

// delta is the size of a deviation as the incremental algorithm sees it.
func (s scale) delta() float64 { return s.R + s.meanTol() }

// sumTol bounds the rounding error of an incrementally maintained k-th central
// power sum over n values after N operations: in every operation each deviation
// carries an absolute error of about meanTol, and the update has relative
// rounding errors amplified by the binomial cross terms.
func (s scale) sumTol(k, n int) float64 {
	d := s.delta()
	perOp := float64(k)*s.meanTol()*ipow(d, k-1) + 8*u*math.Exp2(float64(k))*ipow(d, k)
	return 4 * float64(s.N+n+4) * perOp
}

func mean(xs []float64) float64 {
	if len(xs) == 0 {
		return math.NaN()
	}
	x0 := xs[0]
	return x0 + ksum(len(xs), func(i int) float64 { return xs[i] - x0 })/float64(len(xs))
}

// central returns the sum over xs of (x-mean)^k, computed by two shifted passes.
func central(xs []float64, k int) float64 {
	if len(xs) == 0 {
		return 0
	}
	x0 := xs[0]
	n := float64(len(xs))
	m := ksum(len(xs), func(i int) float64 { return xs[i] - x0 }) / n
	return ksum(len(xs), func(i int) float64 { return ipow((xs[i]-x0)-m, k) })
}

func col(h [][]float64, j int) []float64 {
	r := make([]float64, len(h))
	for i := range h {
		r[i] = h[i][j]
	}
	return r
}

func lastw(h [][]float64, w int) [][]float64 {
	if w > 0 && len(h) > w {
		return h[len(h)-w:]
	}
	return h
}

// jcentral is the joint central power sum with exponents t.
func jcentral(h [][]float64, t []int) float64 {
	if len(h) == 0 {
		return 0
	}
	n := float64(len(h))
	d := len(t)
	x0 := h[0]
	m := make([]float64, d)
	for j := 0; j < d; j++ {
		m[j] = ksum(len(h), func(i int) float64 { return h[i][j] - x0[j] }) / n
	}
	return ksum(len(h), func(i int) float64 {
		p := 1.0
		for j := 0; j < d; j++ {
			p *= ipow((h[i][j]-x0[j])-m[j], t[j])
		}
		return p
	})
}

// ewWeights returns the weights after n values.
func ewWeights(n int, a float64) []float64 {
	w := make([]float64, n)
	f := 1.0
	for i := n - 1; i >= 1; i-- {
		w[i] = a * f
		f *= 1 - a
	}
	if n > 0 {
		w[0] = f
	}
	return w
}

func ewmean(xs []float64, a float64) float64 {
	w := ewWeights(len(xs), a)
	x0 := xs[len(xs)-1]
	return x0 + ksum(len(xs), func(i int) float64 { return w[i] * (xs[i] - x0) })
}

func ewcentral(h [][]float64, t []int, a float64) float64 {
	w := ewWeights(len(h), a)
	d := len(t)
	x0 := h[len(h)-1]
	m := make([]float64, d)
	for j := 0; j < d; j++ {
		m[j] = ksum(len(h), func(i int) float64 { return w[i] * (h[i][j] - x0[j]) })
	}
	return ksum(len(h), func(i int) float64 {
		p := w[i]
		for j := 0; j < d; j++ {
			p *= ipow((h[i][j]-x0[j])-m[j], t[j])
		}
		return p
	})
}

// jscale returns the error model for joint data.
func jscales(h [][]float64) []scale {
	if len(h) == 0 {
		return nil
	}
	s := make([]scale, len(h[0]))
	for j := range s {
		s[j] = scaleOf(col(h, j))
	}
	return s
}

func jsumTol(ss []scale, t []int, n int) float64 {
	k := 0
	prod := 1.0
	N := 0
	for j, s := range ss {
		k += t[j]
		prod *= ipow(s.delta(), t[j])
		N = s.N
	}
	per := 8 * u * math.Exp2(float64(k)) * prod
	for j, s := range ss {
		if t[j] == 0 {
			continue
		}
		q := float64(t[j]) * s.meanTol() * ipow(s.delta(), t[j]-1)
		for i, r := range ss {
			if i != j {
				q *= ipow(r.delta(), t[i])
			}
		}
		per += q
	}
	return 4 * float64(N+n+4) * per
}

// ---- order statistics ------------------------------------------------------

func sorted(xs []float64) []float64 {
	s := append([]float64{}, xs...)
	sort.Float64s(s)
	return s
}

const (
	iLinear = iota
	iLower
	iHigher
	iNearest
	iMidpoint
)

func quantRaw(s []float64, raw float64, interp int) float64 {
	n := len(s)
	t := math.Trunc(raw)
	idx := int(t)
	if idx < 0 {
		idx, t = 0, 0
	}
	if raw == t || idx+1 >= n {
		if idx >= n {
			idx = n - 1
		}
		return s[idx]
	}
	d := raw - t
	lo, hi := s[idx], s[idx+1]
	switch interp {
	case iLinear:
		return (1-d)*lo + d*hi
	case iLower:
		return lo
	case iHigher:
		return hi
	case iNearest:
		switch {
		case d == 0.5:
			if idx%2 == 0 {
				return lo
			}
			return hi
		case d < 0.5:
			return lo
		default:
			return hi
		}
	default:
		return lo/2 + hi/2
	}
}

// quant is the expected quantile of the sorted slice s. The raw index is
// phi*(n-1); where that product is not exactly representable, the values for a
// raw index one rounding error away are accepted as well.
func quant(s []float64, phi float64, interp int) Exp {
	n := len(s)
	if n == 0 {
		return wantErr()
	}
	raw := phi * float64(n-1)
	v := quantRaw(s, raw, interp)
	e := Exp{Mode: 2, V: v}
	mag := math.Max(math.Abs(s[0]), math.Abs(s[n-1]))
	if interp == iLinear || interp == iMidpoint {
		e.Tol = 32 * u * mag * float64(n)
	}
	if math.FMA(phi, float64(n-1), -raw) != 0 || !dyadic(phi) {
		for _, r := range []float64{raw - 4*u*float64(n), raw + 4*u*float64(n), math.Nextafter(raw, 0), math.Nextafter(raw, 1e300)} {
			if r >= 0 && r <= float64(n-1) {
				e.Alt = append(e.Alt, quantRaw(s, r, interp))
			}
		}
		rr := math.Round(raw)
		if math.Abs(raw-rr) < 1e-9 && rr >= 0 && rr <= float64(n-1) {
			e.Alt = append(e.Alt, s[int(rr)])
		}
	}
	return e
}

// dyadic: representable with few bits, so that phi*(n-1) is exact.
func dyadic(p float64) bool { return p*1024 == math.Trunc(p*1024) }

func medianOf(xs []float64) Exp {
	if len(xs) == 0 {
		return wantErr()
	}
	s := sorted(xs)
	n := len(s)
	if n%2 == 1 {
		return exact(s[n/2])
	}
	a, b := s[n/2-1], s[n/2]
	return val(a/2+b/2, 8*u*(math.Abs(a)+math.Abs(b))+1e-322)
}

// match compares an observation with an expectation.
func match(o Obs, e Exp) (bool, float64) {
	switch e.Mode {
	case 0:
		return true, 0
	case 1:
		return o.Err, 0
	}
	if o.Err {
		return false, 0
	}
	if o.V == e.V {
		return true, 0
	}
	d := math.Abs(o.V - e.V)
	if d <= e.Tol {
		return true, d / e.Tol
	}
	for _, a := range e.Alt {
		if o.V == a || math.Abs(o.V-a) <= e.Tol {
			return true, 0
		}
	}
	return false, 0
}
