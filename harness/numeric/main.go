// Driver for interpolators, windows and arctangents of package dsp.
package main

import (
	"math"
	"strings"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/zzv/vk"
)

type scenario struct {
	Op   string  `json:"op"`
	Kind string  `json:"kind"`
	In   []int   `json:"in"`
	Xs   [][]int `json:"xs"`
	Far  [][]int `json:"far"`
	Name string  `json:"name"`
	N    int     `json:"n"`
	Args [][]int `json:"args"`
}
type result struct {
	scenario
	Out     []int   `json:"out"`
	Out32   []int   `json:"out32"`
	Outs    [][]int `json:"outs"`
	Conj    int     `json:"conj"`
	Bad     int     `json:"bad"`
	Panic   int     `json:"panic"`
	Same    int     `json:"same"`
}

func (r *result) fix(v float64, exp int) int {
	s := math.Ldexp(v, exp)
	if !(math.Abs(s) < 1<<30) {
		r.Bad = 1
		return 0
	}
	return int(math.Floor(s + 0.5))
}

var f64 = map[string]func([]float64, float64) float64{
	"lin": dsp.Linear, "her": dsp.Hermite4p3o, "four": dsp.Optimal2x4p4o, "six": dsp.Optimal2x6p5o}
var f32 = map[string]func([]float32, float32) float32{
	"lin32": dsp.LinearF32, "her32": dsp.Hermite4p3oF32, "four32": dsp.Optimal2x4p4oF32, "six32": dsp.Optimal2x6p5oF32}
var w64 = map[string]func([]float64){"Triangle": dsp.TriangleWindow, "Hamming": dsp.HammingWindow, "Hanning": dsp.HanningWindow,
	"Blackman": dsp.BlackmanWindow, "Nuttall": dsp.NuttallWindow}
var w32 = map[string]func([]float32){"Triangle": dsp.TriangleWindowF32, "Hamming": dsp.HammingWindowF32, "Hanning": dsp.HanningWindowF32,
	"Blackman": dsp.BlackmanWindowF32, "Nuttall": dsp.NuttallWindowF32}
var c64 = map[string][]float64{"Hamming": dsp.HammingFreqCoeff, "Hanning": dsp.HanningFreqCoeff, "Blackman": dsp.BlackmanFreqCoeff}
var c32 = map[string][]float32{"Hamming": dsp.HammingFreqCoeff32, "Hanning": dsp.HanningFreqCoeff32, "Blackman": dsp.BlackmanFreqCoeff32}

func interp(sc *scenario, r *result) {
	s64 := make([]float64, len(sc.In), len(sc.In)+4)
	s32 := make([]float32, len(sc.In), len(sc.In)+4)
	for i, v := range sc.In {
		s64[i], s32[i] = float64(v), float32(v)
	}
	// what lies behind the slice does not count
	for i := range s64[len(s64):cap(s64)] {
		s64[:cap(s64)][len(s64)+i], s32[:cap(s32)][len(s32)+i] = 5555, 5555
	}
	at := func(x float64) {
		var y float64
		if f := f64[sc.Kind]; f != nil {
			y = f(s64, x)
		} else {
			y = float64(f32[sc.Kind](s32, float32(x)))
		}
		r.Out = append(r.Out, r.fix(y, 20))
	}
	for _, p := range sc.Xs {
		x := float64(p[0]) + float64(p[1])/16
		at(x)
		// the variant of the other precision
		if k := sc.Kind; strings.HasSuffix(k, "32") {
			r.Out32 = append(r.Out32, r.fix(f64[strings.TrimSuffix(k, "32")](s64, x), 20))
		} else {
			r.Out32 = append(r.Out32, r.fix(float64(f32[k+"32"](s32, float32(x))), 20))
		}
	}
	for _, p := range sc.Far {
		at(math.Ldexp(float64(p[0]), p[1]))
	}
	for i, v := range sc.In {
		if s64[i] != float64(v) || s32[i] != float32(v) {
			r.Same = 0
		}
	}
}

func f(m, e int) float32 { return float32(math.Ldexp(float64(m), e)) }

func do(sc *scenario, r *result) {
	switch sc.Op {
	case "interp", "far":
		interp(sc, r)
	case "window":
		a, b := make([]float64, sc.N), make([]float32, sc.N)
		for i := range a {
			a[i], b[i] = 77, 77
		}
		w64[sc.Name](a)
		w32[sc.Name](b)
		for i := range a {
			r.Out = append(r.Out, r.fix(a[i], 28))
			r.Out32 = append(r.Out32, r.fix(float64(b[i]), 28))
		}
	case "coeff":
		for _, v := range c64[sc.Name] {
			r.Out = append(r.Out, r.fix(v, 28))
		}
		for _, v := range c32[sc.Name] {
			r.Out32 = append(r.Out32, r.fix(float64(v), 28))
		}
	case "atan":
		for _, a := range sc.Args {
			y, x := f(a[0], a[1]), f(a[2], a[3])
			c := dsp.Conj32(complex(x, y))
			if real(c) != x || imag(c) != -y {
				r.Conj = 0
			}
			var o []int
			for _, v := range []float32{dsp.FastAtan2(y, x), dsp.FastAtan2_2(y, x), dsp.Phase32(complex(x, y)), dsp.FastPhase32(complex(x, y)),
				dsp.FastAtan2(-y, x), dsp.FastAtan2_2(-y, x)} {
				o = append(o, r.fix(float64(v), 24))
			}
			r.Outs = append(r.Outs, o)
		}
	case "iatan":
		for _, a := range sc.Args {
			r.Outs = append(r.Outs, []int{dsp.FastAtan2Fixed(a[0], a[1]), dsp.Atan2LUT(a[0], a[1]), dsp.FastAtan2Fixed(-a[0], a[1]), dsp.Atan2LUT(-a[0], a[1])})
		}
	default:
		vk.Fatal("unknown op %q", sc.Op)
	}
}

func main() {
	vk.Each(func(line []byte) {
		var sc scenario
		vk.Parse(line, &sc)
		if sc.Op == "sep" {
			vk.Emit(map[string]string{"op": "sep"})
			return
		}
		if sc.In == nil {
			sc.In = []int{}
		}
		for _, p := range []*[][]int{&sc.Xs, &sc.Far, &sc.Args} {
			if *p == nil {
				*p = [][]int{}
			}
		}
		r := &result{scenario: sc, Out: []int{}, Out32: []int{}, Outs: [][]int{}, Conj: 1, Same: 1}
		if msg := vk.Catch(func() { do(&sc, r) }); msg != "" {
			r.Panic = 1
		}
		vk.Emit(r)
	})
}
