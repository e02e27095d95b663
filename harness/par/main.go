// Driver for common inputs: several goroutines at once give the same input
// slices (and tables of coefficients) to calls and objects of their own.
package main

import (
	"fmt"
	"hash/fnv"
	"sync"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/dsp/dtmf"
	"github.com/samuel/go-dsp/zzv/vk"
)

type scenario struct {
	Op    string   `json:"op"`
	Names []string `json:"names"` // what to do, in this order
	N     int      `json:"n"`     // goroutines
	In    []int    `json:"in"`    // common samples, an even number
	Cuts  []int    `json:"cuts"`  // block borders, even
	Bits  []int    `json:"bits"`  // common bits for the decoders
	Coef  []int    `json:"coef"`
}

// data is what all goroutines read.
type data struct {
	sc   *scenario
	f64  []float64
	f32  []float32
	c64  []complex64
	c128 []complex128
	i32  []int32
	i16  []int16
	i8   []int8
	u8   []byte
	b, a []float64
	b32  []float32
	a32  []float32
	fr   []uint64
	lo   []uint64
	hi   []uint64
	bits []int
}

func mk(sc *scenario) *data {
	d := &data{sc: sc, fr: []uint64{697, 1209, 1500}, lo: []uint64{697, 770, 852, 941}, hi: []uint64{1209, 1336, 1477, 1633}, bits: sc.Bits}
	for i, v := range sc.In {
		d.f64 = append(d.f64, float64(v)/64)
		d.f32 = append(d.f32, float32(v)/64)
		d.i32 = append(d.i32, int32(v))
		d.i16 = append(d.i16, int16(v))
		d.i8 = append(d.i8, int8(v))
		d.u8 = append(d.u8, byte(v))
		if i%2 == 1 {
			c := complex(d.f64[i-1], d.f64[i])
			d.c128 = append(d.c128, c)
			d.c64 = append(d.c64, complex64(c))
		}
	}
	for i, v := range sc.Coef {
		d.b = append(d.b, float64(v)/16)
		x := float64(v) / 64
		if i == 0 {
			x = 2
		}
		d.a = append(d.a, x)
		d.b32 = append(d.b32, float32(v)/16)
		d.a32 = append(d.a32, float32(x))
	}
	return d
}

func (d *data) digest() string {
	return fmt.Sprint(d.f64, d.f32, d.c64, d.c128, d.i32, d.i16, d.i8, d.u8, d.b, d.a, d.b32, d.a32, d.fr, d.lo, d.hi, d.bits)
}

// blocks calls f for every block of n values.
func (d *data) blocks(n, unit int, f func(lo, hi int)) {
	at := 0
	for _, c := range append(append([]int{}, d.sc.Cuts...), n*unit) {
		c /= unit
		if c > n {
			c = n
		}
		if c > at {
			f(at, c)
			at = c
		}
	}
}

var tasks = map[string]func(d *data) interface{}{
	"Ui8toi16":    func(d *data) interface{} { o := make([]int16, len(d.u8)); dsp.Ui8toi16(d.u8, o); return o },
	"Ui8toi16b":   func(d *data) interface{} { o := make([]byte, 2*len(d.u8)); dsp.Ui8toi16b(d.u8, o); return o },
	"Ui8tof32":    func(d *data) interface{} { o := make([]float32, len(d.u8)); dsp.Ui8tof32(d.u8, o); return o },
	"I8tof32":     func(d *data) interface{} { o := make([]float32, len(d.u8)); dsp.I8tof32(d.u8, o); return o },
	"Ui8toc64":    func(d *data) interface{} { o := make([]complex64, len(d.u8)/2); dsp.Ui8toc64(d.u8, o); return o },
	"I8toc64":     func(d *data) interface{} { o := make([]complex64, len(d.i8)/2); dsp.I8toc64(d.i8, o); return o },
	"C64toi8":     func(d *data) interface{} { o := make([]int8, 2*len(d.c64)); dsp.C64toi8(d.c64, o); return o },
	"F32toi16":    func(d *data) interface{} { o := make([]int16, len(d.f32)); dsp.F32toi16(d.f32, o, 3); return o },
	"F32toi16ble": func(d *data) interface{} { o := make([]byte, 2*len(d.f32)); dsp.F32toi16ble(d.f32, o, 3); return o },
	"I16ToBLE":    func(d *data) interface{} { o := make([]byte, 2*len(d.i16)); dsp.I16ToBLE(d.i16, o); return o },
	"I16bleToF64": func(d *data) interface{} { o := make([]float64, len(d.u8)/2); dsp.I16bleToF64(d.u8, o, 0.5); return o },
	"I16bleToF32": func(d *data) interface{} { o := make([]float32, len(d.u8)/2); dsp.I16bleToF32(d.u8, o, 0.5); return o },
	"I32bleToF32": func(d *data) interface{} { o := make([]float32, len(d.u8)/4); dsp.I32bleToF32(d.u8, o, 0.5); return o },
	"F32Tof32ble": func(d *data) interface{} { o := make([]byte, 4*len(d.f32)); dsp.F32Tof32ble(d.f32, o); return o },
	"VMulC64xF32": func(d *data) interface{} {
		o := make([]complex64, len(d.c64))
		dsp.VMulC64xF32(d.c64, o, d.f32)
		return o
	},
	"VMulC64":   func(d *data) interface{} { o := make([]complex64, len(d.c64)); dsp.VMulC64(d.c64, o, d.c64); return o },
	"VAddF32":   func(d *data) interface{} { o := make([]float32, len(d.f32)); dsp.VAddF32(d.f32, o); return o },
	"VAddC64":   func(d *data) interface{} { o := make([]complex64, len(d.c64)); dsp.VAddC64(d.c64, o); return o },
	"VScaleC64": func(d *data) interface{} { o := make([]complex64, len(d.c64)); dsp.VScaleC64(d.c64, o, 3); return o },
	"VScaleF32": func(d *data) interface{} { o := make([]float32, len(d.f32)); dsp.VScaleF32(d.f32, o, 3); return o },
	"VAbsC64":   func(d *data) interface{} { o := make([]float32, len(d.c64)); dsp.VAbsC64(d.c64, o); return o },
	"VMaxF32":   func(d *data) interface{} { return dsp.VMaxF32(d.f32) },
	"VMinF32":   func(d *data) interface{} { return dsp.VMinF32(d.f32) },
	"interpolate": func(d *data) interface{} {
		r := []float64{}
		for i := 0; i < 40; i++ {
			x := float64(i) * float64(len(d.f64)) / 37
			r = append(r, dsp.Linear(d.f64, x), float64(dsp.LinearF32(d.f32, float32(x))), dsp.Hermite4p3o(d.f64, x), float64(dsp.Hermite4p3oF32(d.f32, float32(x))))
		}
		return r
	},
	"windows": func(d *data) interface{} {
		r := [][]float64{}
		r32 := [][]float32{}
		for _, w := range []func([]float64){dsp.TriangleWindow, dsp.HammingWindow, dsp.HanningWindow, dsp.BlackmanWindow, dsp.NuttallWindow} {
			o := make([]float64, 17)
			w(o)
			r = append(r, o)
		}
		for _, w := range []func([]float32){dsp.TriangleWindowF32, dsp.HammingWindowF32, dsp.HanningWindowF32, dsp.BlackmanWindowF32, dsp.NuttallWindowF32} {
			o := make([]float32, 17)
			w(o)
			r32 = append(r32, o)
		}
		return []interface{}{r, r32}
	},
	"angles": func(d *data) interface{} {
		r := []interface{}{}
		for i, c := range d.c64 {
			if i < 60 {
				y, x := int(d.i32[2*i]), int(d.i32[2*i+1])
				r = append(r, dsp.FastAtan2(imag(c), real(c)), dsp.FastAtan2_2(imag(c), real(c)), dsp.Phase32(c), dsp.FastPhase32(c), dsp.Conj32(c),
					dsp.FastAtan2Fixed(y, x), dsp.Atan2LUT(y, x))
			}
		}
		return r
	},
	"fm": func(d *data) interface{} {
		o := make([]float32, len(d.c64))
		fl, n := &dsp.FMDemodFilter{}, 0
		d.blocks(len(d.c64), 2, func(lo, hi int) { n += fl.Demodulate(d.c64[lo:hi], o[lo:hi]) })
		return []interface{}{o, n}
	},
	"polar": func(d *data) interface{} {
		r := []interface{}{}
		for i := 1; i < len(d.c128); i++ {
			r = append(r, dsp.PolarDiscriminator(d.c128[i-1], d.c128[i]), dsp.PolarDiscriminator32(d.c64[i-1], d.c64[i]))
		}
		return r
	},
	"dc": func(d *data) interface{} {
		o, o32 := make([]float64, len(d.f64)), make([]float32, len(d.f32))
		f, g := dsp.NewDCFilter(0.875), dsp.NewDCFilter32(0.875)
		d.blocks(len(d.f64), 1, func(lo, hi int) { f.Filter(d.f64[lo:hi], o[lo:hi]); g.Filter(d.f32[lo:hi], o32[lo:hi]) })
		return []interface{}{o, o32}
	},
	"iir": func(d *data) interface{} {
		o := make([]float64, len(d.f64))
		f := dsp.NewIIRFilter(d.b, d.a)
		d.blocks(len(d.f64), 1, func(lo, hi int) { f.Filter(d.f64[lo:hi], o[lo:hi]) })
		return o
	},
	"ciir": func(d *data) interface{} {
		o := make([]complex128, len(d.c128))
		f := dsp.NewComplexIIRFilter(d.b, d.a)
		d.blocks(len(d.c128), 2, func(lo, hi int) { f.Filter(d.c128[lo:hi], o[lo:hi]) })
		return o
	},
	"ciir32": func(d *data) interface{} {
		o := make([]complex64, len(d.c64))
		f := dsp.NewComplexIIRFilter32(d.b32, d.a32)
		d.blocks(len(d.c64), 2, func(lo, hi int) { f.Filter(d.c64[lo:hi], o[lo:hi]) })
		return o
	},
	"biquad": func(d *data) interface{} {
		r := []interface{}{}
		for _, f := range []*dsp.BiQuadFilter{dsp.NewLowPassBiQuadFilter(8000, 1000, 0.7), dsp.NewHighPassBiQuadFilter(8000, 1000, 0.7),
			dsp.NewBandPassConstantSkirtGainBiQuadFilter(8000, 1000, 2), dsp.NewBandPassConstantPeakGainBiQuadFilter(8000, 1000, 2),
			dsp.NotchBiQuadFilter(8000, 1000, 2), dsp.AllPassBiQuadFilter(8000, 1000, 2), dsp.LowShelfBiQuadFilter(8000, 1000, 1, 6),
			dsp.HighShelfBiQuadFilter(8000, 1000, 1, 6)} {
			o, o32 := make([]float64, len(d.f64)), make([]float32, len(d.f32))
			d.blocks(len(d.f64), 1, func(lo, hi int) { f.Filter(d.f64[lo:hi], o[lo:hi]) })
			d.blocks(len(d.f64), 1, func(lo, hi int) { f.FilterF32(d.f32[lo:hi], o32[lo:hi]) })
			r = append(r, *f, o, o32)
		}
		return r
	},
	"goertzel": func(d *data) interface{} {
		g, h, c := dsp.NewGoertzel(d.fr, 8000, 205), dsp.NewGoertzel32(d.fr, 8000, 205), dsp.NewComplexGoertzel(d.fr, 8000, 205)
		d.blocks(len(d.f64), 1, func(lo, hi int) { g.Feed(d.f64[lo:hi]); h.Feed(d.f32[lo:hi]) })
		d.blocks(len(d.c128), 2, func(lo, hi int) { c.Feed(d.c128[lo:hi]) })
		return []interface{}{g.Complex(), g.Magnitude(), h.Complex(), h.Magnitude(), c.Complex(), c.Magnitude()}
	},
	"sdft": func(d *data) interface{} {
		r := []interface{}{}
		s, t := dsp.NewSDFT(3, 16, dsp.HammingFreqCoeff), dsp.NewSDFT32(3, 16, dsp.HammingFreqCoeff32)
		u, v := dsp.NewSDFT(1, 8, d.b), dsp.NewSDFT32(1, 8, d.b32)
		for i, c := range d.c128 {
			r = append(r, s.Filter(c), t.Filter(d.c64[i]), u.Filter(c), v.Filter(d.c64[i]))
		}
		return r
	},
	"dtmf": func(d *data) interface{} {
		r := []interface{}{}
		x, y := dtmf.NewStandard(8000, 102), dtmf.New(d.lo, d.hi, 8000, 40, dsp.HammingWindowF32)
		for i := 0; i+102 <= len(d.f32); i += 102 {
			k, p := x.Feed(d.f32[i : i+102])
			k2, p2 := y.Feed(d.f32[i : i+40])
			r = append(r, k, p, k2, p2)
		}
		return r
	},
	"ax25": func(d *data) interface{} {
		r := []interface{}{}
		dec := ax25.NewDecoder()
		for i, b := range d.bits {
			if f := dec.Feed(b); f != nil {
				r = append(r, i, fmt.Sprintf("%+v", *f), f.Source.String(), f.Type.String(), f.PID.String(), f.UnnumberedType.String(), f.SupervisoryType.String())
			}
		}
		return r
	},
}

// hash of a result; NaNs are alike.
func hash(v interface{}) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v", v)
	return fmt.Sprintf("%016x", h.Sum64())
}

func do(d *data, name string) (s string) {
	if msg := vk.Catch(func() { s = hash(tasks[name](d)) }); msg != "" {
		return "panic"
	}
	return
}

func main() {
	vk.Each(func(line []byte) {
		sc := &scenario{}
		vk.Parse(line, sc)
		if sc.Op == "names" {
			for n := range tasks {
				vk.Emit(n)
			}
			return
		}
		d := mk(sc)
		before := d.digest()
		got := make([][]string, sc.N)
		var ready, done sync.WaitGroup
		start := make(chan bool)
		for g := range got {
			ready.Add(1)
			done.Add(1)
			go func(g int) {
				defer done.Done()
				ready.Done()
				<-start
				for _, n := range sc.Names {
					got[g] = append(got[g], do(d, n))
				}
			}(g)
		}
		ready.Wait()
		close(start)
		done.Wait()
		same := vk.B2i(d.digest() == before)
		fresh := mk(sc)
		for i, n := range sc.Names {
			alone := do(fresh, n)
			runs := []string{}
			for g := range got {
				runs = append(runs, got[g][i])
			}
			vk.Emit(map[string]interface{}{"op": "common", "fn": n, "alone": alone, "runs": runs, "kept": same})
		}
	})
}
