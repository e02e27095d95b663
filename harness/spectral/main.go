// Driver for the spectral filters of package dsp and the DTMF detector.
package main

import (
	"math"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/dtmf"
	"github.com/samuel/go-dsp/zzv/vk"
)

type step struct {
	Op    string   `json:"op"`
	F     int      `json:"f"`
	Kind  string   `json:"kind"`
	Freqs []uint64 `json:"freqs"`
	Fs    int      `json:"fs"`
	N     int      `json:"n"`
	Prec  int      `json:"prec"`
	K     int      `json:"k"`
	Win   []int    `json:"win"`
	Wden  int      `json:"wden"`
	Low   []uint64 `json:"low"`
	High  []uint64 `json:"high"`
	In    []int    `json:"in"`
	At    []int    `json:"at,omitempty"`
	Tone  []int    `json:"tone"`
	Order int      `json:"order"`
	Level int      `json:"level"`
}
type scenario struct {
	Op    string `json:"op"`
	Steps []step `json:"steps"`
}
type result struct {
	step
	Out   []int `json:"out"`
	Mag   []int `json:"mag"`
	Key   int   `json:"key"`
	Bad   int   `json:"bad"`
	Panic int   `json:"panic"`
	Same  int   `json:"same"`
}

const lim = 1 << 30

func (r *result) fix(v float64, exp int) int {
	s := math.Ldexp(v, exp)
	if !(math.Abs(s) < lim) {
		r.Bad = 1
		return 0
	}
	return int(math.Floor(s + 0.5))
}

type filt struct {
	kind string
	prec int
	lvl  int
	obj  interface{}
}

// amp scales the samples by a power of two; the driver scales the results
// back, which loses nothing.
var (
	amp = 1.0
	lvl int
)

func run(sc *scenario) {
	fs := map[int]*filt{}
	for i := range sc.Steps {
		s := sc.Steps[i]
		for _, p := range []*[]uint64{&s.Freqs, &s.Low, &s.High} {
			if *p == nil {
				*p = []uint64{}
			}
		}
		for _, p := range []*[]int{&s.Win, &s.In, &s.Tone} {
			if *p == nil {
				*p = []int{}
			}
		}
		r := &result{step: s, Out: []int{}, Mag: []int{}, Same: 1}
		if msg := vk.Catch(func() { one(fs, &s, r) }); msg != "" {
			r.Panic = 1
		}
		if fl := fs[s.F]; fl != nil {
			r.Kind = fl.kind
		}
		vk.Emit(r)
	}
}

func f64s(v []int) []float64 {
	r := make([]float64, len(v))
	for i, x := range v {
		r[i] = amp * float64(x)
	}
	return r
}
func f32s(v []int) []float32 {
	r := make([]float32, len(v))
	for i, x := range v {
		r[i] = float32(amp * float64(x))
	}
	return r
}
func c128s(v []int) []complex128 {
	r := make([]complex128, len(v)/2)
	for i := range r {
		r[i] = complex(amp*float64(v[2*i]), amp*float64(v[2*i+1]))
	}
	return r
}

func one(fs map[int]*filt, s *step, r *result) {
	at := 0
	if fl := fs[s.F]; fl != nil {
		at = fl.lvl
	}
	if at != lvl { // never so in a parallel run
		amp, lvl = math.Ldexp(1, at), at
	}
	switch s.Op {
	case "new":
		fl := &filt{kind: s.Kind, prec: s.Prec, lvl: s.Level}
		fr := append([]uint64{}, s.Freqs...)
		switch s.Kind {
		case "goe":
			fl.obj = dsp.NewGoertzel(fr, s.Fs, s.N)
		case "goe32":
			fl.obj = dsp.NewGoertzel32(fr, s.Fs, s.N)
		case "cgoe":
			fl.obj = dsp.NewComplexGoertzel(fr, s.Fs, s.N)
		default:
			vk.Fatal("kind %q", s.Kind)
		}
		fs[s.F] = fl
	case "feed":
		switch o := fs[s.F].obj.(type) {
		case *dsp.Goertzel:
			in := f64s(s.In)
			o.Feed(in)
			for i, v := range in {
				if v != amp*float64(s.In[i]) {
					r.Same = 0
				}
			}
		case *dsp.Goertzel32:
			in := f32s(s.In)
			o.Feed(in)
			for i, v := range in {
				if v != float32(amp*float64(s.In[i])) {
					r.Same = 0
				}
			}
		case *dsp.ComplexGoertzel:
			in := c128s(s.In)
			o.Feed(in)
			for i, v := range c128s(s.In) {
				if v != in[i] {
					r.Same = 0
				}
			}
		}
	case "reset":
		switch o := fs[s.F].obj.(type) {
		case *dsp.Goertzel:
			o.Reset()
		case *dsp.Goertzel32:
			o.Reset()
		case *dsp.ComplexGoertzel:
			o.Reset()
		}
	case "query":
		fl := fs[s.F]
		var cplx []complex128
		var mag []float64
		get := func() {
			cplx = nil
			switch o := fl.obj.(type) {
			case *dsp.Goertzel:
				cplx = append(cplx, o.Complex()...)
			case *dsp.ComplexGoertzel:
				cplx = append(cplx, o.Complex()...)
			case *dsp.Goertzel32:
				for _, v := range o.Complex() {
					cplx = append(cplx, complex128(v))
				}
			}
		}
		mags := func() {
			mag = nil
			switch o := fl.obj.(type) {
			case *dsp.Goertzel:
				mag = append(mag, o.Magnitude()...)
			case *dsp.ComplexGoertzel:
				mag = append(mag, o.Magnitude()...)
			case *dsp.Goertzel32:
				for _, v := range o.Magnitude() {
					mag = append(mag, float64(v))
				}
			}
		}
		if s.Order == 1 {
			mags()
			get()
		} else {
			get()
			mags()
		}
		for _, v := range cplx {
			r.Out = append(r.Out, r.fix(real(v), fl.prec-lvl), r.fix(imag(v), fl.prec-lvl))
		}
		for _, v := range mag {
			r.Mag = append(r.Mag, r.fix(v, 2*(fl.prec-lvl)-30))
		}
	case "snew":
		fl := &filt{kind: s.Kind, prec: s.Prec, lvl: s.Level}
		if s.Kind == "sdft" {
			var w []float64
			for _, v := range s.Win {
				w = append(w, float64(v)/float64(s.Wden))
			}
			fl.obj = dsp.NewSDFT(s.K, s.N, w)
			for i := range w { // the caller's slice is its own again
				w[i] = 1e6
			}
		} else {
			var w []float32
			for _, v := range s.Win {
				w = append(w, float32(v)/float32(s.Wden))
			}
			fl.obj = dsp.NewSDFT32(s.K, s.N, w)
			for i := range w {
				w[i] = 1e6
			}
		}
		fs[s.F] = fl
	case "sblock":
		fl := fs[s.F]
		for _, x := range c128s(s.In) {
			var y complex128
			if o, ok := fl.obj.(*dsp.SDFT); ok {
				y = o.Filter(x)
			} else {
				y = complex128(fl.obj.(*dsp.SDFT32).Filter(complex64(x)))
			}
			r.Out = append(r.Out, r.fix(real(y), fl.prec-lvl), r.fix(imag(y), fl.prec-lvl))
		}
	case "sfew":
		fl := fs[s.F]
		at := s.At
		for i, x := range c128s(s.In) {
			var y complex128
			if o, ok := fl.obj.(*dsp.SDFT); ok {
				y = o.Filter(x)
			} else {
				y = complex128(fl.obj.(*dsp.SDFT32).Filter(complex64(x)))
			}
			if len(at) > 0 && at[0] == i+1 {
				r.Out = append(r.Out, r.fix(real(y), fl.prec-lvl), r.fix(imag(y), fl.prec-lvl))
				at = at[1:]
			}
		}
	case "dnew":
		fl := &filt{kind: s.Kind, lvl: s.Level}
		lo, hi := append([]uint64{}, s.Low...), append([]uint64{}, s.High...)
		var w func([]float32)
		switch s.Kind {
		case "std":
			fl.obj = dtmf.NewStandard(s.Fs, s.N)
		case "nil":
		case "hamming":
			w = dsp.HammingWindowF32
		case "rect":
			w = func(o []float32) {
				for i := range o {
					o[i] = 1
				}
			}
		case "own":
			w = func(o []float32) {
				for i := range o {
					o[i] = float32(s.Win[i]) / 16
				}
			}
		default:
			vk.Fatal("kind %q", s.Kind)
		}
		if fl.obj == nil {
			fl.obj = dtmf.New(lo, hi, s.Fs, s.N, w)
		}
		fs[s.F] = fl
	case "dfeed":
		in := f32s(s.In)
		var m float32
		r.Key, m = fs[s.F].obj.(*dtmf.DTMF).Feed(in)
		r.Mag = []int{r.fix(float64(m), -2-2*lvl)}
		for i, v := range in {
			if v != float32(amp*float64(s.In[i])) {
				r.Same = 0
			}
		}
	case "table":
		r.Low = append(r.Low, dtmf.StdLowFreq...)
		r.High = append(r.High, dtmf.StdHighFreq...)
		for _, c := range dtmf.Keypad {
			r.Out = append(r.Out, int(c))
		}
	default:
		vk.Fatal("unknown step %q", s.Op)
	}
}

func main() {
	vk.Each(func(line []byte) {
		var sc scenario
		vk.Parse(line, &sc)
		switch sc.Op {
		case "sep":
			vk.Emit(map[string]string{"op": "sep"})
		case "run":
			run(&sc)
		default:
			vk.Fatal("unknown op %q", sc.Op)
		}
	})
}
