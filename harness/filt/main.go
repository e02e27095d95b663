// Driver for the streaming filters and demodulators of package dsp.
package main

import (
	"math"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/zzv/vk"
)

type step struct {
	Op      string  `json:"op"`
	F       int     `json:"f"`
	Kind    string  `json:"kind"`
	P       []int   `json:"p"`
	B       []int   `json:"b"`
	A       []int   `json:"a"`
	Scale   int     `json:"scale"`
	In      []int   `json:"in"`
	One     int     `json:"one"`
	Inplace int     `json:"inplace"`
	F32     int     `json:"f32"`
	Track   int     `json:"track"`
	Off     int     `json:"off"`
	Room    int     `json:"room"`
	Fn      string  `json:"fn"`
	Fs      float64 `json:"fs"`
	Freq    float64 `json:"freq"`
	Q       []int   `json:"q"`
	Gain    []int   `json:"gain"`
	Db      float64 `json:"db"`
	Level   int     `json:"level"`
}
type scenario struct {
	Op    string `json:"op"`
	Steps []step `json:"steps"`
}

const lim = 1 << 30

// amp scales the samples of a block by a power of two; the driver scales the
// results back, which loses nothing.
var amp = 1.0

// fix rounds v*scale; ok is 0 when it is not finite or too large, exact
// tells whether nothing was rounded.
func fix(v float64, scale float64) (r int, exact, ok bool) {
	s := v * scale
	if !(math.Abs(s) < lim) {
		return 0, false, false
	}
	q := math.Floor(s + 0.5)
	return int(q), q == s, true
}

type enc struct {
	scale float64
	out   []int
	exact int
	bad   int
}

func (e *enc) put(v float64) {
	r, x, ok := fix(v, e.scale)
	if !x {
		e.exact = 0
	}
	if !ok {
		e.bad = 1
	}
	e.out = append(e.out, r)
}
func newEnc(scale int) *enc { return &enc{scale: float64(scale), out: []int{}, exact: 1} }

func bits32(f float32) []int {
	b := math.Float32bits(f)
	if b == 1<<31 {
		b = 0
	}
	return []int{int(b >> 16), int(b & 0xffff)}
}

func f64s(v []int) []float64 {
	r := make([]float64, len(v))
	for i, x := range v {
		r[i] = amp * float64(x)
	}
	return r
}
func f32s(v []int) []float32 {
	r := make([]float32, len(v))
	for i, x := range v {
		r[i] = float32(amp * float64(x))
	}
	return r
}
func c64s(v []int) []complex64 {
	r := make([]complex64, len(v)/2)
	for i := range r {
		r[i] = complex(float32(amp*float64(v[2*i])), float32(amp*float64(v[2*i+1])))
	}
	return r
}
func c128s(v []int) []complex128 {
	r := make([]complex128, len(v)/2)
	for i := range r {
		r[i] = complex(amp*float64(v[2*i]), amp*float64(v[2*i+1]))
	}
	return r
}

type filt struct {
	kind  string
	scale int
	amp   float64
	obj   interface{}
}

type result struct {
	Op    string      `json:"op"`
	F     int         `json:"f"`
	Kind  string      `json:"kind"`
	P     []int       `json:"p"`
	B     []int       `json:"b"`
	A     []int       `json:"a"`
	Scale int         `json:"scale"`
	In    []int       `json:"in"`
	Out   []int       `json:"out"`
	N     int         `json:"n"`
	Exact int         `json:"exact"`
	Bad   int         `json:"bad"`
	Panic int         `json:"panic"`
	Same  int         `json:"same"` // same slice, input and surroundings unchanged
	Bits  [][]int     `json:"bits"` // fm: output bit patterns
	Fa    [][]int     `json:"fa"`   // fm: y, x, bits of FastAtan2(y, x)
	Ang   []int       `json:"ang"`  // fm: outputs * 2^20
	Coef  interface{} `json:"coef"` // caller's coefficients after construction
	Fn    string      `json:"fn"`
	Q     []int       `json:"q"`
	Gain  []int       `json:"gain"`
	Turn  int         `json:"turn"`
	F32   int         `json:"f32"`
	Track int         `json:"track"`
}

func ints64(v []float64) []int {
	r := make([]int, len(v))
	for i, x := range v {
		if q, ex, ok := fix(x, 1); ex && ok {
			r[i] = q
		} else {
			r[i] = lim
		}
	}
	return r
}
func ints32(v []float32) []int {
	w := make([]float64, len(v))
	for i, x := range v {
		w[i] = float64(x)
	}
	return ints64(w)
}

// coefficient slices that several filters may have been built from
type coefs struct {
	b, a     []float64
	b32, a32 []float32
}

func run(sc *scenario) {
	shared := &coefs{}
	fs := map[int]*filt{}
	for i := range sc.Steps {
		s := &sc.Steps[i]
		r := &result{Op: s.Op, F: s.F, Kind: s.Kind, P: s.P, B: s.B, A: s.A, Scale: s.Scale, In: s.In, Out: []int{}, Exact: 1, Same: 1,
			Bits: [][]int{}, Fa: [][]int{}, Ang: []int{}, Coef: [][]int{}, Fn: s.Fn, Q: s.Q, Gain: s.Gain, F32: s.F32, Track: s.Track}
		for _, p := range []*[]int{&r.P, &r.B, &r.A, &r.In, &r.Q, &r.Gain} {
			if *p == nil {
				*p = []int{}
			}
		}
		if msg := vk.Catch(func() { one(fs, shared, s, r) }); msg != "" {
			r.Panic = 1
		}
		if fl := fs[s.F]; fl != nil {
			r.Kind, r.Scale = fl.kind, fl.scale
		}
		vk.Emit(r)
	}
}

func one(fs map[int]*filt, shared *coefs, s *step, r *result) {
	switch s.Op {
	case "new":
		construct(fs, shared, s, r)
	case "spoil": // the caller changes its coefficient slices
		for i := range shared.b {
			shared.b[i] = 1e9 + float64(i)
		}
		for i := range shared.a {
			shared.a[i] = -1e9 - float64(i)
		}
		for i := range shared.b32 {
			shared.b32[i] = 1e9
		}
		for i := range shared.a32 {
			shared.a32[i] = -1e9
		}
	case "retune": // the coefficients of a biquad are its caller's to change
		o := fs[s.F].obj.(*dsp.BiQuadFilter)
		o.B0, o.B1, o.B2 = float64(s.B[0]), float64(s.B[1]), float64(s.B[2])
		o.A0, o.A1, o.A2 = float64(s.A[0]), float64(s.A[1]), float64(s.A[2])
	case "block":
		block(fs[s.F], s, r)
	case "polar":
		e := newEnc(1 << 20)
		a, b := c128s(s.In[:2])[0], c128s(s.In[2:])[0]
		e.put(dsp.PolarDiscriminator(a, b))
		r.Out, r.Bad = e.out, e.bad
		d := dsp.PolarDiscriminator32(complex64(a), complex64(b))
		r.Bits = append(r.Bits, bits32(d))
		e = newEnc(1 << 20)
		e.put(float64(d))
		r.Ang = e.out
		y, x := s.In[1]*s.In[2]-s.In[0]*s.In[3], s.In[0]*s.In[2]+s.In[1]*s.In[3]
		r.Fa = append(r.Fa, append([]int{y, x}, bits32(dsp.FastAtan2(float32(y), float32(x)))...))
	case "design":
		design(s, r)
	default:
		vk.Fatal("unknown step %q", s.Op)
	}
}

func construct(fs map[int]*filt, shared *coefs, s *step, r *result) {
	fl := &filt{kind: s.Kind, scale: s.Scale, amp: math.Ldexp(1, s.Level)}
	if fl.scale == 0 {
		fl.scale = 1
	}
	delete(fs, s.F)
	r.Scale = fl.scale
	if s.Room == 0 { // fresh coefficient slices, otherwise those of the previous filter
		shared.b, shared.a, shared.b32, shared.a32 = f64s(s.B), f64s(s.A), f32s(s.B), f32s(s.A)
	}
	switch s.Kind {
	case "decim":
		fl.obj = &dsp.LowPassDownsampleComplexFilter{Downsample: s.P[0]}
	case "ratio":
		fl.obj = &dsp.LowPassDownsampleRationalFilter{Fast: s.P[0], Slow: s.P[1]}
	case "fm":
		fl.obj = &dsp.FMDemodFilter{}
	case "rot":
		fl.obj = &dsp.Rotate90Filter{}
	case "irot":
		fl.obj = &dsp.I32Rotate90Filter{}
	case "dc":
		fl.obj = dsp.NewDCFilter(float64(s.P[0]) / float64(s.P[1]))
	case "dc32":
		fl.obj = dsp.NewDCFilter32(float32(float64(s.P[0]) / float64(s.P[1])))
	case "iir":
		fl.obj = dsp.NewIIRFilter(shared.b, shared.a)
	case "ciir":
		fl.obj = dsp.NewComplexIIRFilter(shared.b, shared.a)
	case "ciir32":
		fl.obj = dsp.NewComplexIIRFilter32(shared.b32, shared.a32)
	case "biquad":
		fl.obj = &dsp.BiQuadFilter{B0: float64(s.B[0]), B1: float64(s.B[1]), B2: float64(s.B[2]),
			A0: float64(s.A[0]), A1: float64(s.A[1]), A2: float64(s.A[2])}
	default:
		vk.Fatal("unknown kind %q", s.Kind)
	}
	fs[s.F] = fl
	if s.Kind == "ciir32" {
		r.Coef = [][]int{ints32(shared.b32), ints32(shared.a32)}
	} else {
		r.Coef = [][]int{ints64(shared.b), ints64(shared.a)}
	}
}

func fastAtan2(y, x int) float32 {
	return dsp.FastAtan2(float32(amp*amp*float64(y)), float32(amp*amp*float64(x)))
}

const guard = 5

func block(fl *filt, s *step, r *result) {
	if fl == nil {
		panic("no filter") // its construction failed
	}
	e := newEnc(fl.scale)
	if amp != fl.amp { // never so in a parallel run
		amp = fl.amp
		defer func() { amp = 1 }()
	}
	if fl.kind != "fm" {
		e.scale /= amp
	}
	defer func() { r.Out, r.Exact, r.Bad = e.out, e.exact, e.bad }()
	mark := complex64(complex(-12345, 54321))
	switch o := fl.obj.(type) {
	case *dsp.LowPassDownsampleComplexFilter:
		buf := make([]complex64, s.Off+len(s.In)/2+guard)
		for i := range buf {
			buf[i] = mark
		}
		in := buf[s.Off : s.Off+len(s.In)/2 : s.Off+len(s.In)/2]
		copy(in, c64s(s.In))
		res := o.Filter(in)
		for _, v := range res {
			e.put(float64(real(v)))
			e.put(float64(imag(v)))
		}
		for i, v := range buf {
			if (i < s.Off || i >= s.Off+len(in)) && v != mark {
				r.Same = 0
			}
		}
	case *dsp.LowPassDownsampleRationalFilter:
		buf := make([]float32, s.Off+len(s.In)+guard)
		for i := range buf {
			buf[i] = -12345
		}
		in := buf[s.Off : s.Off+len(s.In) : s.Off+len(s.In)]
		copy(in, f32s(s.In))
		res := o.Filter(in)
		for _, v := range res {
			e.put(float64(v))
		}
		for i, v := range buf {
			if (i < s.Off || i >= s.Off+len(in)) && v != -12345 {
				r.Same = 0
			}
		}
	case *dsp.FMDemodFilter:
		ibuf := make([]complex64, s.Off+len(s.In)/2)
		in := ibuf[s.Off:]
		copy(in, c64s(s.In))
		keep := append([]complex64{}, in...)
		out := make([]float32, s.Off+len(in)+s.Room+guard)
		for i := range out {
			out[i] = -12345
		}
		r.N = o.Demodulate(in, out[s.Off:s.Off+len(in)+s.Room])
		for i := range in {
			if in[i] != keep[i] {
				r.Same = 0
			}
		}
		for i, v := range out {
			if i >= s.Off && i < s.Off+len(in) {
				r.Bits = append(r.Bits, bits32(v))
				e.put(float64(v))
			} else if v != -12345 {
				r.Same = 0
			}
		}
		for i := range in {
			if i == 0 {
				continue
			}
			ar, ai, br, bi := s.In[2*i], s.In[2*i+1], s.In[2*i-2], s.In[2*i-1]
			y, x := ai*br-ar*bi, ar*br+ai*bi
			r.Fa = append(r.Fa, append([]int{y, x}, bits32(fastAtan2(y, x))...))
		}
		if len(in) > 0 && len(s.P) == 2 { // with the previous block's last sample
			ar, ai, br, bi := s.In[0], s.In[1], s.P[0], s.P[1]
			y, x := ai*br-ar*bi, ar*br+ai*bi
			r.Fa = append([][]int{append([]int{y, x}, bits32(fastAtan2(y, x))...)}, r.Fa...)
		}
	case *dsp.Rotate90Filter:
		buf := make([]complex64, s.Off+len(s.In)/2+guard)
		for i := range buf {
			buf[i] = mark
		}
		in := buf[s.Off : s.Off+len(s.In)/2]
		copy(in, c64s(s.In))
		res := o.Filter(in)
		if len(res) != len(in) || (len(in) > 0 && &res[0] != &in[0]) {
			r.Same = 0
		}
		for _, v := range res {
			e.put(float64(real(v)))
			e.put(float64(imag(v)))
		}
		for i, v := range buf {
			if (i < s.Off || i >= s.Off+len(in)) && v != mark {
				r.Same = 0
			}
		}
	case *dsp.I32Rotate90Filter:
		buf := make([]int32, s.Off+len(s.In)+guard)
		for i := range buf {
			buf[i] = -12345
		}
		in := buf[s.Off : s.Off+len(s.In)]
		for i, v := range s.In {
			in[i] = int32(v)
		}
		res := o.Filter(in)
		if len(res) != len(in) || (len(in) > 0 && &res[0] != &in[0]) {
			r.Same = 0
		}
		for _, v := range res {
			e.out = append(e.out, int(v))
		}
		for i, v := range buf {
			if (i < s.Off || i >= s.Off+len(in)) && v != -12345 {
				r.Same = 0
			}
		}
	case *dsp.DCFilter:
		if s.One == 1 {
			for _, v := range s.In {
				e.put(o.FilterOne(amp * float64(v)))
			}
			return
		}
		real64(e, s, r, o.Filter)
	case *dsp.DCFilter32:
		if s.One == 1 {
			for _, v := range s.In {
				e.put(float64(o.FilterOne(float32(amp * float64(v)))))
			}
			return
		}
		real32(e, s, r, o.Filter)
	case *dsp.IIRFilter:
		real64(e, s, r, o.Filter)
	case *dsp.BiQuadFilter:
		if s.F32 == 1 {
			real32(e, s, r, o.FilterF32)
		} else {
			real64(e, s, r, o.Filter)
		}
	case *dsp.ComplexIIRFilter:
		in := c128s(s.In)
		keep := append([]complex128{}, in...)
		out := make([]complex128, len(in)+s.Room+guard)
		if s.Inplace == 1 {
			out = in
		}
		for i := len(in); i < len(out); i++ {
			out[i] = complex(-12345, 1)
		}
		o.Filter(in, out[:len(out):len(out)])
		for i, v := range out {
			if i < len(in) {
				e.put(real(v))
				e.put(imag(v))
				if s.Inplace == 0 && in[i] != keep[i] {
					r.Same = 0
				}
			} else if v != complex(-12345, 1) {
				r.Same = 0
			}
		}
	case *dsp.ComplexIIRFilter32:
		in := c64s(s.In)
		keep := append([]complex64{}, in...)
		out := make([]complex64, len(in)+s.Room+guard)
		if s.Inplace == 1 {
			out = in
		}
		for i := len(in); i < len(out); i++ {
			out[i] = complex(-12345, 1)
		}
		o.Filter(in, out[:len(out):len(out)])
		for i, v := range out {
			if i < len(in) {
				e.put(float64(real(v)))
				e.put(float64(imag(v)))
				if s.Inplace == 0 && in[i] != keep[i] {
					r.Same = 0
				}
			} else if v != complex(-12345, 1) {
				r.Same = 0
			}
		}
	default:
		vk.Fatal("type")
	}
}

func real64(e *enc, s *step, r *result, f func(in, out []float64)) {
	in := f64s(s.In)
	keep := append([]float64{}, in...)
	out := make([]float64, len(in)+s.Room)
	if s.Inplace == 1 {
		out = in
	}
	for i := len(in); i < len(out); i++ {
		out[i] = -12345
	}
	f(in, out)
	for i, v := range out {
		if i < len(in) {
			e.put(v)
			if s.Inplace == 0 && in[i] != keep[i] {
				r.Same = 0
			}
		} else if v != -12345 {
			r.Same = 0
		}
	}
}
func real32(e *enc, s *step, r *result, f func(in, out []float32)) {
	in := f32s(s.In)
	keep := append([]float32{}, in...)
	out := make([]float32, len(in)+s.Room)
	if s.Inplace == 1 {
		out = in
	}
	for i := len(in); i < len(out); i++ {
		out[i] = -12345
	}
	f(in, out)
	for i, v := range out {
		if i < len(in) {
			e.put(float64(v))
			if s.Inplace == 0 && in[i] != keep[i] {
				r.Same = 0
			}
		} else if v != -12345 {
			r.Same = 0
		}
	}
}

func design(s *step, r *result) {
	q := 0.0
	if len(s.Q) == 2 {
		q = float64(s.Q[0]) / float64(s.Q[1])
	}
	var f *dsp.BiQuadFilter
	switch s.Fn {
	case "LowPass":
		f = dsp.NewLowPassBiQuadFilter(s.Fs, s.Freq, q)
	case "HighPass":
		f = dsp.NewHighPassBiQuadFilter(s.Fs, s.Freq, q)
	case "BandPassSkirt":
		f = dsp.NewBandPassConstantSkirtGainBiQuadFilter(s.Fs, s.Freq, q)
	case "BandPassPeak":
		f = dsp.NewBandPassConstantPeakGainBiQuadFilter(s.Fs, s.Freq, q)
	case "Notch":
		f = dsp.NotchBiQuadFilter(s.Fs, s.Freq, q)
	case "AllPass":
		f = dsp.AllPassBiQuadFilter(s.Fs, s.Freq, q)
	case "Peaking":
		f = dsp.PeakingEQBiQuadFilter(s.Fs, s.Freq, q, s.Db)
	case "LowShelf":
		f = dsp.LowShelfBiQuadFilter(s.Fs, s.Freq, q, s.Db)
	case "HighShelf":
		f = dsp.HighShelfBiQuadFilter(s.Fs, s.Freq, q, s.Db)
	default:
		vk.Fatal("design %q", s.Fn)
	}
	e := newEnc(1 << 14)
	for _, v := range []float64{f.B0, f.B1, f.B2, f.A1, f.A2} {
		e.put(v / f.A0)
	}
	r.Out, r.Bad = e.out, e.bad
	r.Turn, _, _ = fix(2*math.Pi*s.Freq/s.Fs, 1<<26)
	// the filter starts from silence
	r.N = vk.B2i(func() bool {
		o := make([]float64, 4)
		f.Filter(make([]float64, 4), o)
		return o[0] == 0 && o[3] == 0
	}())
}

func main() {
	vk.Each(func(line []byte) {
		var sc scenario
		vk.Parse(line, &sc)
		if sc.Op == "sep" {
			vk.Emit(map[string]string{"op": "sep"})
			return
		}
		run(&sc)
	})
}
