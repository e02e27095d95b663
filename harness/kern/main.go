// Driver for the slice kernels of package dsp: places operands anywhere
// relative to guard pages, calls the exported functions and reports what
// memory and which values they touched.
package main

import (
	"encoding/binary"
	"math"
	"math/bits"
	"syscall"
	"unsafe"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/zzv/vk"
)

// element kinds
const (
	u8 = iota
	i8
	i16
	f32
	f64
	c64
	none
)

var size = []int{1, 1, 2, 4, 8, 8, 1}

// smaller alignment than the element is not possible for Go slices
type kernel struct {
	in, out, mul int
	call         func(in, out, mul unsafe.Pointer, ni, no, nm int, scale float64) (float32, bool)
}

func sU8(p unsafe.Pointer, n int) []byte       { return unsafe.Slice((*byte)(p), n) }
func sI8(p unsafe.Pointer, n int) []int8       { return unsafe.Slice((*int8)(p), n) }
func sI16(p unsafe.Pointer, n int) []int16     { return unsafe.Slice((*int16)(p), n) }
func sF32(p unsafe.Pointer, n int) []float32   { return unsafe.Slice((*float32)(p), n) }
func sF64(p unsafe.Pointer, n int) []float64   { return unsafe.Slice((*float64)(p), n) }
func sC64(p unsafe.Pointer, n int) []complex64 { return unsafe.Slice((*complex64)(p), n) }

type ptr = unsafe.Pointer

func void(f func(in, out, mul ptr, ni, no, nm int, scale float64)) func(in, out, mul ptr, ni, no, nm int, scale float64) (float32, bool) {
	return func(in, out, mul ptr, ni, no, nm int, scale float64) (float32, bool) {
		f(in, out, mul, ni, no, nm, scale)
		return 0, false
	}
}

var kernels = map[string]kernel{
	"Ui8toi16":  {u8, i16, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.Ui8toi16(sU8(in, ni), sI16(out, no)) })},
	"Ui8toi16b": {u8, u8, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.Ui8toi16b(sU8(in, ni), sU8(out, no)) })},
	"Ui8tof32":  {u8, f32, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.Ui8tof32(sU8(in, ni), sF32(out, no)) })},
	"I8tof32":   {u8, f32, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.I8tof32(sU8(in, ni), sF32(out, no)) })},
	"Ui8toc64":  {u8, c64, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.Ui8toc64(sU8(in, ni), sC64(out, no)) })},
	"I8toc64":   {i8, c64, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.I8toc64(sI8(in, ni), sC64(out, no)) })},
	"C64toi8":   {c64, i8, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.C64toi8(sC64(in, ni), sI8(out, no)) })},
	"F32toi16": {f32, i16, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) {
		dsp.F32toi16(sF32(in, ni), sI16(out, no), float32(s))
	})},
	"F32toi16ble": {f32, u8, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) {
		dsp.F32toi16ble(sF32(in, ni), sU8(out, no), float32(s))
	})},
	"I16ToBLE":    {i16, u8, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.I16ToBLE(sI16(in, ni), sU8(out, no)) })},
	"I16bleToF64": {u8, f64, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.I16bleToF64(sU8(in, ni), sF64(out, no), s) })},
	"I16bleToF32": {u8, f32, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) {
		dsp.I16bleToF32(sU8(in, ni), sF32(out, no), float32(s))
	})},
	"I32bleToF32": {u8, f32, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) {
		dsp.I32bleToF32(sU8(in, ni), sF32(out, no), float32(s))
	})},
	"F32Tof32ble": {f32, u8, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.F32Tof32ble(sF32(in, ni), sU8(out, no)) })},
	"VMulC64xF32": {c64, c64, f32, void(func(in, out, mul ptr, ni, no, nm int, s float64) {
		dsp.VMulC64xF32(sC64(in, ni), sC64(out, no), sF32(mul, nm))
	})},
	"VMulC64": {c64, c64, c64, void(func(in, out, mul ptr, ni, no, nm int, s float64) {
		dsp.VMulC64(sC64(in, ni), sC64(out, no), sC64(mul, nm))
	})},
	"VAddF32": {f32, f32, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.VAddF32(sF32(in, ni), sF32(out, no)) })},
	"VAddC64": {c64, c64, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.VAddC64(sC64(in, ni), sC64(out, no)) })},
	"VScaleC64": {c64, c64, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) {
		dsp.VScaleC64(sC64(in, ni), sC64(out, no), float32(s))
	})},
	"VScaleF32": {f32, f32, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) {
		dsp.VScaleF32(sF32(in, ni), sF32(out, no), float32(s))
	})},
	"VAbsC64": {c64, f32, none, void(func(in, out, mul ptr, ni, no, nm int, s float64) { dsp.VAbsC64(sC64(in, ni), sF32(out, no)) })},
	"VMaxF32": {f32, none, none, func(in, out, mul ptr, ni, no, nm int, s float64) (float32, bool) {
		return dsp.VMaxF32(sF32(in, ni)), true
	}},
	"VMinF32": {f32, none, none, func(in, out, mul ptr, ni, no, nm int, s float64) (float32, bool) {
		return dsp.VMinF32(sF32(in, ni)), true
	}},
}

// ---- memory with guard pages around it
type arena struct{ mem []byte }

const arenaSize = 2 << 20

func newArena() *arena {
	const pg = 4096
	m, err := syscall.Mmap(-1, 0, arenaSize+2*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		vk.Fatal("mmap: %v", err)
	}
	if syscall.Mprotect(m[:pg], syscall.PROT_NONE) != nil || syscall.Mprotect(m[pg+arenaSize:], syscall.PROT_NONE) != nil {
		vk.Fatal("mprotect")
	}
	return &arena{m[pg : pg+arenaSize]}
}

// place returns the offset of n bytes of elements of size es: "hi" ends at
// the guard page, "lo" begins at it, otherwise off elements into the middle.
func (a *arena) place(where string, off, n, es int) int {
	switch where {
	case "hi":
		return arenaSize - n
	case "lo":
		return 0
	}
	return arenaSize/2 + off*es
}

// at is the address of an offset, also of the end.
func (a *arena) at(off int) ptr { return ptr(&a.mem[: arenaSize+1 : arenaSize+1][off]) }

// ---- encodings of floats in the trace
func f32me(f float32) [2]int {
	b := math.Float32bits(f)
	e := int(b>>23) & 255
	m := int(b & 0x7fffff)
	if e == 255 {
		if m != 0 {
			return [2]int{0, 999}
		}
		if b>>31 == 1 {
			return [2]int{-1, 998}
		}
		return [2]int{1, 998}
	}
	if e == 0 {
		e = 1
	} else {
		m |= 0x800000
	}
	if m == 0 {
		return [2]int{0, 0}
	}
	z := bits.TrailingZeros32(uint32(m))
	m >>= uint(z)
	if b>>31 == 1 {
		m = -m
	}
	return [2]int{m, e - 150 + z}
}

// sign, high 26 bits, low 26 bits and exponent of an odd significand
func f64me(f float64) [4]int {
	b := math.Float64bits(f)
	e := int(b>>52) & 2047
	m := b & (1<<52 - 1)
	s := int(b >> 63)
	if e == 2047 {
		return [4]int{s, 0, vk.B2i(m != 0), 9999}
	}
	if e == 0 {
		e = 1
	} else {
		m |= 1 << 52
	}
	if m == 0 {
		return [4]int{0, 0, 0, 0}
	}
	z := bits.TrailingZeros64(m)
	m >>= uint(z)
	return [4]int{s, int(m >> 26), int(m & (1<<26 - 1)), e - 1075 + z}
}
func f32bits(f float32) [2]int { b := math.Float32bits(f); return [2]int{int(b >> 16), int(b & 65535)} }
func f64bits(f float64) [4]int {
	b := math.Float64bits(f)
	return [4]int{int(b >> 48), int(b >> 32 & 65535), int(b >> 16 & 65535), int(b & 65535)}
}

// order-preserving integer of a float (both zeros 0)
func f32key(f float32) int {
	b := math.Float32bits(f)
	if f != f {
		return math.MaxInt32
	}
	k := int(b & 0x7fffffff)
	if b>>31 == 1 {
		k = -k
	}
	return k
}
func f32int(f float32) int {
	if f != f || f != float32(math.Trunc(float64(f))) || f > 1e9 || f < -1e9 {
		return 1 << 30
	}
	return int(f)
}
func f64int(f float64) int {
	if f != f || f != math.Trunc(f) || f > 1e9 || f < -1e9 {
		return 1 << 30
	}
	return int(f)
}

func encF32(f float32, enc string) interface{} {
	switch enc {
	case "int":
		return f32int(f)
	case "me":
		return f32me(f)
	case "bits":
		return f32bits(f)
	case "key":
		return f32key(f)
	}
	vk.Fatal("encoding %q", enc)
	return nil
}

func encode(kind int, mem []byte, n int, enc string) []interface{} {
	r := []interface{}{}
	le := binary.LittleEndian
	for i := 0; i < n; i++ {
		switch kind {
		case u8:
			r = append(r, int(mem[i]))
		case i8:
			r = append(r, int(int8(mem[i])))
		case i16:
			r = append(r, int(int16(le.Uint16(mem[2*i:]))))
		case f32:
			r = append(r, encF32(math.Float32frombits(le.Uint32(mem[4*i:])), enc))
		case c64:
			r = append(r, encF32(math.Float32frombits(le.Uint32(mem[8*i:])), enc),
				encF32(math.Float32frombits(le.Uint32(mem[8*i+4:])), enc))
		case f64:
			f := math.Float64frombits(le.Uint64(mem[8*i:]))
			switch enc {
			case "int":
				r = append(r, f64int(f))
			case "me":
				r = append(r, f64me(f))
			default:
				r = append(r, f64bits(f))
			}
		}
	}
	return r
}

// fill writes scenario values: integers for integral kinds, float32 bit
// patterns for f32 and c64 (two per element).
func fill(kind int, mem []byte, vals []int64) int {
	le := binary.LittleEndian
	for i, v := range vals {
		switch kind {
		case u8, i8:
			mem[i] = byte(v)
		case i16:
			le.PutUint16(mem[2*i:], uint16(v))
		case f32, c64:
			le.PutUint32(mem[4*i:], uint32(v))
		}
	}
	if kind == c64 {
		return len(vals) / 2
	}
	return len(vals)
}

type scenario struct {
	Op      string   `json:"op"`
	Fn      string   `json:"fn"`
	Ins     []int    `json:"ins"`
	Outs    [][2]int `json:"outs"` // output length = a*items + b elements (items: of the input)
	Mul     []int    `json:"muls"` // multiplier length = items + b
	Offs    [][2]int `json:"offs"`
	Rate    [2]int   `json:"rate"` // input elements per item, output elements per item (sizes the sweep only)
	In      []int64  `json:"in"`
	In2     []int64  `json:"in2"`  // multiplier
	Out0    []int64  `json:"out0"` // output before the call
	No      int      `json:"no"`
	Nm      int      `json:"nm"`
	Scale   float64  `json:"scale"`
	Enc     string   `json:"enc"`
	EncIn   string   `json:"encin"`
	Inplace int      `json:"inplace"`
	Id      int      `json:"id"`
	Base    []int64  `json:"base"`
	V       int64    `json:"v"`
	N       int      `json:"n"`
	Ks      []int    `json:"ks"`
}

// the memory of one goroutine
type world struct{ A, B, C *arena }

func canary(mem []byte, kind int, k int) {
	for i := range mem {
		mem[i] = byte(0x41 + k + i%4) // as floats around 12 and 13, as anything else distinct per place
	}
}

type outcome struct{ lo, hi, cnt, inchg, fault int }

// touch runs one placement twice over different background patterns.
func (mem *world) touch(k kernel, ni, no, nm, pi, po, pm int, sc *scenario) (o outcome) {
	esI, esO, esM := size[k.in], size[k.out], size[k.mul]
	inB := mem.A.mem[pi : pi+ni*esI]
	// output region with a margin to both sides
	lo, hi := po-256, po+no*esO+256
	if lo < 0 {
		lo = 0
	}
	if hi > arenaSize {
		hi = arenaSize
	}
	win := mem.B.mem[lo:hi]
	var changed []bool
	if k.out != none {
		changed = make([]bool, len(win))
	}
	ilo, ihi := pi-64, pi+ni*esI+64
	if ilo < 0 {
		ilo = 0
	}
	if ihi > arenaSize {
		ihi = arenaSize
	}
	inWin := mem.A.mem[ilo:ihi]
	mulWin := mem.C.mem[:0]
	if k.mul != none {
		mulWin = mem.C.mem[pm : pm+nm*esM]
	}
	for pass := 0; pass < 2; pass++ {
		switch k.in {
		case f32, c64:
			for i := range inB {
				inB[i] = 0
			}
			for i := 0; i+4 <= len(inB); i += 4 {
				binary.LittleEndian.PutUint32(inB[i:], math.Float32bits(float32(1+(i/4)%7)))
			}
		default:
			for i := range inB {
				inB[i] = byte(3 + 5*i)
			}
		}
		for i := 0; i+4 <= len(mulWin); i += 4 {
			binary.LittleEndian.PutUint32(mulWin[i:], math.Float32bits(float32(2+(i/4)%5)))
		}
		canary(win, k.out, pass*32)
		saveWin := append([]byte{}, win...)
		saveIn := append([]byte{}, inWin...)
		saveMul := append([]byte{}, mulWin...)
		msg := vk.Catch(func() {
			k.call(ptr(&mem.A.mem[pi : arenaSize+1 : arenaSize+1][0]), ptr(&mem.B.mem[po : arenaSize+1 : arenaSize+1][0]), ptr(&mem.C.mem[pm : arenaSize+1 : arenaSize+1][0]), ni, no, nm, 3)
		})
		if msg != "" {
			o.fault = 1
		}
		for i := range win {
			if k.out != none && win[i] != saveWin[i] {
				changed[i] = true
			}
		}
		for i := range inWin {
			if inWin[i] != saveIn[i] {
				o.inchg = 1
			}
		}
		for i := range mulWin {
			if mulWin[i] != saveMul[i] {
				o.inchg = 1
			}
		}
	}
	if k.out != none {
		// element positions relative to the slice, hit if any byte changed
		o.lo, o.hi = 0, -1
		last := math.MinInt32
		for i, c := range changed {
			if c {
				e := (lo + i - po)
				if e < 0 {
					e = (e - esO + 1) / esO
				} else {
					e /= esO
				}
				if e != last {
					if o.cnt == 0 {
						o.lo = e
					}
					o.hi = e
					o.cnt++
					last = e
				}
			}
		}
	}
	return
}

func (mem *world) run(line []byte) {
	var sc scenario
	vk.Parse(line, &sc)
	k, ok := kernels[sc.Fn]
	if !ok {
		vk.Fatal("function %q", sc.Fn)
	}
	switch sc.Op {
	case "sep":
		vk.Emit(map[string]interface{}{"op": "sep"})
	case "touch":
		for _, ni := range sc.Ins {
			items := ni / sc.Rate[0]
			muls := []int{0}
			if k.mul != none {
				muls = sc.Mul
			}
			seen := map[[2]int]bool{}
			for _, ab := range sc.Outs {
				no := (ab[0]*items + ab[1]) * sc.Rate[1]
				if k.out == none {
					no = 0
				}
				if no < 0 {
					continue
				}
				for _, mb := range muls {
					nm := 0
					if k.mul != none {
						nm = items + mb
						if nm < 0 {
							continue
						}
					}
					for _, odd := range []int{0, 1} {
						n2 := no
						if odd == 1 {
							if sc.Rate[1] == 1 {
								continue
							}
							n2 = no + 1
						}
						if k.out != none && seen[[2]int{n2, nm}] {
							continue
						}
						seen[[2]int{n2, nm}] = true
						got := map[outcome]int{}
						order := []outcome{}
						add := func(o outcome) {
							if got[o] == 0 {
								order = append(order, o)
							}
							got[o]++
						}
						esI, esO, esM := size[k.in], size[k.out], size[k.mul]
						for _, of := range sc.Offs {
							add(mem.touch(k, ni, n2, nm, mem.A.place("mid", of[0], 0, esI), mem.B.place("mid", of[1], 0, esO), mem.C.place("mid", of[0]/2, 0, esM), &sc))
						}
						for _, w := range [][2]string{{"hi", "hi"}, {"hi", "lo"}, {"lo", "hi"}, {"lo", "lo"}} {
							add(mem.touch(k, ni, n2, nm, mem.A.place(w[0], 0, ni*esI, esI), mem.B.place(w[1], 0, n2*esO, esO), mem.C.place(w[0], 0, nm*esM, esM), &sc))
						}
						for _, o := range order {
							vk.Emit(map[string]interface{}{"op": "touch", "fn": sc.Fn, "ni": ni, "no": n2, "nm": nm, "places": got[o],
								"lo": o.lo, "hi": o.hi, "cnt": o.cnt, "inchg": o.inchg, "fault": o.fault})
						}
					}
				}
			}
		}
	case "data":
		// values at several placements; distinct outcomes are reported
		seen := map[string]bool{}
		for _, of := range sc.Offs {
			pi := mem.A.place("mid", of[0], 0, size[k.in])
			po := mem.B.place("mid", of[1], 0, size[k.out])
			pm := mem.C.place("mid", of[0], 0, size[k.mul])
			inM, outM, mulM := mem.A.mem[pi:], mem.B.mem[po:], mem.C.mem[pm:]
			cl, ch := po-4096, po+(sc.No+1)*size[k.out]+4096
			if cl < 0 || ch > arenaSize {
				cl, ch = 0, arenaSize
			}
			canary(mem.B.mem[cl:ch], k.out, 0)
			ni := fill(k.in, inM, sc.In)
			no := sc.No
			if sc.Out0 != nil {
				fill(k.out, outM, sc.Out0)
			}
			nm := 0
			if k.mul != none {
				nm = fill(k.mul, mulM, sc.In2)
			}
			op := ptr(&outM[0])
			if sc.Inplace == 1 {
				op = ptr(&inM[0])
				outM = inM
				no = ni
			}
			mp := ptr(&mulM[0])
			if sc.Inplace == 2 { // output is the multiplier
				op = mp
				outM = mulM
				no = nm
			}
			var ret float32
			var has bool
			before := encode(k.in, inM, ni, sc.EncIn)
			msg := vk.Catch(func() { ret, has = k.call(ptr(&inM[0]), op, mp, ni, no, nm, sc.Scale) })
			ev := map[string]interface{}{"op": "data", "fn": sc.Fn, "in": before, "id": sc.Id, "no": no, "inplace": sc.Inplace,
				"panic": vk.B2i(msg != "")}
			if has {
				ev["out"] = []interface{}{encF32(ret, sc.Enc)}
			} else {
				ev["out"] = encode(k.out, outM, no, sc.Enc)
			}
			ev["mul"] = []interface{}{}
			ev["out0"] = []interface{}{}
			if k.mul != none {
				fill(k.mul, mulM, sc.In2)
				ev["mul"] = encode(k.mul, mulM, nm, sc.EncIn)
			}
			if sc.Inplace == 1 {
				ev["out0"] = before
			} else if sc.Out0 != nil {
				tmp := make([]byte, size[k.out]*(no+1))
				ev["out0"] = encode(k.out, tmp, fill(k.out, tmp, sc.Out0), sc.EncIn)
			}
			if sc.Fn == "I16bleToF64" {
				ev["scale"] = f64me(sc.Scale)
			} else {
				ev["scale"] = f32me(float32(sc.Scale))
			}
			b := keyOf(ev)
			if !seen[b] {
				seen[b] = true
				vk.Emit(ev)
			}
		}
	case "extreme":
		// the base array with the value v at each of the positions
		pi := mem.A.place("mid", sc.Offs[0][0], 0, 4)
		inM := mem.A.mem[pi:]
		res := []interface{}{}
		for _, p := range sc.Ks {
			fill(f32, inM, sc.Base)
			binary.LittleEndian.PutUint32(inM[4*p:], uint32(sc.V))
			var ret float32
			msg := vk.Catch(func() { ret, _ = k.call(ptr(&inM[0]), nil, nil, len(sc.Base), 0, 0, 0) })
			if msg != "" {
				ret = float32(math.NaN())
			}
			res = append(res, f32key(ret))
		}
		fill(f32, inM, sc.Base)
		vk.Emit(map[string]interface{}{"op": "extreme", "fn": sc.Fn, "base": encode(f32, inM, len(sc.Base), "key"),
			"v": f32key(math.Float32frombits(uint32(sc.V))), "pos": sc.Ks, "res": res})
	case "roundtrip":
		// int16 samples to float32 with scale 2^-k and back with 2^k
		in := make([]byte, 2*len(sc.In))
		want := []int{}
		for i, v := range sc.In {
			binary.LittleEndian.PutUint16(in[2*i:], uint16(v))
			want = append(want, int(int16(v)))
		}
		fl := make([]float32, len(sc.In))
		out := make([]int16, len(sc.In))
		msg := vk.Catch(func() {
			dsp.I16bleToF32(in, fl, float32(math.Ldexp(1, -sc.N)))
			dsp.F32toi16(fl, out, float32(math.Ldexp(1, sc.N)))
		})
		got := []int{}
		for _, v := range out {
			got = append(got, int(v))
		}
		ble := make([]byte, 2*len(sc.In))
		msg += vk.Catch(func() { dsp.F32toi16ble(fl, ble, float32(math.Ldexp(1, sc.N))) })
		ev := map[string]interface{}{"op": "roundtrip", "fn": sc.Fn, "k": sc.N, "in": want, "out": got, "ble": vk.Ints(ble), "panic": vk.B2i(msg != "")}
		vk.Emit(ev)
	case "huge":
		// very long slices, checked here element by element
		x := make([]complex64, sc.N)
		for i := range x {
			x[i] = complex(float32(i%1000), float32(i%777))
		}
		bad := 0
		msg := vk.Catch(func() { dsp.VScaleC64(x, x, 2) })
		for i := range x {
			if x[i] != complex(2*float32(i%1000), 2*float32(i%777)) {
				bad++
			}
		}
		vk.Emit(map[string]interface{}{"op": "huge", "fn": sc.Fn, "n": sc.N, "bad": bad, "fault": vk.B2i(msg != "")})
	default:
		vk.Fatal("op %q", sc.Op)
	}
}

func main() {
	vk.EachOf(func() func([]byte) {
		mem := &world{newArena(), newArena(), newArena()}
		return mem.run
	})
}

func keyOf(ev map[string]interface{}) string { return string(vk.Marshal(ev)) }
