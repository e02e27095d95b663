// Driver for dsp/ax25: executes scenario lines against real decoders and
// writes the trace that spec/AX25Trace.tla checks.
package main

import (
	"fmt"
	"sync"

	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/zzv/vk"
)

type addr struct {
	Call []int `json:"call"`
	SSID int   `json:"ssid"`
}
type frame struct {
	Dst  addr   `json:"dst"`
	Src  addr   `json:"src"`
	Reps []addr `json:"reps"`
	V1   int    `json:"v1"`
	Cmd  int    `json:"cmd"`
	Typ  int    `json:"typ"`
	Pf   int    `json:"pf"`
	Ns   int    `json:"ns"`
	Nr   int    `json:"nr"`
	Ut   int    `json:"ut"`
	St   int    `json:"st"`
	Pid  int    `json:"pid"`
	Info []int  `json:"info"`
}

func mkAddr(a ax25.Address) addr { return addr{vk.Codes(a.Callsign), a.SSID} }
func snap(f *ax25.Frame) frame {
	r := frame{Dst: mkAddr(f.Destination), Src: mkAddr(f.Source), Reps: []addr{}, V1: vk.B2i(f.V1),
		Cmd: vk.B2i(f.Command), Typ: int(f.Type), Pf: vk.B2i(f.PollFinal), Ns: f.SendSeq, Nr: f.RecvSeq,
		Ut: int(f.UnnumberedType), St: int(f.SupervisoryType), Pid: int(f.PID), Info: vk.Ints(f.Info)}
	for _, a := range f.Repeaters {
		r.Reps = append(r.Reps, mkAddr(a))
	}
	return r
}

// ---- names
type constant struct {
	name string
	code int
}

var constants = map[string][]constant{
	"pid": {{"ISO8208CCITTX25PLP", int(ax25.ISO8208CCITTX25PLP)}, {"CompressedTCPIP", int(ax25.CompressedTCPIP)}, {"UncompressedTCPIP", int(ax25.UncompressedTCPIP)},
		{"SegmentationFragment", int(ax25.SegmentationFragment)}, {"TEXNETDatagramProtocol", int(ax25.TEXNETDatagramProtocol)}, {"LinkQualityProtocol", int(ax25.LinkQualityProtocol)},
		{"AppleTalk", int(ax25.AppleTalk)}, {"AppletalkARP", int(ax25.AppletalkARP)}, {"ARPAInternetProtocol", int(ax25.ARPAInternetProtocol)},
		{"ARPAAddressResolution", int(ax25.ARPAAddressResolution)}, {"FlexNet", int(ax25.FlexNet)}, {"NETROM", int(ax25.NETROM)}, {"NoLayer3Protocol", int(ax25.NoLayer3Protocol)}},
	"ut": {{"SABME", int(ax25.SABME)}, {"SABM", int(ax25.SABM)}, {"DISC", int(ax25.DISC)}, {"DM", int(ax25.DM)}, {"UA", int(ax25.UA)}, {"FRMR", int(ax25.FRMR)},
		{"UI", int(ax25.UI)}, {"XID", int(ax25.XID)}, {"TEST", int(ax25.TEST)}},
	"st":  {{"RR", int(ax25.RR)}, {"RNR", int(ax25.RNR)}, {"REJ", int(ax25.REJ)}, {"SREJ", int(ax25.SREJ)}},
	"typ": {{"IFrame", int(ax25.IFrame)}, {"SFrame", int(ax25.SFrame)}, {"UFrame", int(ax25.UFrame)}},
}

// text is what printing the code shows; String must say the same.
func text(kind string, c byte) string {
	var v fmt.Stringer
	switch kind {
	case "pid":
		v = ax25.PID(c)
	case "ut":
		v = ax25.UnnumberedType(c)
	case "st":
		v = ax25.SupervisoryType(c)
	case "typ":
		v = ax25.FrameType(c)
	}
	s := fmt.Sprint(v)
	if x := v.String(); x != s {
		return s + " but " + x
	}
	return s
}
func shownAddr(a ax25.Address) []int { return vk.Codes(fmt.Sprint(a)) }

// ---- transmitter of the harness (checked by the specification on "send")
var flag = []int{0, 1, 1, 1, 1, 1, 1, 0}

func stuff(oct []int) []int { return stuffTo(nil, oct) }
func stuffTo(out []int, oct []int) []int {
	n := 0
	for _, o := range oct {
		for i := 0; i < 8; i++ {
			b := (o >> uint(i)) & 1
			out = append(out, b)
			if b == 1 {
				n++
				if n == 5 {
					out = append(out, 0)
					n = 0
				}
			} else {
				n = 0
			}
		}
	}
	return out
}

type delivery struct {
	pos int
	f   *ax25.Frame
}

func feed(d *ax25.AX25, bs []int) (out []delivery, msg string) {
	msg = vk.Catch(func() {
		for i, b := range bs {
			if f := d.Feed(b); f != nil {
				out = append(out, delivery{i + 1, f})
			}
		}
	})
	return
}

func enc(ds []delivery) []interface{} {
	r := []interface{}{}
	for _, d := range ds {
		r = append(r, []interface{}{d.pos, snap(d.f)})
	}
	return r
}

type op struct {
	Op     string  `json:"op"`
	D      int     `json:"d"`
	Bits   string  `json:"bits"`
	Oct    []int   `json:"oct"`
	Shared int     `json:"shared"`
	Pats   [][]int `json:"pats"`
	Class  string  `json:"class"`
	K      int     `json:"k"`
	N      int     `json:"n"`
}
type scenario struct {
	Ops []op `json:"ops"`
}

func parseBits(s string) []int {
	r := make([]int, len(s))
	for i := range s {
		r[i] = int(s[i] - '0')
	}
	return r
}

func deliveries(bs []int) int {
	n := 0
	d := ax25.NewDecoder()
	vk.Catch(func() {
		for _, b := range bs {
			if d.Feed(b) != nil {
				n++
			}
		}
	})
	return n
}

// scratch buffers of one worker
type scratch struct{ oct, bits []int }

// corrupted feeds the frame with the given bits inverted to a fresh decoder.
func (sx *scratch) corrupted(oct []int, p []int) int {
	sx.oct = append(sx.oct[:0], oct...)
	for _, b := range p {
		sx.oct[b/8] ^= 1 << uint(b%8)
	}
	sx.bits = append(sx.bits[:0], flag...)
	sx.bits = stuffTo(sx.bits, sx.oct)
	sx.bits = append(sx.bits, flag...)
	return deliveries(sx.bits)
}
func send(oct []int) []int {
	bs := append([]int{}, flag...)
	bs = append(bs, stuff(oct)...)
	return append(bs, flag...)
}

func parallel(n int, f func(i int) (int, int)) (a, b int) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			x, y := f(i)
			mu.Lock()
			a += x
			b += y
			mu.Unlock()
			<-sem
		}(i)
	}
	wg.Wait()
	return
}

func run(sc scenario) {
	dec := map[int]*ax25.AX25{}
	frames := map[int][]*ax25.Frame{}
	fed := map[int][]int{}
	for _, o := range sc.Ops {
		switch o.Op {
		case "new":
			dec[o.D] = ax25.NewDecoder()
			frames[o.D] = nil
			fed[o.D] = nil
			vk.Emit(map[string]interface{}{"op": "new", "d": o.D})
		case "feed", "send":
			bs := parseBits(o.Bits)
			ev := map[string]interface{}{"op": o.Op, "d": o.D}
			if o.Op == "send" {
				bs = append(stuff(o.Oct), flag...)
				if o.Shared == 0 {
					bs = append(append([]int{}, flag...), bs...)
				}
				rb := bs
				if o.Shared == 1 {
					rb = append(append([]int{}, flag...), bs...)
				}
				ref, _ := feed(ax25.NewDecoder(), rb)
				rs := []frame{}
				for _, x := range ref {
					rs = append(rs, snap(x.f))
				}
				ev["ref"] = rs
				ev["oct"] = o.Oct
				ev["shared"] = o.Shared
			}
			out, msg := feed(dec[o.D], bs)
			for _, x := range out {
				frames[o.D] = append(frames[o.D], x.f)
			}
			fed[o.D] = append(fed[o.D], bs...)
			ev["bits"] = bs
			ev["out"] = enc(out)
			ev["panic"] = vk.B2i(msg != "")
			ev["msg"] = msg
			vk.Emit(ev)
			if msg != "" {
				return
			}
		case "consts":
			names, codes := []interface{}{}, []int{}
			for _, c := range constants[o.Class] {
				names = append(names, []interface{}{c.name})
				codes = append(codes, c.code)
			}
			vk.Emit(map[string]interface{}{"op": "consts", "kind": o.Class, "consts": names, "codes": codes})
		case "names":
			texts := []string{}
			for c := 0; c < 256; c++ {
				texts = append(texts, text(o.Class, byte(c)))
			}
			vk.Emit(map[string]interface{}{"op": "names", "kind": o.Class, "texts": texts})
		case "address":
			call := make([]byte, len(o.Oct))
			for i, c := range o.Oct {
				call[i] = byte(c)
			}
			vk.Emit(map[string]interface{}{"op": "address", "call": o.Oct, "ssid": o.N,
				"text": shownAddr(ax25.Address{Callsign: string(call), SSID: o.N})})
		case "frame":
			out, _ := feed(ax25.NewDecoder(), send(o.Oct))
			var shown interface{} = "nothing"
			if len(out) == 1 {
				f := out[0].f
				reps := [][]int{}
				for _, r := range f.Repeaters {
					reps = append(reps, shownAddr(r))
				}
				shown = map[string]interface{}{"typ": fmt.Sprint(f.Type), "ut": fmt.Sprint(f.UnnumberedType), "st": fmt.Sprint(f.SupervisoryType),
					"pid": fmt.Sprint(f.PID), "dst": shownAddr(f.Destination), "src": shownAddr(f.Source), "reps": reps}
			}
			vk.Emit(map[string]interface{}{"op": "frame", "oct": o.Oct, "shown": shown})
		case "again":
			fs := []frame{}
			for _, f := range frames[o.D] {
				fs = append(fs, snap(f))
			}
			vk.Emit(map[string]interface{}{"op": "again", "d": o.D, "frames": fs})
		case "alone":
			out, _ := feed(ax25.NewDecoder(), fed[o.D])
			fs := []frame{}
			for _, x := range out {
				fs = append(fs, snap(x.f))
			}
			vk.Emit(map[string]interface{}{"op": "alone", "d": o.D, "frames": fs})
		case "corrupt":
			del := []int{}
			sx := &scratch{}
			for _, p := range o.Pats {
				del = append(del, sx.corrupted(o.Oct, p))
			}
			vk.Emit(map[string]interface{}{"op": "corrupt", "oct": o.Oct, "pats": o.Pats, "delivered": del})
		case "corruptall":
			n := 8 * len(o.Oct)
			cases, del := parallel(n, func(i int) (c, d int) {
				sx := &scratch{}
				try := func(p []int) {
					c++
					d += sx.corrupted(o.Oct, p)
				}
				if o.Class == "weight" {
					switch o.K {
					case 1:
						try([]int{i})
					case 2:
						for j := i + 1; j < n; j++ {
							try([]int{i, j})
						}
					case 3:
						for j := i + 1; j < n; j++ {
							for k := j + 1; k < n; k++ {
								try([]int{i, j, k})
							}
						}
					}
					return
				}
				// bursts of span exactly K starting at bit i
				if i+o.K > n {
					return
				}
				if o.K == 1 {
					try([]int{i})
					return
				}
				p := make([]int, 0, o.K)
				for m := 0; m < 1<<uint(o.K-2); m++ {
					p = append(p[:0], i)
					for b := 0; b < o.K-2; b++ {
						if m>>uint(b)&1 == 1 {
							p = append(p, i+1+b)
						}
					}
					p = append(p, i+o.K-1)
					try(p)
				}
				return
			})
			vk.Emit(map[string]interface{}{"op": "corruptall", "oct": o.Oct, "class": o.Class, "k": o.K,
				"cases": cases, "delivered": del})
		case "prefixall":
			fr := send(o.Oct)
			cases, del := parallel(1<<6, func(hi int) (c, d int) {
				for lo := 0; lo < 1<<uint(o.N-6); lo++ {
					m := hi<<uint(o.N-6) | lo
					dc := ax25.NewDecoder()
					for b := 0; b < o.N; b++ {
						dc.Feed(m >> uint(b) & 1)
					}
					c++
					for i, b := range fr {
						if f := dc.Feed(b); f != nil && i == len(fr)-1 {
							d++
						}
					}
				}
				return
			})
			vk.Emit(map[string]interface{}{"op": "prefixall", "n": o.N, "oct": o.Oct, "cases": cases, "delivered": del})
		default:
			vk.Fatal("unknown op %q", o.Op)
		}
	}
}

func main() {
	vk.Each(func(line []byte) {
		var sc scenario
		vk.Parse(line, &sc)
		run(sc)
	})
}
