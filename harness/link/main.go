// Driver for the BorIP client library against a running server: executes
// client calls and packet reads on request.
package main

import (
	"encoding/json"
	"math"
	"net"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/zzv/vk"
)

type request struct {
	C    int     `json:"c"`
	M    string  `json:"m"`
	Arg  string  `json:"arg"`
	Num  float64 `json:"num"`
	Want int     `json:"want"`
}
type packet struct {
	To    string `json:"to"`
	Flags int    `json:"flags"`
	Note  int    `json:"note"`
	Seq   int    `json:"seq"`
	B     []int  `json:"b"`
}
type response struct {
	C    int      `json:"c"`
	M    string   `json:"m"`
	Err  int      `json:"err"`
	Text string   `json:"text"`
	Vals []string `json:"vals"`
	Has  int      `json:"has"` // a device was returned
	Dev  []string `json:"dev"`
	Held []string `json:"held"` // Device() afterwards
	Got  []packet `json:"got"`
}

var (
	out     sync.Mutex
	enc     = json.NewEncoder(os.Stdout)
	queues  = map[int]chan request{}
	conns   = map[string]net.PacketConn{}
	readers = map[string]*borip.PacketReader{}
	bufs    = make([]complex128, 8192)
)

func emit(r *response) {
	out.Lock()
	enc.Encode(r)
	out.Unlock()
}

func num(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }

func device(d *borip.Device) []string {
	if d == nil {
		return []string{}
	}
	ants := ""
	for i, a := range d.ValidAntennas {
		if i > 0 {
			ants += ","
		}
		ants += a
	}
	return []string{d.Name, num(d.MinGain), num(d.MaxGain), num(d.GainStep), num(d.FPGAFreq), strconv.Itoa(d.SamplesPerPacket), ants, d.Serial}
}

func api(cl *borip.BorIP, q request) (*borip.BorIP, *response) {
	r := &response{C: q.C, M: q.M, Vals: []string{}, Dev: []string{}, Held: []string{}, Got: []packet{}}
	var err error
	one := func(v float64, e error) { r.Vals, err = []string{num(v)}, e }
	str := func(v string, e error) { r.Vals, err = []string{v}, e }
	switch q.M {
	case "Dial":
		cl, err = borip.Dial(q.Arg)
	case "SelectDevice":
		d, e := cl.SelectDevice(q.Arg)
		err = e
		if d != nil {
			r.Has, r.Dev = 1, device(d)
		}
	case "SetFrequency":
		a, b, c, d, e := cl.SetFrequency(q.Num)
		r.Vals, err = []string{num(a), num(b), num(c), num(d)}, e
	case "Frequency":
		one(cl.Frequency())
	case "SetRate":
		one(cl.SetRate(q.Num))
	case "Rate":
		one(cl.Rate())
	case "SetGain":
		err = cl.SetGain(q.Num)
	case "Gain":
		one(cl.Gain())
	case "SetAntenna":
		err = cl.SetAntenna(q.Arg)
	case "Antenna":
		str(cl.Antenna())
	case "SetDestination":
		str(cl.SetDestination(q.Arg))
	case "Destination":
		str(cl.Destination())
	case "SetHeaderEnabled":
		err = cl.SetHeaderEnabled(q.Arg == "ON")
	case "HeaderEnabled":
		var on bool
		on, err = cl.HeaderEnabled()
		r.Vals = []string{strconv.FormatBool(on)}
	case "Go":
		err = cl.Go()
	case "Stop":
		err = cl.Stop()
	case "Close":
		cl.Close()
	default:
		vk.Fatal("unknown method %q", q.M)
	}
	if err != nil {
		r.Err, r.Text, r.Vals = 1, err.Error(), []string{}
	}
	if cl != nil && q.M != "Close" {
		r.Held = device(cl.Device())
	}
	return cl, r
}

func le(v float64) (int, int) {
	if v != math.Floor(v) || v < -32768 || v > 32767 {
		return -1, -1
	}
	u := uint16(int16(v))
	return int(u & 0xff), int(u >> 8)
}

func read(q request) *response {
	r := &response{C: 0, M: "read", Vals: []string{}, Dev: []string{}, Held: []string{}, Got: []packet{}}
	total, zeros := 0, 0
	for addr, rd := range readers {
		if q.Arg != "" && q.Arg != addr {
			continue
		}
		for {
			wait := 5 * time.Millisecond
			if q.Arg != "" && total < q.Want {
				wait = time.Second
			}
			conns[addr].SetReadDeadline(time.Now().Add(wait))
			n, err := rd.ReadSamples(bufs)
			if err != nil {
				break
			}
			if n == 0 {
				if zeros++; zeros > 4 {
					break
				}
			}
			h := rd.Header()
			p := packet{To: addr, Flags: int(h.Flags), Note: int(h.Notification), Seq: int(h.Idx), B: make([]int, 0, 4*n)}
			for _, s := range bufs[:n] {
				a, b := le(real(s))
				c, d := le(imag(s))
				p.B = append(p.B, a, b, c, d)
			}
			total += len(p.B)
			r.Got = append(r.Got, p)
		}
	}
	return r
}

func main() {
	vk.Each(func(line []byte) {
		var q request
		vk.Parse(line, &q)
		switch q.M {
		case "listen":
			c, err := net.ListenPacket("udp", q.Arg)
			if err != nil {
				vk.Fatal("%v", err)
			}
			c.(*net.UDPConn).SetReadBuffer(1 << 20)
			a := c.LocalAddr().String()
			conns[a], readers[a] = c, borip.NewPacketReader(c, true)
			emit(&response{M: "listen", Vals: []string{a}})
		case "read":
			emit(read(q))
		default:
			ch := queues[q.C]
			if ch == nil {
				ch = make(chan request, 4)
				queues[q.C] = ch
				go func() {
					var cl *borip.BorIP
					for q := range ch {
						var r *response
						if p := vk.Catch(func() { cl, r = api(cl, q) }); p != "" {
							r = &response{C: q.C, M: q.M, Err: 2, Text: p, Vals: []string{}, Dev: []string{}, Held: []string{}, Got: []packet{}}
						}
						emit(r)
					}
				}()
			}
			ch <- q
		}
	})
}
