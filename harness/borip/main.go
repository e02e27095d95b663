// Driver for the borip client library: runs sessions of the real client
// against an in-process server that answers with the scenario's replies.
package main

import (
	"bufio"
	"io"
	"log"
	"math"
	"math/big"
	"math/rand"
	"net"
	"strconv"
	"sync"
	"time"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/zzv/vk"
)

const patience = 4 * time.Second

type step struct {
	M     string `json:"m"`
	Arg   string `json:"arg"`
	Reply []int  `json:"reply"`
	Eof   int    `json:"eof"`
}
type scenario struct {
	Greet    string  `json:"greet"`
	GreetEof int     `json:"greeteof"`
	Mode     string  `json:"mode"` // lock, pipe
	Frag     int     `json:"frag"` // 0 whole replies, 1 byte by byte, 2 random
	Seed     int64   `json:"seed"`
	Ref      int     `json:"ref"`
	Steps    []step  `json:"steps"`
	Close    [][]int `json:"close"` // replies to Close's lines
	After    int     `json:"after"`
}

func str(c []int) string {
	b := make([]byte, len(c))
	for i, v := range c {
		b[i] = byte(v)
	}
	return string(b)
}

// ---- the peer
type peer struct {
	mu     sync.Mutex
	lines  []string
	rest   string
	closed bool
	taken  int
	wake   chan bool
}

func (p *peer) add(f func()) {
	p.mu.Lock()
	f()
	p.mu.Unlock()
	select {
	case p.wake <- true:
	default:
	}
}

// take returns the lines that arrived since the last take, waiting for at
// least n of them (or the end of the connection).
func (p *peer) take(n int) []string {
	dl := time.After(patience)
	for {
		p.mu.Lock()
		if len(p.lines)-p.taken >= n || p.closed {
			r := append([]string{}, p.lines[p.taken:]...)
			p.taken = len(p.lines)
			p.mu.Unlock()
			return r
		}
		p.mu.Unlock()
		select {
		case <-p.wake:
		case <-dl:
			n = 0
		}
	}
}

func (p *peer) waitClosed() bool {
	dl := time.After(patience)
	for {
		p.mu.Lock()
		c := p.closed
		p.mu.Unlock()
		if c {
			return true
		}
		select {
		case <-p.wake:
		case <-dl:
			return false
		}
	}
}

func (p *peer) serve(c *net.TCPConn, sc *scenario, replies []string, eofAt int) {
	c.SetNoDelay(true)
	rng := rand.New(rand.NewSource(sc.Seed))
	send := func(s string) {
		for len(s) > 0 {
			n := len(s)
			if sc.Frag == 1 {
				n = 1
			} else if sc.Frag == 2 {
				n = 1 + rng.Intn(len(s))
			}
			c.Write([]byte(s[:n]))
			s = s[n:]
			if sc.Frag == 2 && rng.Intn(8) == 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}
	if sc.GreetEof == 1 {
		send(sc.Greet)
		c.CloseWrite()
	} else {
		send(sc.Greet + "\n")
	}
	ended := false
	end := func() {
		if !ended {
			c.CloseWrite()
			ended = true
		}
	}
	if sc.Mode == "pipe" {
		go func() {
			all := ""
			for i, r := range replies {
				if i == eofAt {
					break
				}
				all += r + "\n"
			}
			if eofAt >= 0 && eofAt < len(replies) {
				all += replies[eofAt] // part of a line, then nothing
			}
			send(all)
			if eofAt >= 0 {
				end()
			}
		}()
	}
	rd := bufio.NewReader(c)
	k := 0
	for {
		line, err := rd.ReadString('\n')
		if err != nil {
			p.add(func() { p.rest = line; p.closed = true })
			c.Close()
			return
		}
		p.add(func() { p.lines = append(p.lines, line[:len(line)-1]) })
		if sc.Mode != "pipe" {
			if k < len(replies) && k != eofAt && !ended {
				send(replies[k] + "\n")
			} else {
				if k == eofAt && k < len(replies) {
					send(replies[k])
				}
				end()
			}
		}
		k++
	}
}

// ---- calls
type device struct {
	Name   []int   `json:"name"`
	Serial []int   `json:"serial"`
	MinG   []int   `json:"ming"`
	MaxG   []int   `json:"maxg"`
	Step   []int   `json:"step"`
	Fpga   []int   `json:"fpga"`
	Spp    int     `json:"spp"`
	Ants   [][]int `json:"ants"`
}

func num(f float64) []int {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return vk.Codes("?")
	}
	return vk.Codes(strconv.FormatFloat(f, 'f', -1, 64))
}
func dev(d *borip.Device) (device, int) {
	if d == nil {
		return device{[]int{}, []int{}, []int{}, []int{}, []int{}, []int{}, 0, [][]int{}}, 0
	}
	r := device{vk.Codes(d.Name), vk.Codes(d.Serial), num(d.MinGain), num(d.MaxGain), num(d.GainStep), num(d.FPGAFreq),
		d.SamplesPerPacket, [][]int{}}
	for _, a := range d.ValidAntennas {
		r.Ants = append(r.Ants, vk.Codes(a))
	}
	return r, 1
}

type result struct {
	Err    int     `json:"err"`
	EText  []int   `json:"etext"`
	Vals   [][]int `json:"vals"`
	Ret    device  `json:"ret"`
	HasRet int     `json:"hasret"`
	Panic  int     `json:"panic"`
	Hang   int     `json:"hang"`
	Msg    string  `json:"msg"`
}

func arg(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		vk.Fatal("argument %q: %v", s, err)
	}
	return f
}

func call(b *borip.BorIP, s step) *result {
	r := &result{EText: []int{}, Vals: [][]int{}}
	r.Ret, _ = dev(nil)
	var err error
	var vals [][]int
	var ret *borip.Device
	msg := ""
	ok := vk.Within(patience, func() {
		msg = vk.Catch(func() {
			var f float64
			var t string
			switch s.M {
			case "SelectDevice":
				ret, err = b.SelectDevice(s.Arg)
			case "SetFrequency":
				var a1, a2, a3, a4 float64
				a1, a2, a3, a4, err = b.SetFrequency(arg(s.Arg))
				vals = [][]int{num(a1), num(a2), num(a3), num(a4)}
			case "Frequency":
				f, err = b.Frequency()
				vals = [][]int{num(f)}
			case "SetAntenna":
				err = b.SetAntenna(s.Arg)
			case "Antenna":
				t, err = b.Antenna()
				vals = [][]int{vk.Codes(t)}
			case "SetRate":
				f, err = b.SetRate(arg(s.Arg))
				vals = [][]int{num(f)}
			case "Rate":
				f, err = b.Rate()
				vals = [][]int{num(f)}
			case "SetGain":
				err = b.SetGain(arg(s.Arg))
			case "Gain":
				f, err = b.Gain()
				vals = [][]int{num(f)}
			case "SetDestination":
				t, err = b.SetDestination(s.Arg)
				vals = [][]int{vk.Codes(t)}
			case "Destination":
				t, err = b.Destination()
				vals = [][]int{vk.Codes(t)}
			case "SetHeaderEnabled":
				err = b.SetHeaderEnabled(s.Arg == "ON")
			case "HeaderEnabled":
				var on bool
				on, err = b.HeaderEnabled()
				vals = [][]int{vk.Codes(strconv.Itoa(vk.B2i(on)))}
			case "Go":
				err = b.Go()
			case "Stop":
				err = b.Stop()
			default:
				vk.Fatal("method %q", s.M)
			}
		})
	})
	if !ok {
		r.Hang = 1
		return r
	}
	r.Msg = msg
	r.Panic = vk.B2i(msg != "")
	if msg != "" {
		r.Err = 1
		return r
	}
	if err != nil {
		r.Err = 1
		r.EText = vk.Codes(err.Error())
		return r
	}
	if vals != nil {
		r.Vals = vals
	}
	r.Ret, r.HasRet = dev(ret)
	return r
}

// back: the argument on the wire denotes exactly the number that was given.
func back(line string, s step) int {
	i := 0
	for i < len(line) && line[i] != ' ' {
		i++
	}
	if i >= len(line) {
		return 0
	}
	q, ok := new(big.Rat).SetString(line[i+1:])
	if !ok {
		return 0
	}
	f, _ := q.Float64()
	return vk.B2i(f == arg(s.Arg))
}

func dial(sc *scenario, replies []string, eofAt int) (*borip.BorIP, *peer, map[string]interface{}) {
	ln, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		vk.Fatal("listen: %v", err)
	}
	defer ln.Close()
	if sc.GreetEof == 2 { // nobody listens there
		ln.Close()
	}
	p := &peer{wake: make(chan bool, 1)}
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		p.serve(c.(*net.TCPConn), sc, replies, eofAt)
	}()
	var b *borip.BorIP
	msg := ""
	ok := vk.Within(patience, func() { msg = vk.Catch(func() { b, err = borip.Dial(ln.Addr().String()) }) })
	ev := map[string]interface{}{"op": "dial", "eof": vk.B2i(sc.GreetEof > 0), "err": vk.B2i(err != nil), "panic": vk.B2i(msg != ""),
		"hang": vk.B2i(!ok), "msg": msg, "closed": 1}
	if !ok || err != nil || msg != "" {
		b = nil
	}
	if ok && err != nil && sc.GreetEof == 1 { // the connection that did not come about is not left open
		ev["closed"] = vk.B2i(p.waitClosed())
	}
	return b, p, ev
}

func codes(ls []string) [][]int {
	r := [][]int{}
	for _, l := range ls {
		r = append(r, vk.Codes(l))
	}
	return r
}

func run(sc scenario) {
	replies := []string{}
	eofAt := -1
	for i, s := range sc.Steps {
		if s.Eof == 1 && eofAt < 0 {
			eofAt = i
		}
		replies = append(replies, str(s.Reply))
	}
	for _, r := range sc.Close {
		replies = append(replies, str(r))
	}
	b, p, ev := dial(&sc, replies, eofAt)
	vk.Emit(ev)
	if b == nil {
		return
	}
	for i, s := range sc.Steps {
		before, had := dev(b.Device())
		r := call(b, s)
		ls := p.take(1)
		now, has := dev(b.Device())
		e := map[string]interface{}{"op": "call", "m": s.M, "arg": vk.Codes(s.Arg), "reply": s.Reply,
			"eof": vk.B2i(eofAt >= 0 && i >= eofAt), "lines": codes(ls), "err": r.Err, "etext": r.EText, "vals": r.Vals,
			"ret": r.Ret, "hasret": r.HasRet, "panic": r.Panic, "hang": r.Hang, "msg": r.Msg, "has": has, "device": now,
			"hadbefore": had, "before": before, "back": 0}
		if len(ls) > 0 && (s.M == "SetFrequency" || s.M == "SetRate" || s.M == "SetGain") {
			e["back"] = back(ls[0], s)
		}
		if sc.Ref == 1 {
			one := scenario{Greet: "DEVICE -", Mode: "lock"}
			ea := -1
			if eofAt >= 0 && i >= eofAt {
				ea = 0
			}
			rp := ""
			if ea < 0 || i == eofAt {
				rp = str(s.Reply)
			}
			b1, p1, _ := dial(&one, []string{rp}, ea)
			if b1 == nil { // a connection that should have come about
				x := *r
				x.Hang = 1
				e["ref"] = &x
			} else {
				e["ref"] = call(b1, s)
				go func() { b1.Close(); p1.waitClosed() }()
			}
		} else {
			e["ref"] = r
		}
		vk.Emit(e)
		if r.Hang == 1 {
			return
		}
	}
	msg := ""
	ok := vk.Within(patience, func() { msg = vk.Catch(b.Close) })
	closed := ok && p.waitClosed()
	p.mu.Lock()
	rest := p.rest
	p.mu.Unlock()
	vk.Emit(map[string]interface{}{"op": "close", "lines": codes(p.take(0)), "rest": vk.Codes(rest), "closed": vk.B2i(closed),
		"panic": vk.B2i(msg != ""), "msg": msg, "hang": vk.B2i(!ok)})
	if sc.After == 1 && ok {
		for _, m := range []string{"Go", "Rate", "SelectDevice", "HeaderEnabled"} {
			r := call(b, step{M: m, Arg: "x"})
			vk.Emit(map[string]interface{}{"op": "after", "m": m, "err": r.Err, "panic": r.Panic, "hang": r.Hang})
		}
	}
}

func main() {
	log.SetOutput(io.Discard)
	vk.Each(func(line []byte) {
		var sc scenario
		vk.Parse(line, &sc)
		run(sc)
	})
}
