// Driver for borip.PacketReader: a stand-in packet connection hands out the
// scenario's datagrams and errors.
package main

import (
	"errors"
	"math"
	"net"
	"os"
	"time"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/zzv/vk"
)

type item struct {
	Data []int  `json:"data"`
	Err  string `json:"err"` // receive error instead of data
}
type scenario struct {
	Headers int    `json:"headers"`
	Queue   []item `json:"queue"`
	Reads   []int  `json:"reads"` // sizes of the caller's slices
	Drain   int    `json:"drain"` // then read with this size until the queue is empty (0: no)
	Scratch int    `json:"scratch"`
	Nil     int    `json:"nil"` // zero-length reads use a nil slice
}

type recvErr struct{ s string }

func (e *recvErr) Error() string { return e.s }

var errEmpty = &recvErr{"queue empty"}

type conn struct {
	q       []item
	got     [][2]interface{} // received by the current call
	scratch bool
	last    error
	empties int
}

func (c *conn) ReadFrom(p []byte) (int, net.Addr, error) {
	if len(c.q) == 0 {
		if c.empties++; c.empties > 1000 { // asked again and again within one call
			panic("empty")
		}
		c.last = errEmpty
		c.got = append(c.got, [2]interface{}{[]int{}, "empty"})
		return 0, nil, errEmpty
	}
	it := c.q[0]
	c.q = c.q[1:]
	if c.scratch {
		for i := range p {
			p[i] = 0xa5
		}
	}
	if it.Err != "" {
		e := &recvErr{it.Err}
		c.last = e
		c.got = append(c.got, [2]interface{}{[]int{}, it.Err})
		return 0, nil, e
	}
	n := 0
	for n < len(it.Data) && n < len(p) {
		p[n] = byte(it.Data[n])
		n++
	}
	c.got = append(c.got, [2]interface{}{it.Data, ""})
	return n, &net.UDPAddr{}, nil
}
func (c *conn) WriteTo(p []byte, a net.Addr) (int, error) { return len(p), nil }
func (c *conn) Close() error                              { return nil }
func (c *conn) LocalAddr() net.Addr                       { return &net.UDPAddr{} }
func (c *conn) SetDeadline(t time.Time) error             { return nil }
func (c *conn) SetReadDeadline(t time.Time) error         { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error        { return nil }

const canary = 123456.5

func whole(f float64) int {
	if f != math.Trunc(f) || math.Abs(f) > 1e6 {
		return 999999
	}
	return int(f)
}

func run(sc scenario) {
	c := &conn{q: sc.Queue, scratch: sc.Scratch == 1}
	rd := borip.NewPacketReader(c, sc.Headers == 1)
	vk.Emit(map[string]interface{}{"op": "new", "headers": sc.Headers})
	hdr := func() []int {
		h := rd.Header()
		return []int{int(h.Flags), int(h.Notification), int(h.Idx)}
	}
	// the flag bits of the header as a caller asks for them; FlagStremEnd is left out
	flags := func() []int {
		f := []int{}
		for _, m := range []byte{borip.FlagHardwareOverrun, borip.FlagNetworkOverrun, borip.FlagBufferOverrun, borip.FlagEmptyPayload,
			borip.FlagStreamStart, borip.FlagBufferUnderrun, borip.FlagHardwareTimeout} {
			f = append(f, vk.B2i(rd.Header().Flags&m != borip.FlagNone))
		}
		return f
	}
	idle := 0
	read := func(size int) bool {
		back := make([]complex128, size+8)
		for i := range back {
			back[i] = complex(canary, -canary)
		}
		arg := back[4 : 4+size] // the array is longer than the slice
		if size == 0 && sc.Nil == 1 {
			arg = nil
		}
		c.got = [][2]interface{}{}
		c.last = nil
		c.empties = 0
		var n int
		var err error
		msg := "does not return"
		if !vk.Within(30*time.Second, func() { msg = vk.Catch(func() { n, err = rd.ReadSamples(arg) }) }) {
			vk.Emit(map[string]interface{}{"op": "hang", "size": size})
			vk.Flush()
			os.Exit(4)
		}
		ev := map[string]interface{}{"op": "read", "size": size, "n": n, "got": c.got, "panic": vk.B2i(msg != ""), "msg": msg}
		kind := ""
		switch {
		case err == nil:
		case err == error(c.last):
			kind = "recv"
		case errors.Is(err, borip.ErrShortPacket) && err == borip.ErrShortPacket:
			kind = "short"
		default:
			kind = "other: " + err.Error()
		}
		ev["err"] = kind
		iq := [][2]int{}
		for i := 0; i < n && i < size; i++ {
			iq = append(iq, [2]int{whole(real(arg[i])), whole(imag(arg[i]))})
		}
		ev["iq"] = iq
		outside := 0
		for i, v := range back {
			if (i < 4 || i >= 4+size || i >= 4+n) && v != complex(canary, -canary) {
				outside++
			}
		}
		ev["outside"] = outside
		ev["hdr"] = hdr()
		ev["flags"] = flags()
		vk.Emit(ev)
		if idle++; n > 0 || len(c.got) > 0 || size == 0 {
			idle = 0
		}
		return msg == "" && idle < 5
	}
	for _, n := range sc.Reads {
		if !read(n) {
			return
		}
	}
	if sc.Drain > 0 {
		for k := 0; k < 100000; k++ {
			if !read(sc.Drain) {
				return
			}
			if c.last == error(errEmpty) {
				break
			}
		}
		vk.Emit(map[string]interface{}{"op": "drained"})
	}
}

func main() {
	vk.Each(func(line []byte) {
		var sc scenario
		vk.Parse(line, &sc)
		run(sc)
	})
}
