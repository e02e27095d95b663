// Package rtl stands in for the receiver driver: every call is sent to the
// harness over a unix socket and returns what the harness answers; sample
// buffers are delivered to the stream callback when the harness says so.
package rtl

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"sync"
)

type msg struct {
	ID   int    `json:"id,omitempty"`   // call number
	Call string `json:"call,omitempty"` // driver function
	H    int    `json:"h"`              // handle
	Arg  int64  `json:"arg"`
	Cb   int    `json:"cb,omitempty"` // 1: callback returned
	Stop int    `json:"stop"`
	N    int    `json:"n"` // buffers delivered
}
type answer struct {
	ID      int    `json:"id"`
	Val     int64  `json:"val"`
	Str     string `json:"str"`
	List    []int  `json:"list"`
	Err     string `json:"err"`
	Deliver int    `json:"deliver"` // 1: a buffer for handle H
	H       int    `json:"h"`
	Data    []byte `json:"data"`
	Nil     int    `json:"nil"`
	Rep     int    `json:"rep"` // deliver the buffer so often
}

var (
	mu      sync.Mutex
	conn    net.Conn
	nextID  int
	waiting = map[int]chan answer{}
	streams = map[int]chan answer{}
)

func send(m msg) {
	b, _ := json.Marshal(m)
	if _, err := conn.Write(append(b, '\n')); err != nil {
		os.Exit(9)
	}
}

func dial() {
	if conn != nil {
		return
	}
	c, err := net.Dial("unix", os.Getenv("VERIF_RTL"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "rtl stand-in:", err)
		os.Exit(9)
	}
	conn = c
	go func() {
		rd := bufio.NewReaderSize(c, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				os.Exit(9)
			}
			var a answer
			if err := json.Unmarshal(line, &a); err != nil {
				fmt.Fprintln(os.Stderr, "rtl stand-in:", err)
				os.Exit(9)
			}
			mu.Lock()
			if a.Deliver != 0 {
				streams[a.H] <- a
			} else {
				waiting[a.ID] <- a
				delete(waiting, a.ID)
			}
			mu.Unlock()
		}
	}()
}

func call(name string, h int, arg int64) answer {
	mu.Lock()
	dial()
	nextID++
	ch := make(chan answer, 1)
	waiting[nextID] = ch
	send(msg{ID: nextID, Call: name, H: h, Arg: arg})
	mu.Unlock()
	return <-ch
}

func (a answer) error() error {
	if a.Err != "" {
		return errors.New(a.Err)
	}
	return nil
}

type Device struct{ h int }

func GetDeviceCount() int        { return int(call("GetDeviceCount", 0, 0).Val) }
func GetDeviceName(i int) string { return call("GetDeviceName", 0, int64(i)).Str }
func (dev *Device) do(name string, arg int64) answer {
	return call(name, dev.h, arg) // a nil device is a crash, as in the driver
}

func Open(index int) (*Device, error) {
	a := call("Open", 0, int64(index))
	if a.Err != "" {
		return nil, a.error()
	}
	return &Device{int(a.Val)}, nil
}
func (dev *Device) Close() error { return dev.do("Close", 0).error() }
func (dev *Device) SetCenterFreq(freq uint) error {
	return dev.do("SetCenterFreq", int64(freq)).error()
}
func (dev *Device) SetSampleRate(rate uint) error {
	return dev.do("SetSampleRate", int64(rate)).error()
}
func (dev *Device) SetTunerGain(gain int) error { return dev.do("SetTunerGain", int64(gain)).error() }
func (dev *Device) SetTunerGainMode(manual bool) error {
	return dev.do("SetTunerGainMode", b2i(manual)).error()
}
func (dev *Device) SetAGCMode(on bool) error { return dev.do("SetAGCMode", b2i(on)).error() }
func (dev *Device) ResetBuffer() error       { return dev.do("ResetBuffer", 0).error() }
func (dev *Device) GetCenterFreq() (uint, error) {
	a := dev.do("GetCenterFreq", 0)
	return uint(a.Val), a.error()
}
func (dev *Device) GetSampleRate() (int, error) {
	a := dev.do("GetSampleRate", 0)
	return int(a.Val), a.error()
}
func (dev *Device) GetTunerGain() (int, error) {
	a := dev.do("GetTunerGain", 0)
	return int(a.Val), a.error()
}
func (dev *Device) GetTunerGains() ([]int, error) {
	a := dev.do("GetTunerGains", 0)
	return a.List, a.error()
}
func (dev *Device) GetXtalFreq() (rtlFreq, tunerFreq uint, err error) {
	a := dev.do("GetXtalFreq", 0)
	return 28800000, uint(a.Val), a.error()
}
func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// ReadAsync starts the stream and returns; the callback gets every buffer
// until it returns true, and nil when the driver ends the stream.
func (dev *Device) ReadAsync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	h := dev.h
	mu.Lock()
	ch := make(chan answer, 4)
	streams[h] = ch
	mu.Unlock()
	if a := dev.do("ReadAsync", int64(bufferSize)); a.Err != "" {
		return a.error()
	}
	go func() {
		// the driver reuses its memory
		mem := make([]byte, 1<<18)
		for a := range ch {
			stop, n := false, 0
			for {
				n++
				if a.Nil != 0 {
					cb(nil)
					stop = true
				} else {
					b := mem[:len(a.Data)]
					copy(b, a.Data)
					stop = cb(b)
					for i := range b {
						b[i] = 0xA5
					}
				}
				if stop || n >= a.Rep {
					break
				}
			}
			mu.Lock()
			send(msg{Cb: 1, H: h, Stop: int(b2i(stop)), N: n})
			mu.Unlock()
			if stop {
				return
			}
		}
	}()
	return nil
}

// ReadAsyncUsingSync is ReadAsync.
func (dev *Device) ReadAsyncUsingSync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	return dev.ReadAsync(nBuffers, bufferSize, cb)
}
