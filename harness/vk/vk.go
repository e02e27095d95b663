// Package vk: helpers shared by the harness drivers.
package vk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

var out = bufio.NewWriterSize(os.Stdout, 1<<20)

var total int

// Emit writes one trace line.
func Emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		Fatal("marshal: %v", err)
	}
	if par {
		w := where()
		w.out = append(append(w.out, b...), '\n')
		return
	}
	out.Write(b)
	out.WriteByte('\n')
	if total += len(b); total > 400<<20 { // without end
		out.Flush()
		fmt.Fprintln(os.Stderr, "the record does not end")
		os.Exit(4)
	}
}

// Parallel runs: every goroutine that carries out scenarios has a place of its
// own for its output, so that the driver adds no order between them.
type place struct{ out []byte }

var (
	par    bool
	places map[uint64]*place // not changed after the start
)

func id() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	x, _, _ := strings.Cut(strings.TrimPrefix(string(b[:n]), "goroutine "), " ")
	v, err := strconv.ParseUint(x, 10, 64)
	if err != nil {
		Fatal("goroutine id %q", b[:n])
	}
	return v
}

func where() *place {
	w := places[id()]
	if w == nil {
		Fatal("output from a goroutine that carries out no scenario")
	}
	return w
}

// eachPar: n goroutines at once; scenario i is carried out by goroutine i mod n.
func eachPar(n int, all [][]byte, mk func() func(line []byte)) {
	par, places = true, map[uint64]*place{}
	res := make([][]byte, len(all))
	var mu sync.Mutex
	var ready, done sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < n; g++ {
		ready.Add(1)
		done.Add(1)
		go func(g int) {
			defer done.Done()
			w, f := &place{}, mk()
			mu.Lock()
			places[id()] = w
			mu.Unlock()
			ready.Done()
			<-start
			for i := g; i < len(all); i += n {
				w.out = nil
				f(all[i])
				res[i] = append(w.out, "{\"op\":\"sep\"}\n"...)
			}
		}(g)
	}
	ready.Wait()
	close(start)
	done.Wait()
	for _, b := range res {
		out.Write(b)
	}
	out.Flush()
}

func Flush() { out.Flush() }

// Fatal ends the driver with the code that means "harness trouble".
func Fatal(f string, a ...interface{}) {
	out.Flush()
	fmt.Fprintf(os.Stderr, "HARNESS: "+f+"\n", a...)
	os.Exit(3)
}

// Each calls f for every JSON line on standard input.
func Each(f func(line []byte)) { EachOf(func() func([]byte) { return f }) }

// EachOf is Each with something of its own for every goroutine.
func EachOf(mk func() func(line []byte)) {
	f := mk()
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	n, _ := strconv.Atoi(os.Getenv("VERIF_PAR"))
	var all [][]byte
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			if n > 0 {
				all = append(all, line)
			} else {
				f(line)
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			Fatal("stdin: %v", err)
		}
	}
	if n > 0 {
		eachPar(n, all, mk)
	}
	out.Flush()
}

func Parse(line []byte, v interface{}) {
	if err := json.Unmarshal(line, v); err != nil {
		Fatal("bad scenario line: %v", err)
	}
}

// Catch runs f and reports a panic (faults included) as text, "" if none.
func Catch(f func()) (msg string) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Within runs f in its own goroutine and reports whether it ended in time.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func B2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func Codes(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func Ints(b []byte) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = int(v)
	}
	return r
}

func Marshal(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		Fatal("marshal: %v", err)
	}
	return b
}
