// Replays behaviours of Ber.tla on librpki.BER2DER.
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
)

type rec struct {
	I, O json.RawMessage
	Ok   bool
	Lax  bool
}

func content(m json.RawMessage) []byte {
	var lit []int
	if json.Unmarshal(m, &lit) == nil {
		b := make([]byte, len(lit))
		for i, x := range lit {
			b[i] = byte(x)
		}
		return b
	}
	var runs []struct{ B, N int }
	if err := json.Unmarshal(m, &runs); err != nil {
		panic(err)
	}
	var b []byte
	for _, r := range runs {
		b = append(b, bytes.Repeat([]byte{byte(r.B)}, r.N)...)
	}
	return b
}

func short(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...(%d bytes)", b[:80], len(b))
	}
	return hex.EncodeToString(b)
}

var mu sync.Mutex
var enc = json.NewEncoder(os.Stdout)

func bad(what string, in []byte, detail string) {
	mu.Lock()
	enc.Encode(map[string]string{"what": what, "in": short(in), "detail": detail})
	mu.Unlock()
}

func call(in []byte) (out []byte, err error, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint(r)
		}
	}()
	c := append([]byte{}, in...)
	out, err = librpki.BER2DER(c)
	if !bytes.Equal(c, in) {
		crash = "input modified"
	}
	return
}

func check(in, want []byte, ok, lax bool) {
	out, err, crash := call(in)
	switch {
	case crash != "":
		bad("crash", in, crash)
	case err != nil && ok && !lax:
		bad("rejected", in, err.Error())
	case err == nil && !ok:
		bad("accepted", in, short(out))
	case err == nil && !bytes.Equal(out, want):
		bad("differs", in, "got "+short(out)+" want "+short(want))
	case err == nil:
		again, err, crash := call(out)
		if err != nil || crash != "" || !bytes.Equal(out, again) {
			bad("not idempotent", in, short(again))
		}
	}
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	// a watchdog: no input may run forever
	go func() {
		time.Sleep(500 * time.Second)
		fmt.Println(`{"what":"hang"}`)
		os.Exit(0)
	}()
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	ch := make(chan []byte, 1000)
	n := 0
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed + int64(k)))
			c := 0
			for l := range ch {
				var r rec
				if err := json.Unmarshal(l, &r); err != nil {
					panic(err)
				}
				in, want := content(r.I), content(r.O)
				check(in, want, r.Ok, r.Lax)
				c++
				// only the first object counts
				if r.Ok {
					check(append(append([]byte{}, in...), 0xff, 0, 0x30), want, true, r.Lax)
					c++
					// cut anywhere it is no object any more
					if len(in) > 1 {
						cut := in[:1+rng.Intn(len(in)-1)]
						if len(in) > 40 && rng.Intn(2) == 0 {
							cut = in[:len(in)-1-rng.Intn(4)]
						}
						if string(in) == string(want) { // definite throughout: a prefix is never complete
							check(cut, nil, false, false)
						} else if _, _, crash := call(cut); crash != "" {
							bad("crash", cut, crash)
						}
						c++
					}
				}
			}
			mu.Lock()
			n += c
			mu.Unlock()
		}(k)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	for sc.Scan() {
		ch <- append([]byte{}, sc.Bytes()...)
	}
	close(ch)
	wg.Wait()
	if len(os.Args) > 3 {
		n += deep()
		n += noise(seed)
	}
	enc.Encode(map[string]int{"replayed": n})
}

// Nesting: any depth gives an answer, up to maxOK the exact one.
func deep() int {
	n := 0
	for _, d := range []int{1, 5, 20, 60, 100, 300, 1000, 10000, 300000, 2000000} {
		for _, tag := range [][]byte{{0x30}, {0xbf, 0x81, 0x02}, {0x24}} {
			open := bytes.Repeat(append(append([]byte{}, tag...), 0x80), d)
			closed := append(append(append([]byte{}, open...), 2, 1, 5), make([]byte, 2*d)...)
			want := []byte{2, 1, 5}
			if d <= 100 {
				for i := 0; i < d; i++ {
					want = append(append(append([]byte{}, tag...), length(len(want))...), want...)
				}
				check(closed, want, true, false)
				check(want, want, true, false)
			} else {
				out, err, crash := call(closed)
				if crash != "" {
					bad("crash", closed, crash)
				}
				if err == nil {
					if again, err, _ := call(out); err != nil || !bytes.Equal(out, again) {
						bad("not idempotent", closed, "")
					}
				}
			}
			check(open, nil, false, false)
			n += 3
		}
	}
	return n
}

func length(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	var b []byte
	for ; n > 0; n >>= 8 {
		b = append([]byte{byte(n)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

// Announced lengths far beyond the data
func noise(seed int64) int {
	n := 0
	for _, l := range [][]byte{{0x84, 0x7f, 0xff, 0xff, 0xff}, {0x84, 0xff, 0xff, 0xff, 0xff}, {0x85, 1, 0, 0, 0, 0}, {0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
		{0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x84, 0, 0, 0, 1}, {0xff}, {0x83, 0xff, 0xff, 0xff}, {0x84, 0x80, 0, 0, 0}} {
		for _, tag := range [][]byte{{2}, {0x30}, {0x1f, 0x22}, {0x1f, 0x80, 1}, {0x3f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}} {
			for _, pre := range [][]byte{{}, {0x30, 0x80}, {0x30, 20}} {
				in := append(append(append([]byte{}, pre...), tag...), l...)
				check(append(in, 5, 5, 5), nil, false, true)
				n++
			}
		}
	}
	return n
}
