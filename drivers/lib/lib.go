// Package lib runs a property's cases on the compiled code: exhaustive small cases
// first, then random ones until the budget ends. The last line printed is a JSON result.
package lib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type result struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Fail        string   `json:"fail"`
	Class       string   `json:"class"`
}

type T struct {
	*rand.Rand
	end    time.Time
	mu     sync.Mutex
	res    result
	seen   map[uint64]struct{}
	cur    string
	began  time.Time
	inCase bool
}

var out = os.Stdout

func (t *T) finish() {
	t.res.Distinct = len(t.seen)
	b, _ := json.Marshal(t.res)
	out.Write(append(b, '\n'))
	os.Exit(0)
}

// Run runs f and reports.
func Run(rule string, f func(t *T)) {
	seed := flag.Int64("seed", 1, "")
	budget := flag.Duration("budget", 4*time.Second, "")
	flag.Parse()
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	log.SetOutput(io.Discard)
	t := &T{Rand: rand.New(rand.NewSource(*seed)), end: time.Now().Add(*budget), seen: map[uint64]struct{}{}}
	t.res.Rule = rule
	go func() {
		for {
			time.Sleep(time.Second)
			t.mu.Lock()
			if t.inCase && time.Since(t.began) > 25*time.Second {
				t.res.Fail = "does not terminate (25 s): " + t.cur
				t.finish()
			}
			t.mu.Unlock()
		}
	}()
	if msg := guard(func() string { f(t); return "" }); msg != "" {
		t.mu.Lock()
		t.res.Fail = "outside a case: " + msg
		t.finish()
	}
	t.mu.Lock()
	t.finish()
}

// More tells whether budget is left.
func (t *T) More() bool { return time.Now().Before(t.end) }

func guard(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	return f()
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// Case runs one case; a non-empty result or a panic is a failure and ends the run.
func (t *T) Case(desc string, f func() string) {
	t.mu.Lock()
	t.cur, t.began, t.inCase = desc, time.Now(), true
	t.mu.Unlock()
	msg := guard(f)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.inCase = false
	t.res.Evaluations++
	h := fnv.New64a()
	io.WriteString(h, desc)
	n := len(t.seen)
	if n < 2000000 {
		t.seen[h.Sum64()] = struct{}{}
	}
	if len(t.seen) > n && len(t.res.Samples) < 5 && n%97 == 0 {
		s := desc
		if len(s) > 300 {
			s = s[:300]
		}
		t.res.Samples = append(t.res.Samples, s)
	}
	if msg != "" {
		t.res.Fail = desc + "\n=> " + msg
		t.finish()
	}
}

// Bytes makes random bytes biased to the values that matter to bitstreams.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	m := t.Intn(3)
	for i := range b {
		switch {
		case m == 0:
			b[i] = byte(t.Intn(256))
		case m == 1:
			b[i] = byte(t.Intn(4))
		default:
			if t.Intn(2) == 0 {
				b[i] = []byte{0, 0, 1, 255, 3, 0x65, 0x67, 0x68, 0x40, 0x42, 0x44}[t.Intn(11)]
			} else {
				b[i] = byte(t.Intn(256))
			}
		}
	}
	return b
}

// Bits is a bit-string builder.
type Bits struct {
	B []byte
	N int
}

func (b *Bits) Bit(v int) {
	if b.N%8 == 0 {
		b.B = append(b.B, 0)
	}
	if v&1 == 1 {
		b.B[b.N/8] |= 0x80 >> uint(b.N%8)
	}
	b.N++
}
func (b *Bits) U(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		b.Bit(int(v >> uint(i) & 1))
	}
}
func (b *Bits) UE(v uint64) {
	v++
	n := 0
	for x := v; x > 1; x >>= 1 {
		n++
	}
	b.U(n, 0)
	b.U(n+1, v)
}
func (b *Bits) SE(v int64) {
	if v > 0 {
		b.UE(uint64(2*v - 1))
	} else {
		b.UE(uint64(-2 * v))
	}
}
func (b *Bits) Trail() {
	b.Bit(1)
	for b.N%8 != 0 {
		b.Bit(0)
	}
}
