package collection

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

// vh drives a search for a concrete input on which the real code breaks a property.
type vh struct {
	t     *testing.T
	r     *rand.Rand
	start time.Time
	n     int
	cur   atomic.Value // func() string
	since atomic.Int64
}

func newVH(t *testing.T) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &vh{t: t, r: rand.New(rand.NewSource(seed + 1)), start: time.Now()}
	go func() {
		for {
			time.Sleep(time.Second)
			s := h.since.Load()
			if s != 0 && time.Now().UnixNano()-s > 20e9 {
				h.record(h.cur.Load().(func() string)() + "\nobserved: the call does not come back (20 s)")
				os.Exit(3)
			}
		}
	}()
	return h
}

// more: is there time left for further cases (a share of about 60 s)
func (h *vh) more(share float64) bool { return time.Since(h.start).Seconds() < 60*share }

func (h *vh) record(s string) {
	if f := os.Getenv("VERIF_FOUND"); f != "" {
		os.WriteFile(f, []byte(s+"\n"), 0644)
	}
}

// try runs one case; f returns "" when the property holds on it.
func (h *vh) try(desc func() string, f func() string) {
	h.n++
	if tr := os.Getenv("VERIF_TRACE"); tr != "" {
		os.WriteFile(tr, []byte(desc()), 0644)
	}
	h.cur.Store(desc)
	h.since.Store(time.Now().UnixNano())
	msg := func() (m string) {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if len(st) > 1500 {
					st = st[:1500]
				}
				m = fmt.Sprintf("run-time fault: %v\n%s", e, st)
			}
		}()
		return f()
	}()
	h.since.Store(0)
	if msg != "" {
		s := "failing input: " + desc() + "\nobserved: " + msg
		h.record(s)
		h.t.Fatal(s)
	}
}

func (h *vh) bytes(max int) []byte {
	n := h.r.Intn(max + 1)
	b := make([]byte, n)
	for i := range b {
		switch h.r.Intn(4) {
		case 0:
			b[i] = byte(h.r.Intn(3))
		case 1:
			b[i] = byte(0xff - h.r.Intn(2))
		default:
			b[i] = byte(h.r.Intn(256))
		}
	}
	return b
}

// u64: numbers of every magnitude, mostly near powers of two
func (h *vh) u64() uint64 {
	switch h.r.Intn(4) {
	case 0:
		return h.r.Uint64()
	case 1:
		return uint64(h.r.Intn(5))
	default:
		return uint64(1)<<uint(h.r.Intn(64)) + uint64(h.r.Intn(5)) - 2
	}
}

func vlist(xs ...interface{}) string {
	var l []string
	for _, x := range xs {
		l = append(l, fmt.Sprintf("%#v", x))
	}
	return strings.Join(l, ", ")
}

func vsgn(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}
