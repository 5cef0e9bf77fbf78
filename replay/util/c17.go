package util

import (
	"fmt"
	"testing"
)

func TestVerifC17(t *testing.T) {
	h := newVH(t)
	gen := func() uint32 {
		if h.r.Intn(2) == 0 {
			return uint32(h.r.Intn(3))
		}
		return uint32(h.u64())
	}
	cmp := func(a, b IConsensusTime) (o [6]bool, e [6]error) {
		o[0], e[0] = a.GT(b)
		o[1], e[1] = a.GE(b)
		o[2], e[2] = a.EQ(b)
		o[3], e[3] = a.NE(b)
		o[4], e[4] = a.LT(b)
		o[5], e[5] = a.LE(b)
		return
	}
	names := []string{"GT", "GE", "EQ", "NE", "LT", "LE"}
	for i := 0; i < 300000 && h.more(1); i++ {
		a := NewRaftTime(gen(), gen(), gen())
		b := NewRaftTime(gen(), gen(), gen())
		la, lb := NewLedgerTime(gen()), NewLedgerTime(gen())
		want := func(sg int) [6]bool { return [6]bool{sg > 0, sg >= 0, sg == 0, sg != 0, sg < 0, sg <= 0} }
		sg := func(x, y []uint32) int {
			for i := range x {
				if x[i] != y[i] {
					if x[i] < y[i] {
						return -1
					}
					return 1
				}
			}
			return 0
		}
		one := func(x, y IConsensusTime, s int, same bool) string {
			o, e := cmp(x, y)
			w := want(s)
			for k := range o {
				if (e[k] == nil) != same {
					return fmt.Sprintf("%s: error %v", names[k], e[k])
				}
				if same && o[k] != w[k] {
					return fmt.Sprintf("%s answers %v, expected %v", names[k], o[k], w[k])
				}
			}
			return ""
		}
		h.try(func() string { return fmt.Sprintf("raft times %+v and %+v, ledger times %+v and %+v", *a, *b, *la, *lb) }, func() string {
			va, vb := []uint32{a.term, a.millis, a.count}, []uint32{b.term, b.millis, b.count}
			if m := one(a, b, sg(va, vb), true); m != "" {
				return "raft " + m
			}
			if m := one(la, lb, sg([]uint32{la.epoch}, []uint32{lb.epoch}), true); m != "" {
				return "ledger " + m
			}
			if m := one(a, la, 0, false) + one(la, a, 0, false); m != "" {
				return "different kinds: " + m
			}
			for _, x := range []IConsensusTime{a, la} {
				buf := append([]byte{}, x.Buf()...)
				y, err := NewConsensusTime(append(buf[:len(buf):len(buf)], h.bytes(3)...))
				if err != nil {
					return fmt.Sprintf("decoding %x: %v", buf, err)
				}
				if eq, err := x.EQ(y); err != nil || !eq {
					return fmt.Sprintf("decoding %x gives %+v", buf, y)
				}
				if r, ok := y.(*RaftTime); ok && *r != *a {
					return fmt.Sprintf("decoding %x gives %+v", buf, *r)
				}
				if n := h.r.Intn(len(buf)); true {
					if y, err := NewConsensusTime(buf[:n]); err == nil {
						return fmt.Sprintf("decoding the truncated %x gives %+v", buf[:n], y)
					}
				}
			}
			return ""
		})
		raw := h.bytes(16)
		h.try(func() string { return fmt.Sprintf("decoding %x", raw) }, func() string {
			_, err := NewConsensusTime(raw)
			ok := len(raw) >= 5 && raw[0] == 1 || len(raw) >= 13 && raw[0] == 2
			if (err == nil) != ok {
				return fmt.Sprintf("error %v", err)
			}
			return ""
		})
	}
	t.Logf("%d cases", h.n)
}
