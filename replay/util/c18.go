package util

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC18(t *testing.T) {
	h := newVH(t)
	for i := 0; i < 200000 && h.more(1); i++ {
		n := h.r.Intn(230)
		if h.r.Intn(10) == 0 {
			n = h.r.Intn(3)
		}
		raw := make([]byte, n)
		h.r.Read(raw)
		if n > 0 && h.r.Intn(8) != 0 {
			raw[0] &= 0xf8
		}
		h.try(func() string { return fmt.Sprintf("%d bytes %x", len(raw), raw) }, func() string {
			var names []string
			var parts [][]byte
			at := 1
			take := func(name string, bit byte) {
				names = append(names, name)
				if raw[0]&bit == 0 {
					parts = append(parts, nil)
					return
				}
				if at+32 <= len(raw) {
					parts = append(parts, raw[at:at+32])
				}
				at += 32
			}
			ok := n > 0 && raw[0] != 0 && raw[0]&7 == 0
			if ok {
				take("universe", 0x80)
				take("cluster", 0x40)
				take("federation", 0x20)
				take("service", 0x10)
				take("shard start", 0x08)
				take("shard end", 0x08)
				ok = at <= len(raw)
			}
			in := append([]byte{}, raw...)
			c, err := NewMappedConsensusID(in)
			if (err == nil) != ok {
				return fmt.Sprintf("error %v", err)
			}
			if !ok {
				return ""
			}
			chk := func(c *MappedConsensusID, in []byte) string {
				got := [][]byte{c.universe_id, c.cluster_id, c.federation_id, c.service_id, c.shard_start, c.shard_end}
				for k, g := range got {
					if (g == nil) != (parts[k] == nil) || !bytes.Equal(g, parts[k]) {
						return fmt.Sprintf("%s is %x", names[k], g)
					}
				}
				if c.ConsensusMagic() != raw[0] {
					return fmt.Sprintf("magic is %x", c.ConsensusMagic())
				}
				if !bytes.Equal(c.Buf(), in[:at]) {
					return fmt.Sprintf("kept bytes are %x", c.Buf())
				}
				return ""
			}
			if m := chk(c, in); m != "" {
				return m
			}
			d := c.Copy().(*MappedConsensusID)
			for k := range in {
				in[k] ^= 0xff
			}
			if m := chk(d, raw); m != "" {
				return "copy: " + m
			}
			return ""
		})
	}
	t.Logf("%d cases", h.n)
}
