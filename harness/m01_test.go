package rdns

import (
	"testing"
	"time"

	"github.com/miekg/dns"
)

func vfTTLs(m *dns.Msg) (ttls []uint32, opts []uint32) {
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, rr := range s {
			if _, ok := rr.(*dns.OPT); ok {
				opts = append(opts, rr.Header().Ttl)
			} else {
				ttls = append(ttls, rr.Header().Ttl)
			}
		}
	}
	return
}

func vfZeroTTL(m *dns.Msg) string {
	m = m.Copy()
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, rr := range s {
			if _, ok := rr.(*dns.OPT); !ok {
				rr.Header().Ttl = 0
			}
		}
	}
	return vfShow(m)
}

func TestVerifM01(t *testing.T) {
	h := vfStart(t, 8*time.Second)
	defer h.finish()
	rules := []struct {
		name string
		f    TTLSelectFunc
	}{{"none", nil}, {"lowest", TTLSelectLowest}, {"highest", TTLSelectHighest}, {"average", TTLSelectAverage}, {"first", TTLSelectFirst}, {"last", TTLSelectLast}, {"random", TTLSelectRandom}}
	for h.more() {
		q := h.query()
		a := h.answer(q)
		if h.one(10) {
			a.Answer, a.Ns = nil, nil
		}
		fails, drops := h.one(12), h.one(12)
		up := &vfRes{name: "up", f: func(*dns.Msg, ClientInfo) (*dns.Msg, error) {
			if fails {
				return nil, vfErr
			}
			if drops {
				return nil, nil
			}
			return a, nil
		}}
		rule := rules[h.rng.Intn(len(rules))]
		min, max := h.ttl(), h.ttl()
		if max != 0 && min > max {
			min, max = max, min
		}
		if rule.name == "random" && min == 0 && max == 1<<32-1 && h.one(2) {
			max = 7
		}
		h.begin("rule=%s min=%d max=%d fails=%v drops=%v %s", rule.name, min, max, fails, drops, vfShow(a))
		r := NewTTLModifier(vfID("m01"), up, TTLModifierOptions{SelectFunc: rule.f, MinTTL: min, MaxTTL: max})
		if max == 0 {
			max = 1<<32 - 1
		}
		before, opts := vfTTLs(a)
		shape := vfZeroTTL(a)
		var got *dns.Msg
		var err error
		h.guard("panic", func() { got, err = r.Resolve(q, ClientInfo{}) })
		if fails || drops {
			if got != nil || (err != nil) != fails {
				h.fail("outcome", "%v %v", got, err)
			}
			continue
		}
		if err != nil || got == nil {
			h.fail("outcome", "%v %v", got, err)
			continue
		}
		after, opts2 := vfTTLs(got)
		if vfZeroTTL(got) != shape {
			h.fail("changed", "something besides the TTLs changed: %s", vfShow(got))
		}
		for i := range opts {
			if i < len(opts2) && opts[i] != opts2[i] {
				h.fail("edns", "EDNS0 record changed from %d to %d", opts[i], opts2[i])
			}
		}
		if len(after) != len(before) || len(before) == 0 {
			continue
		}
		clamp := func(v uint32) uint32 {
			if v < min {
				v = min
			}
			if v > max {
				v = max
			}
			return v
		}
		lo, hi, sum := before[0], before[0], uint64(0)
		for _, v := range before {
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
			sum += uint64(v)
		}
		for i, v := range after {
			want := v
			switch rule.name {
			case "none":
				want = clamp(before[i])
			case "lowest":
				want = clamp(lo)
			case "highest":
				want = clamp(hi)
			case "first":
				want = clamp(before[0])
			case "last":
				want = clamp(before[len(before)-1])
			case "average":
				want = clamp(uint32(sum / uint64(len(before))))
			case "random":
				if v != after[0] {
					h.fail("random", "TTLs differ: %v", after)
				}
			}
			if v != want {
				h.fail("ttl-"+rule.name, "TTL %d became %d, want %d (all: %v)", before[i], v, want, before)
			}
			if v < min || v > max {
				h.fail("bounds", "TTL %d outside %d-%d", v, min, max)
			}
		}
	}
}
