package rdns

import (
	"fmt"
	"net"
	"testing"
	"time"
)

func TestVerifB03(t *testing.T) {
	h := vfStart(t, 14*time.Second)
	defer h.finish()
	contains := func(nets []*net.IPNet, ip net.IP) bool {
		for _, n := range nets {
			if n.Contains(ip) {
				return true
			}
		}
		return false
	}
	rnd4 := func() net.IP {
		b := net.IP{byte(h.rng.Intn(256)), byte(h.rng.Intn(256)), byte(h.rng.Intn(256)), byte(h.rng.Intn(256))}
		if h.one(4) {
			b = net.IP{10, 0, 0, byte(h.rng.Intn(4))}
		}
		if h.one(20) {
			b = net.IP{0, 0, 0, 0}
		}
		if h.one(20) {
			b = net.IP{255, 255, 255, 255}
		}
		return b
	}
	rnd6 := func() net.IP {
		b := make(net.IP, 16)
		h.rng.Read(b)
		if h.one(3) {
			b = net.ParseIP(fmt.Sprintf("2001:db8::%x", h.rng.Intn(16)))
		}
		if h.one(10) {
			b = make(net.IP, 16)
		}
		if b.To4() != nil {
			b[0] = 0x20
		}
		return b
	}
	flip := func(ip net.IP, bit int) net.IP {
		o := append(net.IP{}, ip...)
		o[bit/8] ^= 0x80 >> (bit % 8)
		return o
	}
	check := func(rules []string, probes []net.IP, multi bool) {
		h.begin("rules=%v multi=%v", rules, multi)
		h.guard("panic", func() {
			var nets []*net.IPNet
			for _, r := range rules {
				if ip := net.ParseIP(r); ip != nil {
					b := 128
					if ip.To4() != nil {
						ip, b = ip.To4(), 32
					}
					nets = append(nets, &net.IPNet{IP: ip, Mask: net.CIDRMask(b, b)})
					continue
				}
				if _, n, err := net.ParseCIDR(r); err == nil {
					nets = append(nets, n)
				}
			}
			var db IPBlocklistDB
			var err error
			if multi {
				k := h.rng.Intn(len(rules) + 1)
				a, e1 := NewCidrDB("a", NewStaticLoader(rules[:k]))
				b, e2 := NewCidrDB("b", NewStaticLoader(rules[k:]))
				if e1 != nil || e2 != nil {
					h.fail("load-error", "%v %v", e1, e2)
					return
				}
				db, err = NewMultiIPDB(a, b)
			} else {
				db, err = NewCidrDB("list", NewStaticLoader(rules))
			}
			if err != nil {
				h.fail("load-error", "%v", err)
				return
			}
			for _, p := range probes {
				want := contains(nets, p)
				if _, got := db.Match(p); got != want {
					h.fail("match", "address %v (%d bytes): match=%v, rules say %v", p, len(p), got, want)
					return
				}
				if p4 := p.To4(); p4 != nil {
					if _, got := db.Match(p4.To16()); got != want {
						h.fail("match-16", "address %v in 16 bytes: match=%v, rules say %v", p, got, want)
						return
					}
				}
			}
		})
	}
	// one network: every prefix length, every bit flipped
	for l := 0; l <= 32; l++ {
		ip := rnd4()
		probes := []net.IP{ip}
		for b := 0; b < 32; b++ {
			probes = append(probes, flip(ip, b))
		}
		check([]string{fmt.Sprintf("%v/%d", ip, l)}, probes, false)
		for m := 0; m <= 32; m += 1 + h.rng.Intn(3) {
			r := []string{fmt.Sprintf("%v/%d", ip, l), fmt.Sprintf("%v/%d", flip(ip, h.rng.Intn(32)), m)}
			check(r, probes, h.one(2))
			check([]string{r[1], r[0]}, probes, false)
		}
	}
	for l := 0; l <= 128; l++ {
		ip := rnd6()
		probes := []net.IP{ip}
		for b := 0; b < 128; b++ {
			if p := flip(ip, b); p.To4() == nil {
				probes = append(probes, p)
			}
		}
		check([]string{fmt.Sprintf("%v/%d", ip, l)}, probes, false)
		m := h.rng.Intn(129)
		r := []string{fmt.Sprintf("%v/%d", ip, l), fmt.Sprintf("%v/%d", flip(ip, h.rng.Intn(128)), m)}
		check(r, probes, h.one(2))
		check([]string{r[1], r[0]}, probes, false)
	}
	for h.more() {
		n := 1 + h.rng.Intn(12)
		var rules []string
		var probes []net.IP
		base4, base6 := rnd4(), rnd6()
		for i := 0; i < n; i++ {
			ip := base4
			if h.one(2) {
				ip = flip(base4, h.rng.Intn(32))
			}
			max := 32
			mapped := false
			switch h.rng.Intn(8) {
			case 0, 1, 2:
				ip, max = base6, 128
				if h.one(2) {
					ip = flip(base6, h.rng.Intn(128))
				}
			case 3:
				ip = rnd4()
			case 4:
				mapped = true
			}
			switch {
			case mapped:
				rules = append(rules, fmt.Sprintf("::ffff:%v/%d", ip, 96+h.rng.Intn(33)))
			case h.one(6):
				rules = append(rules, ip.String())
			case h.one(10):
				rules = append(rules, "# comment", "")
			default:
				rules = append(rules, fmt.Sprintf("%v/%d", ip, h.rng.Intn(max+1)))
			}
		}
		for i := 0; i < 24; i++ {
			probes = append(probes, flip(base4, h.rng.Intn(32)), rnd4())
			if p := flip(base6, h.rng.Intn(128)); p.To4() == nil {
				probes = append(probes, p)
			}
			probes = append(probes, rnd6())
		}
		probes = append(probes, base4, base6, net.IP{0, 0, 0, 0})
		check(rules, probes, h.one(4))
	}
}
