package rdns

import (
	"bytes"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/miekg/dns"
)

func vfOptShow(o dns.EDNS0) string { return fmt.Sprintf("%T %d %v", o, o.Option(), o) }

func TestVerifM02(t *testing.T) {
	h := vfStart(t, 8*time.Second)
	defer h.finish()
	for h.more() {
		q := h.query()
		src := h.ip4()
		switch h.rng.Intn(3) {
		case 0:
			src = h.ip6()
		case 1:
			src = h.ip4().To16()
		}
		var addr net.IP
		if h.one(3) {
			addr = h.ip4()
			if h.one(2) {
				addr = h.ip6()
			}
		}
		p4, p6 := uint8(h.rng.Intn(33)), uint8(h.rng.Intn(129))
		code, data := uint16(65001+h.rng.Intn(3)), []byte{byte(h.rng.Intn(256))}
		op := []string{"delete", "add", "add-if-missing", "privacy", "none", "opt-delete", "opt-add"}[h.rng.Intn(7)]
		up := &vfRes{name: "up"}
		h.begin("op=%s client=%v addr=%v /%d /%d code=%d %s", op, src, addr, p4, p6, code, vfShow(q))
		var r Resolver
		switch op {
		case "delete":
			r, _ = NewECSModifier(vfID("m02"), up, ECSModifierDelete)
		case "add":
			r, _ = NewECSModifier(vfID("m02"), up, ECSModifierAdd(addr, p4, p6))
		case "add-if-missing":
			r, _ = NewECSModifier(vfID("m02"), up, ECSModifierAddIfMissing(addr, p4, p6))
		case "privacy":
			r, _ = NewECSModifier(vfID("m02"), up, ECSModifierPrivacy(p4, p6))
		case "none":
			r, _ = NewECSModifier(vfID("m02"), up, nil)
		case "opt-delete":
			r, _ = NewEDNS0Modifier(vfID("m02"), up, EDNS0ModifierDelete(code))
		case "opt-add":
			r, _ = NewEDNS0Modifier(vfID("m02"), up, EDNS0ModifierAdd(code, data))
		}
		before := vfShow(q)
		var err error
		h.guard("panic", func() { _, err = r.Resolve(q, ClientInfo{SourceIP: src}) })
		if err != nil || up.count() != 1 {
			h.fail("outcome", "%v, upstream asked %d times", err, up.count())
			continue
		}
		if vfShow(q) != before {
			h.fail("query-changed", "%s", vfShow(q))
		}
		sent := up.query()
		var old, opts []dns.EDNS0
		if o := q.IsEdns0(); o != nil {
			old = o.Option
		}
		if o := sent.IsEdns0(); o != nil {
			opts = o.Option
		}
		ip := src
		if addr != nil {
			ip = addr
		}
		own := func(want []dns.EDNS0) []dns.EDNS0 {
			e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET}
			if v4 := ip.To4(); v4 != nil {
				e.Family, e.SourceNetmask, e.Address = 1, p4, v4.Mask(net.CIDRMask(int(p4), 32))
			} else {
				e.Family, e.SourceNetmask, e.Address = 2, p6, ip.Mask(net.CIDRMask(int(p6), 128))
			}
			return append(want, e)
		}
		var want, rest []dns.EDNS0
		had := false
		for _, o := range old {
			if _, ok := o.(*dns.EDNS0_SUBNET); ok {
				had = true
			} else {
				rest = append(rest, o)
			}
		}
		switch op {
		case "delete":
			want = rest
		case "add":
			want = own(rest)
		case "add-if-missing":
			want = old
			if !had {
				want = own(rest)
			}
		case "privacy":
			for _, o := range old {
				if e, ok := o.(*dns.EDNS0_SUBNET); ok {
					c := *e
					if c.Family == 1 {
						c.SourceNetmask, c.Address = p4, c.Address.To4().Mask(net.CIDRMask(int(p4), 32))
					} else {
						c.SourceNetmask, c.Address = p6, c.Address.Mask(net.CIDRMask(int(p6), 128))
					}
					o = &c
				}
				want = append(want, o)
			}
		case "none":
			want = old
		case "opt-delete", "opt-add":
			for _, o := range old {
				if o.Option() != code {
					want = append(want, o)
				}
			}
			if op == "opt-add" {
				want = append(want, &dns.EDNS0_LOCAL{Code: code, Data: data})
			}
		}
		if len(opts) != len(want) {
			h.fail("options-"+op, "options sent %v, want %v", opts, want)
			continue
		}
		for i := range want {
			if vfOptShow(opts[i]) != vfOptShow(want[i]) {
				h.fail("options-"+op, "option %d is %s, want %s", i, vfOptShow(opts[i]), vfOptShow(want[i]))
			}
			if e, ok := want[i].(*dns.EDNS0_LOCAL); ok && !bytes.Equal(e.Data, opts[i].(*dns.EDNS0_LOCAL).Data) {
				h.fail("data", "%v", opts[i])
			}
		}
		// nothing but the options may differ
		strip := func(m *dns.Msg) string {
			m = m.Copy()
			if o := m.IsEdns0(); o != nil {
				o.Option = nil
			} else {
				m.SetEdns0(4096, false)
			}
			return vfShow(m)
		}
		if strip(q) != strip(sent) {
			h.fail("rest-changed", "sent %s", vfShow(sent))
		}
	}
}
