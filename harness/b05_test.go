package rdns

import (
	"net"
	"testing"
	"time"

	"github.com/miekg/dns"
)

func TestVerifB05(t *testing.T) {
	h := vfStart(t, 8*time.Second)
	defer h.finish()
	for h.more() {
		q := h.query()
		var src net.IP
		switch h.rng.Intn(8) {
		case 0:
		case 1, 2:
			src = h.ip6()
		case 3:
			src = h.ip4().To16()
		default:
			src = h.ip4()
		}
		useECS, hasBR := h.one(2), h.one(2)
		fails := h.one(6)
		test := src
		found := false
		if o := q.IsEdns0(); o != nil && useECS {
			for _, x := range o.Option {
				if e, ok := x.(*dns.EDNS0_SUBNET); ok && !found {
					test, found = e.Address, true
				}
			}
		}
		list := vfIPList{}
		listed := h.one(2)
		if test != nil {
			list[test.String()] = listed
		}
		if src != nil && !src.Equal(test) {
			list[src.String()] = !listed
		}
		var db IPBlocklistDB = list
		if h.one(3) {
			db, _ = NewMultiIPDB(vfIPList{}, list, vfIPList{})
		}
		mk := func(n string) *vfRes {
			return &vfRes{name: n, f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
				if fails {
					return nil, vfErr
				}
				a := new(dns.Msg)
				a.SetReply(q)
				a.Answer = []dns.RR{&dns.TXT{Hdr: dns.RR_Header{Name: "x.", Rrtype: dns.TypeTXT, Class: 1, Ttl: 5}, Txt: []string{n}}}
				return a, nil
			}}
		}
		up, br := mk("up"), mk("br")
		opt := ClientBlocklistOptions{BlocklistDB: db, UseECS: useECS}
		if hasBR {
			opt.BlocklistResolver = br
		}
		h.begin("client=%v use-ecs=%v tested=%v listed=%v resolver=%v fails=%v %s", src, useECS, test, listed, hasBR, fails, vfShow(q))
		r, err := NewClientBlocklist(vfID("b05"), up, opt)
		if err != nil {
			h.fail("new", "%v", err)
			return
		}
		qs := vfShow(q)
		var a *dns.Msg
		h.guard("panic", func() { a, err = r.Resolve(q, ClientInfo{SourceIP: src}) })
		blocked := test != nil && listed
		wantUp, wantBR := 0, 0
		if !blocked {
			wantUp = 1
		} else if hasBR {
			wantBR = 1
		}
		if up.count() != wantUp || br.count() != wantBR {
			h.fail("wrong-resolver", "normal resolver asked %d times (want %d), blocklist resolver %d (want %d)", up.count(), wantUp, br.count(), wantBR)
			continue
		}
		for _, x := range []*vfRes{up, br} {
			if x.count() == 1 {
				if vfShow(x.query()) != qs {
					h.fail("query-changed", "%s", vfShow(x.query()))
				}
				if fails != (err != nil) || (!fails && (len(a.Answer) != 1 || a.Answer[0].(*dns.TXT).Txt[0] != x.name)) {
					h.fail("outcome", "%v %v", a, err)
				}
			}
		}
		if wantUp+wantBR == 0 && (err != nil || a == nil || a.Rcode != dns.RcodeRefused || a.Id != q.Id || !a.Response || len(a.Answer) != 0) {
			h.fail("not-refused", "%v %v", a, err)
		}
	}
}
