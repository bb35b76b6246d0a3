package rdns

import (
	"bytes"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// vf6052 computes the embedding bit by bit from the text of RFC 6052 section 2.2.
func vf6052(prefix net.IP, plen int, v4 net.IP) net.IP {
	out := make(net.IP, 16)
	for i := 0; i < plen; i++ {
		out[i/8] |= prefix[i/8] & (0x80 >> (i % 8))
	}
	pos := plen
	for i := 0; i < 32; i++ {
		if pos == 64 {
			pos = 72
		}
		if v4[i/8]&(0x80>>(i%8)) != 0 {
			out[pos/8] |= 0x80 >> (pos % 8)
		}
		pos++
	}
	return out
}

func TestVerifM04(t *testing.T) {
	h := vfStart(t, 9*time.Second)
	defer h.finish()
	okLen := map[int]bool{32: true, 40: true, 48: true, 56: true, 64: true, 96: true}
	for n := 0; n <= 128; n++ {
		p := fmt.Sprintf("2001:db8:1:2:3:4:5:6/%d", n)
		h.begin("prefix %s", p)
		_, err := NewDNS64(vfID("m04"), &vfRes{}, DNS64Options{Prefixes: []string{p}})
		if (err == nil) != okLen[n] {
			h.fail("prefix-length", "accepted: %v", err == nil)
		}
	}
	for h.more() {
		var ps []string
		var nets []*net.IPNet
		for i := h.rng.Intn(3); i >= 0; i-- {
			l := []int{32, 40, 48, 56, 64, 96}[h.rng.Intn(6)]
			b := make(net.IP, 16)
			h.rng.Read(b)
			b[0] = 0x20
			b[8] = 0
			s := fmt.Sprintf("%s/%d", b, l)
			_, n, err := net.ParseCIDR(s)
			if err != nil {
				continue
			}
			ps = append(ps, s)
			nets = append(nets, n)
		}
		var first, second *dns.Msg
		var e1, e2 error
		var asked []uint16
		up := &vfRes{f: func(q *dns.Msg, _ ClientInfo) (*dns.Msg, error) {
			asked = append(asked, q.Question[0].Qtype)
			if len(asked) == 1 {
				return first, e1
			}
			return second, e2
		}}
		d, err := NewDNS64(vfID("m04"), up, DNS64Options{Prefixes: ps})
		q := h.query()
		if h.rng.Intn(4) > 0 {
			q.Question[0].Qtype = dns.TypeAAAA
		}
		first, second = h.answer(q), h.answer(q)
		if h.one(2) {
			first.Rcode, first.Answer = 0, nil
		}
		if h.one(2) {
			second.Rcode = 0
		}
		many := 3
		if h.one(8) {
			many = 40
		}
		for i := h.rng.Intn(many); i > 0; i-- {
			v4 := net.IPv4(byte(h.rng.Intn(256)), byte(h.rng.Intn(256)), byte(h.rng.Intn(256)), byte(h.rng.Intn(256)))
			if h.one(2) {
				v4 = v4.To4()
			}
			second.Answer = append(second.Answer, &dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1, Ttl: h.ttl()}, A: v4})
		}
		if h.one(10) {
			first, e1 = nil, nil
			if h.one(2) {
				e1 = vfErr
			}
		}
		if h.one(10) {
			second, e2 = nil, nil
			if h.one(2) {
				e2 = vfErr
			}
		}
		var firstShow = vfShow(first)
		h.begin("prefixes %v query %s first %s second %s", ps, vfShow(q), firstShow, vfShow(second))
		if err != nil {
			h.fail("prefix-refused", "%v", err)
			continue
		}
		var a *dns.Msg
		h.guard("panic", func() { a, err = d.Resolve(q, ClientInfo{}) })
		native := false
		if first != nil {
			for _, rr := range first.Answer {
				native = native || rr.Header().Rrtype == dns.TypeAAAA
			}
		}
		do := false
		if o := q.IsEdns0(); o != nil {
			do = o.Do()
		}
		want := q.Question[0].Qtype == dns.TypeAAAA && e1 == nil && first != nil && first.Rcode == 0 && !native && !do
		if !want {
			if len(asked) != 1 || a != first || err != e1 || vfShow(a) != firstShow {
				h.fail("not-passed-through", "asked %v, got %s %v", asked, vfShow(a), err)
			}
			continue
		}
		if len(asked) != 2 || asked[1] != dns.TypeA {
			h.fail("lookup", "asked %v", asked)
			continue
		}
		var expect []dns.AAAA
		if e2 == nil && second != nil && second.Rcode == 0 {
			for _, rr := range second.Answer {
				if r, ok := rr.(*dns.A); ok {
					for _, n := range nets {
						ones, _ := n.Mask.Size()
						expect = append(expect, dns.AAAA{Hdr: dns.RR_Header{Ttl: r.Hdr.Ttl}, AAAA: vf6052(n.IP, ones, r.A.To4())})
					}
				}
			}
		}
		if len(expect) == 0 {
			if a != first || err != nil {
				h.fail("no-synthesis", "got %s %v", vfShow(a), err)
			}
			continue
		}
		var got []*dns.AAAA
		if a != nil {
			for _, rr := range a.Answer {
				if r, ok := rr.(*dns.AAAA); ok {
					got = append(got, r)
				}
			}
		}
		if len(got) != len(expect) {
			h.fail("count", "%d records instead of %d", len(got), len(expect))
			continue
		}
		for i := range got {
			if !bytes.Equal(got[i].AAAA, expect[i].AAAA) {
				h.fail("address", "%s instead of %s", got[i].AAAA, expect[i].AAAA)
			}
			if got[i].Hdr.Ttl > expect[i].Hdr.Ttl {
				h.fail("ttl", "TTL %d from a record with %d", got[i].Hdr.Ttl, expect[i].Hdr.Ttl)
			}
		}
	}
}
