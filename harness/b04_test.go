package rdns

import (
	"net"
	"strings"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// vfIPList is a list of addresses with a fixed content.
type vfIPList map[string]bool

func (d vfIPList) Reload() (IPBlocklistDB, error) { return d, nil }
func (d vfIPList) Match(ip net.IP) (*BlocklistMatch, bool) {
	if d[ip.String()] {
		return &BlocklistMatch{List: "l", Rule: "r"}, true
	}
	return nil, false
}
func (d vfIPList) Close() error   { return nil }
func (d vfIPList) String() string { return "vfiplist" }

// vfNameList is a list of names with a fixed content.
type vfNameList map[string]bool

func (d vfNameList) Reload() (BlocklistDB, error) { return d, nil }
func (d vfNameList) Match(q *dns.Msg) ([]net.IP, []string, *BlocklistMatch, bool) {
	if d[q.Question[0].Name] {
		return nil, nil, &BlocklistMatch{List: "l", Rule: "r"}, true
	}
	return nil, nil, nil, false
}
func (d vfNameList) String() string { return "vfnamelist" }

func vfRecordName(rr dns.RR) (string, bool) {
	switch r := rr.(type) {
	case *dns.CNAME:
		return r.Target, true
	case *dns.MX:
		return r.Mx, true
	case *dns.NS:
		return r.Ns, true
	case *dns.PTR:
		return r.Ptr, true
	case *dns.SRV:
		return r.Target, true
	case *dns.TXT:
		return strings.Join(r.Txt, " "), true
	case *dns.SOA:
		return r.Ns, true
	case *dns.SVCB:
		return vfSvcText(r), true
	case *dns.HTTPS:
		return vfSvcText(&r.SVCB), true
	}
	return "", false
}

func vfSvcText(r *dns.SVCB) string {
	s := r.Target
	for _, v := range r.Value {
		s += " " + v.Key().String() + "=" + v.String()
	}
	return s
}

func TestVerifB04(t *testing.T) {
	h := vfStart(t, 12*time.Second)
	defer h.finish()
	svc := func() dns.SVCB {
		s := dns.SVCB{Hdr: dns.RR_Header{Name: "example.com.", Rrtype: dns.TypeSVCB, Class: 1, Ttl: 60}, Priority: 1, Target: h.name()}
		if h.one(2) {
			s.Value = append(s.Value, &dns.SVCBAlpn{Alpn: []string{"h2", "h3"}})
		}
		return s
	}
	for h.more() {
		q := h.query()
		up := h.answer(q)
		if !h.one(4) {
			up.Rcode = dns.RcodeSuccess
		}
		for h.one(3) {
			s := svc()
			if h.one(2) {
				s.Hdr.Rrtype = dns.TypeHTTPS
				up.Answer = append(up.Answer, &dns.HTTPS{SVCB: s})
			} else {
				up.Answer = append(up.Answer, &s)
			}
		}
		h.rng.Shuffle(len(up.Answer), func(i, j int) { up.Answer[i], up.Answer[j] = up.Answer[j], up.Answer[i] })
		fails := h.one(12)
		inverted, filter, hasBR := h.one(3), h.one(2), h.one(2)
		secs := [][]dns.RR{up.Answer, up.Ns, up.Extra}
		ips, names := vfIPList{}, vfNameList{}
		bias := 1 + h.rng.Intn(5)
		for _, s := range secs {
			for _, rr := range s {
				in := h.one(bias + 1)
				if inverted {
					in = !h.one(4*bias + 1)
				}
				switch r := rr.(type) {
				case *dns.A:
					ips[r.A.String()] = in
				case *dns.AAAA:
					ips[r.AAAA.String()] = in
				}
				if n, ok := vfRecordName(rr); ok {
					names[n] = in
				}
			}
		}
		upstream := &vfRes{name: "up", f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
			if fails {
				return nil, vfErr
			}
			return up, nil
		}}
		br := &vfRes{name: "br", f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = []dns.RR{&dns.TXT{Hdr: dns.RR_Header{Name: "x.", Rrtype: dns.TypeTXT, Class: 1, Ttl: 5}, Txt: []string{"br"}}}
			return a, nil
		}}
		byName := h.one(2)
		badIP := func(rr dns.RR) bool {
			switch r := rr.(type) {
			case *dns.A:
				return ips[r.A.String()] != inverted
			case *dns.AAAA:
				return ips[r.AAAA.String()] != inverted
			}
			return false
		}
		badName := func(rr dns.RR) bool {
			n, ok := vfRecordName(rr)
			return ok && names[n] != inverted
		}
		before := vfShow(up)
		h.begin("names=%v inverted=%v filter=%v resolver=%v upstream=%v fails=%v listed=%v %v", byName, inverted, filter, hasBR, before, fails, ips, names)
		var brr Resolver
		if hasBR {
			brr = br
		}
		var r Resolver
		bad := badIP
		if byName {
			bad = badName
			filter = false
			r, _ = NewResponseBlocklistName(vfID("b04"), upstream, ResponseBlocklistNameOptions{BlocklistResolver: brr, BlocklistDB: names, Inverted: inverted})
		} else {
			r, _ = NewResponseBlocklistIP(vfID("b04"), upstream, ResponseBlocklistIPOptions{BlocklistResolver: brr, BlocklistDB: ips, Filter: filter, Inverted: inverted})
		}
		anyBad := false
		keep := func(s []dns.RR) (out []string) {
			for _, rr := range s {
				if !bad(rr) {
					out = append(out, rr.String())
				}
			}
			return
		}
		for _, s := range secs {
			for _, rr := range s {
				anyBad = anyBad || bad(rr)
			}
		}
		rcode := up.Rcode
		want := [][]string{keep(up.Answer), keep(up.Ns), keep(up.Extra)}
		hadAnswer := len(up.Answer) > 0
		var a *dns.Msg
		var err error
		qs := vfShow(q)
		h.guard("panic", func() { a, err = r.Resolve(q, ClientInfo{}) })
		if upstream.count() != 1 {
			h.fail("upstream-calls", "%d", upstream.count())
		}
		if fails {
			if err != vfErr || a != nil {
				h.fail("failure", "%v %v", a, err)
			}
			continue
		}
		if err != nil || a == nil {
			h.fail("outcome", "%v %v", a, err)
			continue
		}
		if vfShow(q) != qs {
			h.fail("query-changed", "%s", vfShow(q))
		}
		if rcode != dns.RcodeSuccess && !byName {
			if vfShow(a) != before {
				h.fail("other-codes", "response changed to %s", vfShow(a))
			}
			continue
		}
		if !anyBad {
			if vfShow(a) != before || br.count() != 0 {
				h.fail("clean-changed", "response with nothing to block became %s", vfShow(a))
			}
			continue
		}
		if filter && !(hadAnswer && len(want[0]) == 0) {
			got := [][]string{}
			for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
				var o []string
				for _, rr := range s {
					o = append(o, rr.String())
				}
				got = append(got, o)
			}
			for i := range got {
				if strings.Join(got[i], "\n") != strings.Join(want[i], "\n") {
					h.fail("filtered", "section %d is %v, want %v", i, got[i], want[i])
				}
			}
			if a.Id != q.Id || a.Rcode != rcode {
				h.fail("filtered-header", "%s", vfShow(a))
			}
			continue
		}
		if hasBR {
			if br.count() != 1 || vfShow(br.query()) != qs || len(a.Answer) != 1 || a.Answer[0].Header().Name != "x." {
				h.fail("not-diverted", "blocklist resolver asked %d times, answer %s", br.count(), vfShow(a))
			}
			continue
		}
		if br.count() != 0 || a.Rcode != dns.RcodeNameError || len(a.Answer)+len(a.Ns) != 0 || a.Id != q.Id || !a.Response {
			h.fail("not-blocked", "answer %s", vfShow(a))
		}
	}
}
