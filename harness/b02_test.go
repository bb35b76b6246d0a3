package rdns

import (
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// vfDB is a list with a fixed verdict.
type vfDB struct {
	ips   []net.IP
	names []string
	ok    bool
	n     int
}

func (d *vfDB) Reload() (BlocklistDB, error) { return d, nil }
func (d *vfDB) Match(q *dns.Msg) ([]net.IP, []string, *BlocklistMatch, bool) {
	d.n++
	if !d.ok {
		return nil, nil, nil, false
	}
	return d.ips, d.names, &BlocklistMatch{List: "l", Rule: "r"}, true
}
func (d *vfDB) String() string { return "vfdb" }

func TestVerifB02(t *testing.T) {
	h := vfStart(t, 8*time.Second)
	defer h.finish()
	ipsets := [][]net.IP{nil, {net.IPv4(1, 2, 3, 4)}, {net.IPv4(1, 2, 3, 4).To4(), nil, net.IPv4(5, 6, 7, 8)}, {net.ParseIP("2001:db8::1")}, {net.ParseIP("2001:db8::1"), net.IPv4(1, 2, 3, 4).To4(), nil, net.ParseIP("2001:db8::2")}}
	namesets := [][]string{nil, {"a.example."}, {"a.example.", "b.example."}}
	many := make([]string, 14)
	for i := range many {
		many[i] = fmt.Sprintf("n%d.example.", i)
	}
	namesets = append(namesets, many)
	types := []uint16{dns.TypeA, dns.TypeAAAA, dns.TypePTR, dns.TypeTXT, dns.TypeANY, dns.TypeHTTPS}
	run := func(allow, block, allowRes, blockRes bool, hasAllow bool, multi bool, ips []net.IP, names []string, q *dns.Msg, fail bool) {
		h.begin("allowlist=%v/%v blocklist=%v allowres=%v blockres=%v multi=%v ips=%v names=%v upstreamfails=%v %s", hasAllow, allow, block, allowRes, blockRes, multi, ips, names, fail, vfShow(q))
		if hasAllow == false {
			allow = false
		}
		mk := func(n string) *vfRes {
			return &vfRes{name: n, f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
				if fail {
					return nil, vfErr
				}
				a := new(dns.Msg)
				a.SetReply(q)
				a.Answer = []dns.RR{&dns.TXT{Hdr: dns.RR_Header{Name: "x.", Rrtype: dns.TypeTXT, Class: 1, Ttl: 5}, Txt: []string{n}}}
				return a, nil
			}}
		}
		up, ar, br := mk("up"), mk("ar"), mk("br")
		var bdb BlocklistDB = &vfDB{ok: block, ips: ips, names: names}
		if multi {
			bdb, _ = NewMultiDB(&vfDB{}, bdb, &vfDB{ok: block, ips: []net.IP{net.IPv4(9, 9, 9, 9), net.ParseIP("2001:db8::9")}, names: []string{"wrong."}})
		}
		opt := BlocklistOptions{BlocklistDB: bdb}
		if hasAllow {
			opt.AllowlistDB = &vfDB{ok: allow, ips: []net.IP{net.IPv4(8, 8, 8, 8)}, names: []string{"allow."}}
		}
		if allowRes {
			opt.AllowListResolver = ar
		}
		if blockRes {
			opt.BlocklistResolver = br
		}
		b, err := NewBlocklist(vfID("b02"), up, opt)
		if err != nil {
			h.fail("new", "%v", err)
			return
		}
		orig := vfShow(q)
		var a *dns.Msg
		h.guard("panic", func() { a, err = b.Resolve(q, ClientInfo{}) })
		if vfShow(q) != orig {
			h.fail("query-changed", "query changed to %s", vfShow(q))
		}
		expect := ""
		switch {
		case allow && allowRes:
			expect = "ar"
		case allow:
			expect = "up"
		case !block:
			expect = "up"
		case q.Question[0].Qtype == dns.TypePTR && len(names) > 0:
			expect = ""
		case blockRes:
			expect = "br"
		}
		for _, r := range []*vfRes{up, ar, br} {
			want := 0
			if r.name == expect {
				want = 1
			}
			if r.count() != want {
				h.fail("wrong-resolver", "%s asked %d times, want %d (allowed=%v blocked=%v)", r.name, r.count(), want, allow, block)
				return
			}
			if want == 1 {
				if vfShow(r.query()) != orig {
					h.fail("forwarded-changed", "resolver got %s", vfShow(r.query()))
				}
				if fail != (err != nil) {
					h.fail("outcome", "error %v", err)
				}
				if !fail && (len(a.Answer) != 1 || a.Answer[0].(*dns.TXT).Txt[0] != expect) {
					h.fail("outcome", "answer %s", vfShow(a))
				}
			}
		}
		if expect != "" {
			return
		}
		if err != nil || a == nil {
			h.fail("local-error", "answer %v error %v", a, err)
			return
		}
		if a.Id != q.Id || !a.Response || len(a.Question) != 1 || a.Question[0] != q.Question[0] {
			h.fail("local-header", "%s", vfShow(a))
		}
		var want []string
		switch q.Question[0].Qtype {
		case dns.TypePTR:
			for i, n := range names {
				if i < 10 {
					want = append(want, "PTR "+n)
				}
			}
		case dns.TypeA:
			for _, ip := range ips {
				if ip.To4() != nil {
					want = append(want, "A "+ip.String())
				}
			}
		case dns.TypeAAAA:
			for _, ip := range ips {
				if ip != nil && ip.To4() == nil {
					want = append(want, "AAAA "+ip.String())
				}
			}
		}
		var got []string
		for _, rr := range a.Answer {
			if rr.Header().Name != q.Question[0].Name || rr.Header().Rrtype != q.Question[0].Qtype {
				h.fail("local-record", "%v", rr)
			}
			switch r := rr.(type) {
			case *dns.A:
				got = append(got, "A "+r.A.String())
			case *dns.AAAA:
				got = append(got, "AAAA "+r.AAAA.String())
			case *dns.PTR:
				got = append(got, "PTR "+r.Ptr)
			default:
				got = append(got, rr.String())
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			h.fail("local-answer", "answered %v, list provides %v", got, want)
		}
		rc := dns.RcodeNameError
		if len(want) > 0 {
			rc = dns.RcodeSuccess
		}
		if a.Rcode != rc {
			h.fail("local-rcode", "rcode %d with %d records", a.Rcode, len(got))
		}
	}
	for _, ty := range types {
		for mask := 0; mask < 64; mask++ {
			for _, ips := range ipsets {
				for ni, names := range namesets {
					if ty != dns.TypePTR && ni > 1 {
						continue
					}
					q := h.query()
					q.Question[0].Qtype, q.Question[0].Qclass = ty, dns.ClassINET
					// addresses of the wrong family are never handed out by a list for this type
					var fit []net.IP
					for _, ip := range ips {
						if ty == dns.TypeAAAA && ip.To4() != nil && len(ip) == 16 {
							continue
						}
						fit = append(fit, ip)
					}
					run(mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0, mask&16 != 0, mask&32 != 0, fit, names, q, h.one(4))
				}
			}
		}
		if !h.more() {
			break
		}
	}
}
