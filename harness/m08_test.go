package rdns

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/miekg/dns"
)

func TestVerifM08(t *testing.T) {
	h := vfStart(t, 8*time.Second)
	defer h.finish()
	pool := []string{"IN A 192.0.2.1", "1.2.3.4 60 IN A 192.0.2.2", "example.org. 300 IN A 192.0.2.3", "IN AAAA 2001:db8::1", "x.test. IN TXT \"a\" \"b\"", "example.net. IN NS ns.example.net.", "IN MX 10 mx.test.", "IN CNAME other.test."}
	pick := func(max int) (out []string) {
		for i := h.rng.Intn(max + 1); i > 0; i-- {
			out = append(out, pool[h.rng.Intn(len(pool))])
		}
		return
	}
	for h.more() {
		q := h.query()
		opt := StaticResolverOptions{Answer: pick(4), NS: pick(2), Extra: pick(2), RCode: []int{0, 0, 2, 3, 5}[h.rng.Intn(5)], Truncate: h.one(5)}
		if h.one(4) {
			opt.EDNS0EDETemplate, _ = NewEDNS0EDETemplate(uint16(h.rng.Intn(20)+1), "blocked {{ .Question }}")
		}
		tpl := h.one(2)
		var texts []string
		if tpl {
			for i := range opt.Answer {
				switch h.rng.Intn(4) {
				case 0:
					opt.Answer[i] = "{{ .Question }} 60 IN TXT \"{{ .QuestionType }}\""
				case 1:
					opt.Answer[i] = `{{ if eq .QuestionType "A" }}{{ .Question }} IN A 192.0.2.9{{ end }}`
				case 2:
					opt.Answer[i] = `{{ .Question }} IN A not-an-address`
				}
			}
		}
		texts = opt.Answer
		h.begin("template=%v %+v q=%s", tpl, opt, vfShow(q))
		var r Resolver
		var err error
		if tpl {
			r, err = NewStaticTemplateResolver(vfID("m08"), opt)
		} else {
			r, err = NewStaticResolver(vfID("m08"), opt)
		}
		if err != nil {
			h.fail("new", "%v", err)
			continue
		}
		expect := func(in []string, renamed bool) (out []string) {
			for _, s := range in {
				if tpl {
					s = strings.ReplaceAll(s, "{{ .Question }}", q.Question[0].Name)
					s = strings.ReplaceAll(s, "{{ .QuestionType }}", dns.TypeToString[q.Question[0].Qtype])
					if strings.HasPrefix(s, "{{ if") {
						if q.Question[0].Qtype != dns.TypeA {
							continue
						}
						s = strings.TrimSuffix(s[strings.Index(s, "}}")+2:], "{{ end }}")
					}
				}
				rr, err := dns.NewRR(s)
				if err != nil {
					continue
				}
				if renamed {
					rr.Header().Name = q.Question[0].Name
				}
				out = append(out, rr.String())
			}
			return
		}
		check := func(a *dns.Msg, err error) bool {
			if err != nil || a == nil {
				h.fail("outcome", "%v %v", a, err)
				return false
			}
			if a.Id != q.Id || !a.Response || len(a.Question) != 1 || a.Question[0] != q.Question[0] || a.Opcode != q.Opcode || a.Rcode != opt.RCode || a.Truncated != opt.Truncate {
				h.fail("reply", "%s", vfShow(a))
			}
			for n, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
				var got []string
				for _, rr := range s {
					if rr == nil {
						h.fail("nil-record", "section %d: %v", n, s)
						return false
					}
					if _, ok := rr.(*dns.OPT); ok && n == 2 && opt.EDNS0EDETemplate != nil {
						e, _ := rr.(*dns.OPT).Option[0].(*dns.EDNS0_EDE)
						if e == nil || e.InfoCode != opt.EDNS0EDETemplate.infoCode || e.ExtraText != "blocked "+q.Question[0].Name {
							h.fail("ede", "%v", rr)
						}
						continue
					}
					got = append(got, rr.String())
				}
				want := expect([][]string{texts, opt.NS, opt.Extra}[n], n == 0 && !tpl)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					h.fail("records", "section %d: %v, want %v", n, got, want)
				}
			}
			if _, err := a.Pack(); err != nil && !strings.Contains(err.Error(), "rcode") {
				h.fail("pack", "%v", err)
			}
			return true
		}
		h.guard("panic", func() {
			for i := 0; i < 3; i++ {
				a, err := r.Resolve(q, ClientInfo{})
				if !check(a, err) {
					return
				}
				for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
					for _, rr := range s {
						rr.Header().Name, rr.Header().Ttl = "changed.", 77
						switch x := rr.(type) {
						case *dns.A:
							x.A[len(x.A)-1] = 99
						case *dns.TXT:
							x.Txt[0] = "changed"
						}
					}
				}
			}
		})
		for n, f := range map[int]func(*dns.Msg) *dns.Msg{dns.RcodeNameError: nxdomain, dns.RcodeServerFailure: servfail, dns.RcodeRefused: refused} {
			a := f(q)
			if a == nil || a.Rcode != n || a.Id != q.Id || !a.Response || len(a.Question) != 1 || a.Question[0] != q.Question[0] || len(a.Answer)+len(a.Ns)+len(a.Extra) != 0 {
				h.fail("local-code", "rcode %d: %v", n, a)
			}
		}
		if a, err := NewDropResolver(vfID("m08d")).Resolve(q, ClientInfo{}); a != nil || err != nil {
			h.fail("drop", "%v %v", a, err)
		}
	}
}
