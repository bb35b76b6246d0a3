package rdns

import (
	"testing"
	"time"

	"github.com/miekg/dns"
)

func TestVerifM05(t *testing.T) {
	h := vfStart(t, 8*time.Second)
	defer h.finish()
	for h.more() {
		q := h.query()
		a := h.answer(q)
		for i := range a.Answer {
			if h.one(3) {
				a.Answer[i].Header().Rrtype = q.Question[0].Qtype
			}
			if h.one(8) {
				a.Answer[i].Header().Class = dns.ClassCHAOS
			}
		}
		fails, drops := h.one(12), h.one(12)
		up := &vfRes{name: "up", f: func(*dns.Msg, ClientInfo) (*dns.Msg, error) {
			if fails {
				return nil, vfErr
			}
			if drops {
				return nil, nil
			}
			return a, nil
		}}
		collapse := h.one(2)
		null := []int{dns.RcodeSuccess, dns.RcodeNameError, dns.RcodeServerFailure, dns.RcodeRefused}[h.rng.Intn(4)]
		h.begin("collapse=%v null-rcode=%d fails=%v drops=%v q=%s a=%s", collapse, null, fails, drops, vfShow(q), vfShow(a))
		var r Resolver = NewResponseMinimize(vfID("m05"), up)
		if collapse {
			r = NewResponseCollapse(vfID("m05"), up, ResponseCollapseOptions{NullRCode: null})
		}
		want := a.Copy()
		var got *dns.Msg
		var err error
		h.guard("panic", func() { got, err = r.Resolve(q, ClientInfo{}) })
		if fails || drops {
			if got != nil || (err != nil) != fails {
				h.fail("outcome", "%v %v", got, err)
			}
			continue
		}
		if !collapse {
			want.Ns, want.Extra = nil, nil
		} else if a.Rcode == dns.RcodeSuccess {
			var keep []dns.RR
			for _, rr := range want.Answer {
				if rr.Header().Rrtype == q.Question[0].Qtype && rr.Header().Class == q.Question[0].Qclass {
					rr.Header().Name = q.Question[0].Name
					keep = append(keep, rr)
				}
			}
			want.Answer = keep
			if len(keep) == 0 {
				if err != nil || got == nil || got.Rcode != null || got.Id != q.Id || !got.Response || len(got.Answer) != 0 || len(got.Question) != 1 || got.Question[0] != q.Question[0] {
					h.fail("nothing-left", "%v %v", got, err)
				}
				continue
			}
		}
		if err != nil || vfShow(got) != vfShow(want) {
			h.fail("response", "got %s (%v)\nwant %s", vfShow(got), err, vfShow(want))
		}
	}
}
