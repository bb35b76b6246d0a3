package rdns

import (
	"fmt"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// vfFailed says whether an outcome counts as a failure: the error, the failure codes, or an
// answer without any usable record when the group treats those as errors.
// The third result is false where the statement leaves the verdict open.
func vfFailed(a *dns.Msg, err error, servfail, empty bool) (failed, known bool) {
	if err != nil {
		return true, true
	}
	if a == nil {
		return false, true
	}
	switch a.Rcode {
	case dns.RcodeServerFailure:
		if servfail {
			return true, true
		}
	case dns.RcodeRefused, dns.RcodeNotImplemented:
		return true, true
	}
	if !empty {
		return false, true
	}
	if a.Rcode != dns.RcodeSuccess || a.IsEdns0() != nil || (len(a.Answer) > 0 && a.Question[0].Qtype == dns.TypeANY) {
		return false, false
	}
	for _, rr := range a.Answer {
		if rr.Header().Rrtype == a.Question[0].Qtype {
			return false, true
		}
	}
	return true, true
}

type vfOutcome struct {
	a   *dns.Msg
	err error
}

func TestVerifG01(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	ids := map[string]string{}
	id := func(k string) string {
		if ids[k] == "" {
			ids[k] = vfID("g01")
		}
		return ids[k]
	}
	for h.more() {
		n := 1 + h.rng.Intn(5)
		servfail, empty := h.one(2), h.one(2)
		q := h.query()
		type call struct {
			who int
			out vfOutcome
			q   *dns.Msg
		}
		var calls []call
		var members []Resolver
		failBias := h.rng.Intn(4)
		desc := ""
		for i := 0; i < n; i++ {
			i := i
			// one outcome per member, so that fail-over order matters
			var o vfOutcome
			switch k := h.rng.Intn(8); {
			case k == 0 || (failBias > 0 && k < 2+failBias):
				o.err = vfErr
				desc += fmt.Sprintf(" %d:error", i)
			case k == 1:
				desc += fmt.Sprintf(" %d:drop", i)
			default:
				o.a = h.answer(q)
				if h.one(2) {
					o.a.Answer = nil
				}
				if h.one(2) {
					o.a.Extra = nil
				}
				desc += fmt.Sprintf(" %d:{%s}", i, vfShow(o.a))
			}
			members = append(members, &vfRes{name: fmt.Sprintf("m%d", i), f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
				calls = append(calls, call{i, o, q})
				return o.a, o.err
			}})
		}
		kind := h.rng.Intn(5)
		var g Resolver
		reset := time.Duration(0)
		switch kind {
		case 0:
			g = NewFailRotate(id("fr"), FailRotateOptions{ServfailError: servfail, EmptyError: empty}, members...)
		case 1:
			g = NewFailBack(id("fb"), FailBackOptions{ServfailError: servfail, EmptyError: empty}, members...)
		case 2:
			reset = time.Hour
			g = NewFailBack(id("fb"), FailBackOptions{ResetAfter: reset, ServfailError: servfail, EmptyError: empty}, members...)
		case 3:
			if h.evals > 4000 {
				continue // a random group leaves a sleeping goroutine per failure
			}
			g = NewRandom(id("rnd"), RandomOptions{ResetAfter: time.Hour, ServfailError: servfail, EmptyError: empty}, members...)
		case 4:
			g = NewLoadBalance(id("lb"), LoadBalanceOptions{ServfailError: servfail, EmptyError: empty, FailurePenalty: time.Duration(h.rng.Intn(2)) * time.Second}, members...)
		}
		name := []string{"fail-rotate", "fail-back", "fail-back with reset", "random", "load-balance"}[kind]
		rounds := 1 + h.rng.Intn(3)
		if kind == 3 {
			rounds = 1
		}
		preferred := 0
		for r := 0; r < rounds; r++ {
			calls = nil
			h.begin("%s servfail=%v empty=%v round=%d query=%s members:%s", name, servfail, empty, r, vfShow(q), desc)
			var a *dns.Msg
			var err error
			h.guard("group-panic", func() { a, err = g.Resolve(q, ClientInfo{}) })
			if len(calls) == 0 || len(calls) > n {
				h.fail("ask-count", "asked %d times with %d members", len(calls), n)
				continue
			}
			last := calls[len(calls)-1]
			open := false
			for i, c := range calls {
				f, known := vfFailed(c.out.a, c.out.err, servfail, empty)
				if !known {
					open = true
				}
				if known && i < len(calls)-1 && !f {
					h.fail("success-ignored", "call %d succeeded but another member was asked", i)
				}
				if vfShow(c.q) != vfShow(q) {
					h.fail("query-changed", "member %d saw %s", c.who, vfShow(c.q))
				}
			}
			f, known := vfFailed(last.out.a, last.out.err, servfail, empty)
			if known && f && len(calls) < n {
				h.fail("gave-up-early", "gave up after %d failures of %d members", len(calls), n)
			}
			if known && !f && (a != last.out.a || err != nil) {
				h.fail("success-changed", "success %v returned as %v, %v", vfShow(last.out.a), vfShow(a), err)
			}
			if known && f && kind == 3 && err == nil {
				h.fail("failure-hidden", "all members failed but no error was reported")
			}
			if known && f && kind != 3 && kind != 4 && (a != last.out.a || err != last.out.err) {
				h.fail("failure-changed", "last outcome %v,%v returned as %v,%v", last.out.a, last.out.err, a, err)
			}
			if known && f && kind == 4 && last.out.err != nil && err == nil {
				h.fail("failure-hidden", "last outcome was error %v, but none was returned", last.out.err)
			}
			if open {
				break
			}
			switch kind {
			case 0, 2: // the preference moves one step per failure and stays on the member that answered
				for i, c := range calls {
					if c.who != (preferred+i)%n {
						h.fail("wrong-member", "call %d went to member %d, expected %d", i, c.who, (preferred+i)%n)
					}
				}
				if f {
					preferred = (preferred + len(calls)) % n
				} else {
					preferred = (preferred + len(calls) - 1) % n
				}
			case 1: // every query starts over with the first member
				for i, c := range calls {
					if c.who != i {
						h.fail("wrong-member", "call %d went to member %d, expected %d", i, c.who, i)
					}
				}
			case 3, 4:
				seen := map[int]bool{}
				for _, c := range calls {
					if seen[c.who] {
						h.fail("member-asked-twice", "member %d asked twice for one query", c.who)
					}
					seen[c.who] = true
				}
			}
		}
	}
}
