package rdns

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/miekg/dns"
)

func TestVerifM06(t *testing.T) {
	h := vfStart(t, 9*time.Second)
	defer h.finish()
	for h.more() {
		n := uint(h.rng.Intn(4) + 1)
		p4, p6 := uint8([]int{8, 16, 23, 24, 32}[h.rng.Intn(5)]), uint8([]int{8, 16, 20, 32, 48, 56, 64, 128}[h.rng.Intn(8)])
		up, lim := &vfRes{name: "up"}, &vfRes{name: "limit"}
		opt := RateLimiterOptions{Requests: n, Window: 86400, Prefix4: p4, Prefix6: p6}
		useLim := h.one(2)
		if useLim {
			opt.LimitResolver = lim
		}
		if h.one(4) {
			opt.Prefix4, opt.Prefix6 = 0, 0
			p4, p6 = 24, 56
		}
		total := h.rng.Intn(24) + 1
		ips := make([]net.IP, total)
		for i := range ips {
			switch h.rng.Intn(4) {
			case 0:
				ips[i] = h.ip6()
				ips[i][1] = byte(h.rng.Intn(2))
				ips[i][2] = byte(h.rng.Intn(2) * 8)
				ips[i][6] = byte(h.rng.Intn(2))
				ips[i][7] = byte(h.rng.Intn(2))
			case 1:
				ips[i] = net.IPv4(10, byte(h.rng.Intn(2)), byte(h.rng.Intn(2)), byte(h.rng.Intn(2)))
			default:
				ips[i] = net.IPv4(10, byte(h.rng.Intn(2)), byte(h.rng.Intn(2)), byte(h.rng.Intn(2))).To4()
			}
		}
		parallel := h.one(3)
		h.begin("requests=%d prefix=%d/%d limit-resolver=%v parallel=%v clients=%v", n, p4, p6, useLim, parallel, ips)
		r := NewRateLimiter(vfID("m06"), up, opt)
		netOf := func(ip net.IP) string {
			if v4 := ip.To4(); v4 != nil {
				return v4.Mask(net.CIDRMask(int(p4), 32)).String()
			}
			return ip.Mask(net.CIDRMask(int(p6), 128)).String()
		}
		var mu sync.Mutex
		admitted, asked := map[string]uint{}, map[string]uint{}
		record := func(q *dns.Msg, ci ClientInfo, m map[string]uint) {
			mu.Lock()
			m[netOf(ci.SourceIP)]++
			mu.Unlock()
		}
		limited := map[string]uint{}
		up.f = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
			record(q, ci, admitted)
			a := new(dns.Msg)
			return a.SetReply(q), nil
		}
		lim.f = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
			record(q, ci, limited)
			return refused(q), nil
		}
		one := func(ip net.IP) {
			q := new(dns.Msg)
			q.SetQuestion("example.com.", dns.TypeA)
			mu.Lock()
			asked[netOf(ip)]++
			seen := asked[netOf(ip)]
			mu.Unlock()
			a, err := r.Resolve(q, ClientInfo{SourceIP: ip})
			if err != nil {
				h.fail("error", "%v", err)
			}
			if parallel {
				return
			}
			switch {
			case seen <= n:
				if a == nil || a.Rcode != 0 {
					h.fail("rejected", "query %d of %s was rejected with %d allowed", seen, netOf(ip), n)
				}
			case useLim:
				if a == nil || a.Rcode != dns.RcodeRefused {
					h.fail("not-limited", "query %d of %s with %d allowed got %v", seen, netOf(ip), n, a)
				}
			case a != nil:
				h.fail("not-dropped", "query %d of %s with %d allowed was answered", seen, netOf(ip), n)
			}
		}
		day := time.Now().Unix() / 86400
		if parallel {
			var wg sync.WaitGroup
			for _, ip := range ips {
				wg.Add(1)
				go func() { defer wg.Done(); one(ip) }()
			}
			wg.Wait()
		} else {
			for _, ip := range ips {
				one(ip)
			}
		}
		if time.Now().Unix()/86400 != day {
			continue
		}
		for k, c := range asked {
			want := c
			if want > n {
				want = n
			}
			if admitted[k] != want {
				h.fail("quota", "%d of %d queries of %s reached the resolver, want %d", admitted[k], c, k, want)
			}
			if useLim && limited[k] != c-want {
				h.fail("limit-resolver", "%d queries of %s reached the limit resolver, want %d", limited[k], k, c-want)
			}
		}
	}
	// windows: nothing carries over, and a late query doesn't bring an old window back
	for round := 0; round < 2 && !h.t.Failed(); round++ {
		up := &vfRes{name: "up"}
		r := NewRateLimiter(vfID("m06w"), up, RateLimiterOptions{Requests: 2, Window: 1})
		h.begin("window change, round %d", round)
		send := func() bool {
			q := new(dns.Msg)
			q.SetQuestion("example.com.", dns.TypeA)
			a, _ := r.Resolve(q, ClientInfo{SourceIP: net.IPv4(10, 0, 0, 1)})
			return a != nil
		}
		edge := func() {
			time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(time.Second + 20*time.Millisecond)))
		}
		edge()
		got := fmt.Sprint(send(), send(), send())
		edge()
		got += fmt.Sprint(send(), send(), send())
		if got != "true true falsetrue true false" {
			h.fail("windows", "two windows of three queries with two allowed: %s", got)
		}
	}
}
