package rdns

import (
	"fmt"
	"net"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/miekg/dns"
)

type vfRouteCfg struct {
	name, class        string
	types, weekdays    []string
	before, after      string
	source, ecs        string
	doh, listener, sni string
	invert             bool
}

// vfMinutes converts "hh:mm" or "hh".
func vfMinutes(s string) int {
	var hh, mm int
	if strings.Contains(s, ":") {
		fmt.Sscanf(s, "%d:%d", &hh, &mm)
	} else {
		fmt.Sscanf(s, "%d", &hh)
	}
	return hh*60 + mm
}

func vfRouteWant(c vfRouteCfg, q *dns.Msg, ci ClientInfo, now time.Time) bool {
	m := func() bool {
		if len(c.types) > 0 {
			ok := false
			for _, t := range c.types {
				if dns.StringToType[strings.ToUpper(t)] == q.Question[0].Qtype {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		if c.class != "" {
			want := map[string]uint16{"IN": 1, "CH": 3, "HS": 4, "NONE": 254, "ANY": 255}[c.class]
			if q.Question[0].Qclass != want {
				return false
			}
		}
		if !regexp.MustCompile(c.name).MatchString(q.Question[0].Name) || !regexp.MustCompile(c.doh).MatchString(ci.DoHPath) ||
			!regexp.MustCompile(c.listener).MatchString(ci.Listener) || !regexp.MustCompile(c.sni).MatchString(ci.TLSServerName) {
			return false
		}
		if c.source != "" {
			_, n, _ := net.ParseCIDR(c.source)
			if !n.Contains(ci.SourceIP) {
				return false
			}
		}
		if c.ecs != "" {
			_, n, _ := net.ParseCIDR(c.ecs)
			var ip net.IP
			for _, rr := range q.Extra {
				if o, ok := rr.(*dns.OPT); ok {
					for _, x := range o.Option {
						if e, ok := x.(*dns.EDNS0_SUBNET); ok {
							ip = e.Address
						}
					}
				}
			}
			if ip == nil || !n.Contains(ip) {
				return false
			}
		}
		if len(c.weekdays) > 0 {
			ok := false
			for _, d := range c.weekdays {
				if d == strings.ToLower(now.Weekday().String()[:3]) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		cur := now.Hour()*60 + now.Minute()
		if c.before != "" && !(cur < vfMinutes(c.before)) {
			return false
		}
		if c.after != "" && !(cur >= vfMinutes(c.after)) {
			return false
		}
		return true
	}()
	return m != c.invert
}

func TestVerifR01(t *testing.T) {
	h := vfStart(t, 8*time.Second)
	defer h.finish()
	pick := func(s ...string) string { return s[h.rng.Intn(len(s))] }
	maybe := func(s ...string) string {
		if h.one(3) {
			return pick(s...)
		}
		return ""
	}
	pool := make([]*vfRes, 6)
	for i := range pool {
		pool[i] = &vfRes{name: fmt.Sprintf("r%d", i)}
	}
	id := vfID("r01")
	days := []string{"mon", "tue", "wed", "thu", "fri", "sat", "sun"}
	for h.more() {
		now := time.Now().Local()
		clock := func() string {
			if !h.one(4) {
				return ""
			}
			x := now.Add(time.Duration(h.rng.Intn(5)-2) * time.Minute)
			if h.one(3) {
				x = now.Add(time.Duration(h.rng.Intn(5)-2) * time.Hour)
			}
			if h.one(6) {
				return fmt.Sprintf("%d", x.Hour())
			}
			return fmt.Sprintf("%02d:%02d", x.Hour(), x.Minute())
		}
		r := NewRouter(id)
		var cfgs []vfRouteCfg
		for i, n := 0, h.rng.Intn(6); i < n; i++ {
			c := vfRouteCfg{
				name: maybe(`example\.com\.$`, `^www\.`, `(?i)EXAMPLE`, `^example\.com\.$`), class: maybe("IN", "CH", "ANY", "NONE", "HS"),
				before: clock(), after: clock(),
				source: maybe("1.0.0.0/8", "2.1.0.0/16", "2001:db8::/33", "0.0.0.0/0"), ecs: maybe("1.0.0.0/8", "2.0.0.0/7", "2001:db8::/40"),
				doh: maybe("^/dns$", "query"), listener: maybe("^l1$", "l"), sni: maybe("^a", "b$"), invert: h.one(3),
			}
			for h.one(2) && len(c.types) < 3 {
				c.types = append(c.types, pick("A", "AAAA", "mx", "TXT", "SOA"))
			}
			if h.one(4) {
				for len(c.weekdays) == 0 || (h.one(2) && len(c.weekdays) < 4) {
					c.weekdays = append(c.weekdays, days[h.rng.Intn(7)])
				}
				if h.one(2) {
					c.weekdays = append(c.weekdays, strings.ToLower(now.Weekday().String()[:3]))
				}
			}
			rt, err := NewRoute(c.name, c.class, c.types, c.weekdays, c.before, c.after, c.source, c.ecs, c.doh, c.listener, c.sni, pool[i])
			if err != nil {
				h.begin("%+v", c)
				h.fail("route-rejected", "valid route rejected: %v", err)
				return
			}
			rt.Invert(c.invert)
			r.Add(rt)
			cfgs = append(cfgs, c)
		}
		for k := 0; k < 6; k++ {
			q := h.query()
			ci := ClientInfo{SourceIP: h.ip4(), DoHPath: pick("", "/dns", "/query"), Listener: pick("", "l1", "l2"), TLSServerName: pick("", "a", "ab", "b")}
			if h.one(4) {
				ci.SourceIP = h.ip6()
			}
			if h.one(4) {
				ci.SourceIP = ci.SourceIP.To16()
			}
			before := vfShow(q)
			h.begin("routes=%+v client=%+v query=%s", cfgs, ci, before)
			want := -1
			for i, c := range cfgs {
				if vfRouteWant(c, q, ci, now) {
					want = i
					break
				}
			}
			var given *dns.Msg
			var gerr error
			var seen *dns.Msg
			for i := range pool {
				pool[i].n = 0
				pool[i].f = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
					seen = q
					switch h.rng.Intn(4) {
					case 0:
						given, gerr = nil, vfErr
					case 1:
						given, gerr = nil, nil
					default:
						given, gerr = new(dns.Msg), nil
						given.SetReply(q)
					}
					return given, gerr
				}
			}
			var a *dns.Msg
			var err error
			h.guard("router-panic", func() { a, err = r.Resolve(q, ci) })
			if n2 := time.Now().Local(); n2.Minute() != now.Minute() || n2.Hour() != now.Hour() {
				break // the minute changed under the test
			}
			got := -1
			total := 0
			for i, p := range pool {
				total += p.count()
				if p.count() > 0 {
					got = i
				}
			}
			switch {
			case got != want:
				h.fail("wrong-route", "expected route %d (-1 is none), resolver of route %d was asked", want, got)
			case want >= 0 && total != 1:
				h.fail("asked-more-than-once", "%d upstream queries", total)
			case want < 0 && (err == nil || a != nil):
				h.fail("no-route-no-error", "no route matches but got %v, %v", a, err)
			case want >= 0 && (a != given || err != gerr):
				h.fail("outcome-changed", "resolver returned %v,%v but the router returned %v,%v", given, gerr, a, err)
			case want >= 0 && (seen != q && vfShow(seen) != before):
				h.fail("query-changed", "the resolver saw %s", vfShow(seen))
			case vfShow(q) != before:
				h.fail("caller-query-changed", "query became %s", vfShow(q))
			}
		}
	}
}
