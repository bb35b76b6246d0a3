package rdns

import (
	"net"
	"path/filepath"
	"runtime/debug"
	"sync"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// vfSecRR makes a record of the kinds DNSSEC validation looks at.
func (h *vfH) secRR(name string) dns.RR {
	hd := func(t uint16) dns.RR_Header {
		return dns.RR_Header{Name: name, Rrtype: t, Class: dns.ClassINET, Ttl: h.ttl()}
	}
	hash := []string{"", "0", "2T7B4G4VSA5SMI47K61MV5BV1A22BOJR", "35MTHGPGCU1QG68FAB165KLNSNK3DPVL", "zz"}
	types := [][]uint16{nil, {1}, {2}, {2, 43}, {2, 6, 46}, {5}, {39}, {1, 28, 46, 47}}
	switch h.rng.Intn(7) {
	case 0:
		return &dns.DNSKEY{Hdr: hd(dns.TypeDNSKEY), Flags: []uint16{0, 256, 257}[h.rng.Intn(3)], Protocol: uint8(h.rng.Intn(5)), Algorithm: uint8(h.rng.Intn(17)), PublicKey: []string{"", "AAAA", "AwEAAQ=="}[h.rng.Intn(3)]}
	case 1:
		return &dns.DS{Hdr: hd(dns.TypeDS), KeyTag: uint16(h.rng.Intn(3)), Algorithm: uint8(h.rng.Intn(17)), DigestType: uint8(h.rng.Intn(6)), Digest: []string{"", "00", "abcd"}[h.rng.Intn(3)]}
	case 2, 3:
		return &dns.RRSIG{Hdr: hd(dns.TypeRRSIG), TypeCovered: []uint16{1, 43, 47, 48, 50}[h.rng.Intn(5)], Algorithm: uint8(h.rng.Intn(17)), Labels: uint8(h.rng.Intn(5)), OrigTtl: 1, Expiration: 1<<32 - 1 - uint32(h.rng.Intn(2))<<31, Inception: 0, KeyTag: uint16(h.rng.Intn(3)), SignerName: h.name(), Signature: []string{"", "AAAA"}[h.rng.Intn(2)]}
	case 4:
		return &dns.NSEC{Hdr: hd(dns.TypeNSEC), NextDomain: h.name(), TypeBitMap: types[h.rng.Intn(len(types))]}
	default:
		r := &dns.NSEC3{Hdr: hd(dns.TypeNSEC3), Hash: uint8(h.rng.Intn(3)), Flags: uint8(h.rng.Intn(3)), Iterations: uint16(h.rng.Intn(3)), Salt: []string{"", "-", "aa", "zz"}[h.rng.Intn(4)], NextDomain: hash[h.rng.Intn(len(hash))], TypeBitMap: types[h.rng.Intn(len(types))]}
		if h.one(2) {
			r.Hdr.Name = hash[1+h.rng.Intn(4)] + "." + h.name()
			if r.Hdr.Name[len(r.Hdr.Name)-2:] == ".." {
				r.Hdr.Name = r.Hdr.Name[:len(r.Hdr.Name)-1]
			}
		}
		return r
	}
}

// wild makes what an upstream may come back with: an answer, an answer to something else, an
// empty message, nothing, or an error.
func (h *vfH) wild(q *dns.Msg) (*dns.Msg, error) {
	switch h.rng.Intn(14) {
	case 0:
		return nil, nil
	case 1:
		return nil, vfErr
	case 2:
		return new(dns.Msg), nil
	}
	a := h.answer(q)
	for h.one(2) {
		qn := h.name()
		if len(q.Question) > 0 && !h.one(3) {
			qn = q.Question[0].Name
		}
		switch h.rng.Intn(3) {
		case 0:
			a.Answer = append(a.Answer, h.secRR(qn))
		default:
			a.Ns = append(a.Ns, h.secRR(qn))
		}
	}
	switch h.rng.Intn(8) {
	case 0:
		a.Question = nil
	case 1:
		a.Question = []dns.Question{{Name: h.name(), Qtype: h.typ(), Qclass: 1}, {Name: ".", Qtype: 1, Qclass: 1}}
	case 2:
		a.Extra = append(a.Extra, h.opt())
	case 3:
		a.Answer, a.Ns, a.Extra = nil, nil, nil
	case 4: // as it arrives from the network
		if p, err := a.Pack(); err == nil {
			b := new(dns.Msg)
			if b.Unpack(p) == nil {
				return b, nil
			}
		}
	}
	return a, nil
}

// vfComponents makes resolvers of every kind that forward to up.
func vfComponents(t *testing.T, h *vfH, up *vfRes) (out []Resolver, names []string) {
	id := func(n string) string { return vfID("z-" + n) }
	add := func(n string, r Resolver, err error) {
		if err == nil && r != nil {
			out, names = append(out, r), append(names, n)
		}
	}
	domains := func() BlocklistDB {
		d, err := NewDomainDB("l", NewStaticLoader([]string{".example.com", "*.b.example.com", "sub.test"}))
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	hosts, _ := NewHostsDB("l", NewStaticLoader([]string{"0.0.0.0 www.example.com", "1.2.3.4 sub.test", "::1 sub.test", "192.0.2.1 example.org"}))
	cidr := func() IPBlocklistDB {
		d, err := NewCidrDB("l", NewStaticLoader([]string{"1.0.0.0/8", "2001:db8:1::/48", "3.1.0.0/16"}))
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	ede, _ := NewEDNS0EDETemplate(15, "blocked {{ .Question }}")
	br := &vfRes{f: up.f}
	b, err := NewBlocklist(id("bl"), up, BlocklistOptions{BlocklistDB: domains(), EDNS0EDETemplate: ede})
	add("blocklist", b, err)
	b, err = NewBlocklist(id("bl"), up, BlocklistOptions{BlocklistDB: hosts, AllowlistDB: domains(), BlocklistResolver: br, AllowListResolver: br})
	add("blocklist-resolver", b, err)
	b, err = NewBlocklist(id("bl"), up, BlocklistOptions{BlocklistDB: hosts})
	add("blocklist-hosts", b, err)
	for _, inv := range []bool{false, true} {
		rn, err := NewResponseBlocklistName(id("rn"), up, ResponseBlocklistNameOptions{BlocklistDB: domains(), Inverted: inv, EDNS0EDETemplate: ede})
		add("response-blocklist-name", rn, err)
		for _, f := range []bool{false, true} {
			ri, err := NewResponseBlocklistIP(id("ri"), up, ResponseBlocklistIPOptions{BlocklistDB: cidr(), Inverted: inv, Filter: f, EDNS0EDETemplate: ede})
			add("response-blocklist-ip", ri, err)
		}
		ri, err := NewResponseBlocklistIP(id("ri"), up, ResponseBlocklistIPOptions{BlocklistDB: cidr(), Inverted: inv, BlocklistResolver: br})
		add("response-blocklist-ip-resolver", ri, err)
		cb, err := NewClientBlocklist(id("cb"), up, ClientBlocklistOptions{BlocklistDB: cidr(), UseECS: inv})
		add("client-blocklist", cb, err)
	}
	add("cache", NewCache(id("c"), up, CacheOptions{Backend: NewMemoryBackend(MemoryBackendOptions{Capacity: 50})}), nil)
	add("cache-all", NewCache(id("c"), up, CacheOptions{Backend: NewMemoryBackend(MemoryBackendOptions{}), HardenBelowNXDOMAIN: true, NegativeTTL: 100, ShuffleAnswerFunc: AnswerShuffleRandom, CacheRcodeMaxTTL: map[int]uint32{2: 5}, PrefetchTrigger: 1 << 31, PrefetchEligible: 1}), nil)
	add("cache-rr", NewCache(id("c"), up, CacheOptions{Backend: NewMemoryBackend(MemoryBackendOptions{}), ShuffleAnswerFunc: AnswerShuffleRoundRobin}), nil)
	d64, err := NewDNS64(id("d64"), up, DNS64Options{})
	add("dns64", d64, err)
	d64, err = NewDNS64(id("d64"), up, DNS64Options{Prefixes: []string{"2001:db8::/32", "64:ff9b::/96"}})
	add("dns64-prefixes", d64, err)
	for _, e := range []bool{false, true} {
		add("fail-rotate", NewFailRotate(id("fr"), FailRotateOptions{ServfailError: e, EmptyError: e}, up, br), nil)
		add("fail-back", NewFailBack(id("fb"), FailBackOptions{ServfailError: e, EmptyError: e}, up, br), nil)
		add("random", NewRandom(id("r"), RandomOptions{ServfailError: e, EmptyError: e}, up, br), nil)
		add("load-balance", NewLoadBalance(id("lb"), LoadBalanceOptions{ServfailError: e, EmptyError: e}, up, br), nil)
	}
	add("round-robin", NewRoundRobin(id("rr"), up, br), nil)
	add("fastest", NewFastest(id("f"), up, br), nil)
	add("rate-limiter", NewRateLimiter(id("rl"), up, RateLimiterOptions{Requests: 3, Window: 60, LimitResolver: br}), nil)
	add("dedup", NewRequestDedup(id("dd"), up), nil)
	add("drop", NewDropResolver(id("d")), nil)
	opt := StaticResolverOptions{Answer: []string{"IN A 1.2.3.4", "IN TXT {{ .Question }}"}, NS: []string{"IN NS ns.example.com."}, Extra: []string{"ns.example.com. IN A 4.4.4.4"}, EDNS0EDETemplate: ede}
	st, err := NewStaticTemplateResolver(id("st"), opt)
	add("static-template", st, err)
	opt.Answer = opt.Answer[:1]
	ss, err := NewStaticResolver(id("ss"), opt)
	add("static", ss, err)
	for _, f := range []TTLSelectFunc{nil, TTLSelectLowest, TTLSelectHighest, TTLSelectFirst, TTLSelectLast, TTLSelectAverage, TTLSelectRandom} {
		add("ttl-modifier", NewTTLModifier(id("ttl"), up, TTLModifierOptions{SelectFunc: f, MinTTL: 5, MaxTTL: 600}), nil)
	}
	add("minimize", NewResponseMinimize(id("min"), up), nil)
	add("collapse", NewResponseCollapse(id("col"), up, ResponseCollapseOptions{}), nil)
	add("collapse-null", NewResponseCollapse(id("col"), up, ResponseCollapseOptions{NullRCode: 3}), nil)
	for _, f := range []ECSModifierFunc{nil, ECSModifierDelete, ECSModifierAdd(nil, 24, 48), ECSModifierAdd(net.IP{9, 9, 9, 9}, 8, 0), ECSModifierAddIfMissing(nil, 24, 48), ECSModifierPrivacy(16, 32)} {
		e, err := NewECSModifier(id("ecs"), up, f)
		add("ecs-modifier", e, err)
	}
	for _, f := range []EDNS0ModifierFunc{nil, EDNS0ModifierDelete(65001), EDNS0ModifierDelete(8), EDNS0ModifierAdd(65001, []byte{7})} {
		e, err := NewEDNS0Modifier(id("edns"), up, f)
		add("edns0-modifier", e, err)
	}
	rp, err := NewReplace(id("rp"), up, ReplaceOperation{From: `example\.com\.$`, To: "example.net."}, ReplaceOperation{From: "^sub", To: "bus"})
	add("replace", rp, err)
	add("truncate-retry", NewTruncateRetry(id("tr"), up, br, TruncateRetryOptions{}), nil)
	add("prefetch", NewPrefetch(id("pf"), up, PrefetchOptions{PrefetchThreshold: 1, PrefetchWindow: time.Second}), nil)
	ql, err := NewQueryLogResolver(id("ql"), up, QueryLogResolverOptions{OutputFile: filepath.Join(t.TempDir(), "log"), OutputFormat: LogFormatText})
	add("query-log", ql, err)
	if pc, err := net.ListenPacket("udp", "127.0.0.1:0"); err == nil {
		t.Cleanup(func() { pc.Close() })
		for _, v := range []bool{false, true} {
			add("syslog", NewSyslog(id("sl"), up, SyslogOptions{Network: "udp", Address: pc.LocalAddr().String(), Priority: 6, LogRequest: true, LogResponse: true, Verbose: v}), nil)
		}
	}
	for _, lo := range []bool{false, true} {
		dv, err := NewDNSSECValidator(id("dv"), up, DNSSECValidatorOptions{LogOnly: lo})
		add("dnssec", dv, err)
	}
	rt := NewRouter(id("rt"))
	for i, n := range []string{`example\.com\.$`, `^a`, ""} {
		types := [][]string{{"A", "AAAA"}, nil, nil}[i]
		r, err := NewRoute(n, "", types, nil, "", "", "", []string{"", "1.0.0.0/8", ""}[i], "", "", "", up)
		if err != nil {
			t.Fatal(err)
		}
		rt.Add(r)
	}
	add("router", rt, nil)

	// probing connects to the addresses it was given, so these are addresses of this machine
	near := &vfRes{f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a, err := up.Resolve(q, ci)
		if a != nil {
			for _, l := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
				for i, rr := range l {
					switch r := rr.(type) {
					case *dns.A:
						r.A = net.IP{127, 0, 0, 1}
					case *dns.AAAA:
						r.AAAA = net.IPv6loopback
					default:
						if r.Header().Rrtype == dns.TypeA && i > 0 {
							l[i] = &dns.TXT{Hdr: *r.Header()}
						}
					}
				}
			}
		}
		return a, err
	}}
	if ln, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		t.Cleanup(func() { ln.Close() })
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				c.Close()
			}
		}()
		port := ln.Addr().(*net.TCPAddr).Port
		for _, all := range []bool{false, true} {
			add("fastest-tcp", NewFastestTCP(id("ft"), near, FastestTCPOptions{Port: port, WaitAll: all, SuccessTTLMin: 30}), nil)
		}
	}
	return out, names
}

// vfUp is an upstream whose behaviour is drawn from the check's random source.
func vfUp(h *vfH) *vfRes {
	var mu sync.Mutex
	return &vfRes{f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		mu.Lock()
		defer mu.Unlock()
		return h.wild(q)
	}}
}

func TestVerifZ01(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	comps, names := vfComponents(t, h, vfUp(h))
	var mu sync.Mutex
	kind := 0
	clients, cn, stop := vfClients(t, &mu, &kind)
	defer stop()
	for _, n := range cn {
		comps, names = append(comps, clients[n]), append(names, "client "+n)
	}
	type seen struct {
		name, before string
		q            *dns.Msg
	}
	var earlier []seen
	for h.more() {
		i := h.rng.Intn(len(comps))
		q := h.query()
		if h.one(5) {
			q.Extra = append([]dns.RR{h.rr("x.")}, q.Extra...)
		}
		if h.one(12) {
			q.Ns = append(q.Ns, h.rr("y."))
		}
		q.Opcode = 0
		before := vfShow(q)
		h.risky("%s %s", names[i], before)
		ci := vfCI([]string{"1.2.3.4", "192.0.2.1", "2001:db8:1::1"}[h.rng.Intn(3)])
		for n := 1 + h.rng.Intn(2); n > 0; n-- {
			func() {
				defer func() { recover() }() // crashes belong to another property
				comps[i].Resolve(q, ci)
			}()
			if now := vfShow(q); now != before {
				h.fail("query-changed "+names[i], "now %s", now)
			}
		}
		earlier = append(earlier, seen{names[i], before, q})
		if len(earlier) > 40 {
			if e := earlier[0]; vfShow(e.q) != e.before {
				h.fail("query-changed-later "+e.name, "was %s, now %s", e.before, vfShow(e.q))
			}
			earlier = earlier[1:]
		}
	}
}

func TestVerifZ02(t *testing.T) {
	h := vfStart(t, 12*time.Second)
	defer h.finish()
	up := vfUp(h)
	comps, names := vfComponents(t, h, up)
	lists := []struct {
		n string
		h dns.HandlerFunc
	}{
		{"udp", listenHandler(vfID("z"), "udp", "", up, nil)},
		{"tcp", listenHandler(vfID("z"), "tcp", "", up, nil)},
		{"dot", listenHandler(vfID("z"), "dot", "", up, nil)},
	}
	for h.more() {
		q := h.query()
		if h.one(5) {
			q.Extra = append([]dns.RR{h.rr("x.")}, q.Extra...)
		}
		if h.one(4) {
			q.Question[0].Qtype = []uint16{dns.TypeDNSKEY, dns.TypeDS, dns.TypeNSEC3, dns.TypeAXFR, 0, 65535}[h.rng.Intn(6)]
		}
		if h.one(5) {
			q.Question = append(q.Question, dns.Question{Name: h.name(), Qtype: h.typ(), Qclass: 1})
		}
		if h.one(8) {
			q.Question[0].Name = []string{"", "x", `a\.b.example.com.`, "1.0.0.127.in-addr.arpa.", "b.a.9.8.7.6.5.0.4.0.0.0.3.0.0.0.2.0.0.0.1.0.0.0.0.0.0.0.1.2.3.4.ip6.arpa.", "x.ip6.arpa.", "in-addr.arpa."}[h.rng.Intn(7)]
		}
		run := func(name string, f func()) {
			h.risky("%s %s", name, vfShow(q))
			defer func() {
				if r := recover(); r != nil {
					h.fail("panic "+name, "%v\n%s", r, debug.Stack())
				}
			}()
			f()
		}
		if h.one(12) {
			l := lists[h.rng.Intn(len(lists))]
			run("listener "+l.n, func() {
				l.h(&vfWriter{peer: &net.UDPAddr{IP: net.IP{1, 2, 3, 4}, Port: 5}}, q)
			})
			continue
		}
		i := h.rng.Intn(len(comps))
		run(names[i], func() {
			comps[i].Resolve(q, vfCI([]string{"1.2.3.4", "192.0.2.1", "2001:db8:1::1"}[h.rng.Intn(3)]))
		})
		if h.one(20) { // conversions of whatever arrives
			b := make([]byte, h.rng.Intn(40))
			h.rng.Read(b)
			run("unpack", func() {
				a := h.answer(q)
				ageCachedAnswer(a, q, uint32(h.rng.Intn(10)))
				padAnswer(q, a)
				stripPadding(a)
			})
		}
	}
}
