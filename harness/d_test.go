package rdns

import (
	"crypto"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/folbricht/routedns/dnssec"
	"github.com/miekg/dns"
)

var vfNow = time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC)

// vfKey is a key pair of a zone.
type vfKey struct {
	pub  *dns.DNSKEY
	priv crypto.Signer
}

func vfNewKey(zone string, flags uint16) vfKey {
	k := &dns.DNSKEY{Hdr: dns.RR_Header{Name: zone, Rrtype: dns.TypeDNSKEY, Class: dns.ClassINET, Ttl: 3600}, Flags: flags, Protocol: 3, Algorithm: dns.ED25519}
	p, err := k.Generate(256)
	if err != nil {
		panic(err)
	}
	return vfKey{k, p.(crypto.Signer)}
}

// vfSign signs a set of records.
func vfSign(k vfKey, signer string, from, to time.Time, rrs ...dns.RR) *dns.RRSIG {
	s := &dns.RRSIG{Inception: uint32(from.Unix()), Expiration: uint32(to.Unix()), KeyTag: k.pub.KeyTag(), SignerName: signer, Algorithm: k.pub.Algorithm}
	if err := s.Sign(k.priv, rrs); err != nil {
		panic(err)
	}
	s.Hdr.Ttl = rrs[0].Header().Ttl
	return s
}

// vfZone is a zone with its keys and names. A nil key means the zone is not signed.
type vfZone struct {
	name     string
	signed   bool
	ksk, zsk vfKey
	nsec3    bool
	optout   bool
	types    map[string][]uint16 // names and the types they have
}

func (z *vfZone) sign(rrs ...dns.RR) dns.RR {
	return vfSign(z.zsk, z.name, vfNow.Add(-time.Hour), vfNow.Add(time.Hour), rrs...)
}

func (z *vfZone) ds() *dns.DS {
	d := z.ksk.pub.ToDS(dns.SHA256)
	d.Hdr.Ttl = 3600
	return d
}

// vfWorld is a tree of zones and answers the validator's own queries for keys and delegations.
type vfWorld struct {
	zones map[string]*vfZone
	swap  map[string]func() *dns.Msg // what the upstream says instead of the truth
	mu    sync.Mutex
	cache map[string]*dns.Msg
}

func vfNewWorld(names ...string) *vfWorld {
	w := &vfWorld{zones: map[string]*vfZone{}, swap: map[string]func() *dns.Msg{}, cache: map[string]*dns.Msg{}}
	for _, n := range names {
		z := &vfZone{signed: n[0] != '-', nsec3: strings.HasSuffix(n, "3"), types: map[string][]uint16{}}
		z.name = strings.TrimSuffix(strings.TrimPrefix(n, "-"), "3")
		if z.signed {
			z.ksk, z.zsk = vfNewKey(z.name, 257), vfNewKey(z.name, 256)
		}
		w.zones[z.name] = z
	}
	return w
}

func (w *vfWorld) parent(name string) *vfZone {
	for name != "." {
		_, name, _ = strings.Cut(name, ".")
		if name == "" {
			name = "."
		}
		if z := w.zones[name]; z != nil {
			return z
		}
	}
	return nil
}

// nsec makes an NSEC record.
func vfNSEC(owner, next string, types ...uint16) *dns.NSEC {
	t := append(append([]uint16{}, types...), dns.TypeRRSIG, dns.TypeNSEC)
	sort.Slice(t, func(i, j int) bool { return t[i] < t[j] })
	return &dns.NSEC{Hdr: dns.RR_Header{Name: owner, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: next, TypeBitMap: t}
}

// lookup answers DNSKEY and DS queries.
func (w *vfWorld) lookup(name string, typ uint16) *dns.Msg {
	m := new(dns.Msg)
	m.SetQuestion(name, typ)
	m.Response = true
	z, p := w.zones[name], w.parent(name)
	switch {
	case typ == dns.TypeDNSKEY && z != nil && z.signed:
		m.Answer = []dns.RR{z.zsk.pub, z.ksk.pub, vfSign(z.ksk, z.name, vfNow.Add(-time.Hour), vfNow.Add(time.Hour), z.zsk.pub, z.ksk.pub)}
	case typ == dns.TypeDS && p != nil && p.signed && z != nil:
		if z.signed {
			m.Answer = []dns.RR{z.ds(), p.sign(z.ds())}
		} else {
			n := vfNSEC(name, "zz."+name, dns.TypeNS)
			m.Ns = []dns.RR{n, p.sign(n)}
		}
	}
	return m
}

func (w *vfWorld) resolve(q *dns.Msg) (*dns.Msg, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := fmt.Sprintf("%s/%d", dns.CanonicalName(q.Question[0].Name), q.Question[0].Qtype)
	if f := w.swap[k]; f != nil {
		m := f()
		if m == nil {
			return nil, nil
		}
		m = m.Copy()
		m.Id = q.Id
		return m, nil
	}
	if w.cache[k] == nil {
		w.cache[k] = w.lookup(dns.CanonicalName(q.Question[0].Name), q.Question[0].Qtype)
	}
	m := w.cache[k].Copy()
	m.Id = q.Id
	return m, nil
}

func (w *vfWorld) validator() *dnssec.Validator {
	v := dnssec.NewValidator(dnssec.WithResolver(w.resolve), dnssec.WithTime(func() time.Time { return vfNow }))
	d := w.zones["."].ds()
	v.SetAnchor(".", d.KeyTag, d.Algorithm, d.DigestType, d.Digest)
	return v
}

func vfVerdict(err error) string {
	switch {
	case err == nil:
		return "secure"
	case errors.Is(err, dnssec.ErrInsecureDelegation):
		return "insecure"
	}
	return "bogus"
}

func vfA(name, ip string) dns.RR {
	rr, err := dns.NewRR(name + " 300 IN A " + ip)
	if err != nil {
		panic(err)
	}
	return rr
}

// TestVerifD01 takes answers with a complete chain apart in one way each.
func TestVerifD01(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	w := vfNewWorld(".", "test.", "a.test.", "-ins.", "-ins.test.", "im.", "victim.", "other.", "b.a.test.")
	signed := []string{".", "test.", "a.test.", "im.", "victim.", "other.", "b.a.test."}
	hour := time.Hour
	for h.more() {
		w.swap = map[string]func() *dns.Msg{}
		z := w.zones[signed[h.rng.Intn(len(signed))]]
		owner := []string{"www.", "x.y.", "WWW.", "_a._b."}[h.rng.Intn(4)] + strings.TrimPrefix(z.name, ".")
		if h.one(6) && z.name != "." {
			owner = z.name
		}
		q := new(dns.Msg)
		q.SetQuestion(owner, dns.TypeA)
		a := new(dns.Msg)
		a.SetReply(q)
		set := []dns.RR{vfA(owner, "192.0.2.1")}
		for h.one(2) {
			set = append(set, vfA(owner, fmt.Sprintf("192.0.2.%d", 2+len(set))))
		}
		good := z.sign(set...).(*dns.RRSIG)
		o := w.zones["other."]
		if z == o {
			o = w.zones["test."]
		}
		bad := func() dns.RR { // a signature that does not count
			switch h.rng.Intn(8) {
			case 0:
				return vfSign(z.zsk, z.name, vfNow.Add(-2*hour), vfNow.Add(-hour), set...)
			case 1:
				return vfSign(z.zsk, z.name, vfNow.Add(hour), vfNow.Add(2*hour), set...)
			case 2:
				return vfSign(vfNewKey(z.name, 256), z.name, vfNow.Add(-hour), vfNow.Add(hour), set...)
			case 3:
				return vfSign(o.zsk, z.name, vfNow.Add(-hour), vfNow.Add(hour), set...)
			case 4: // by the keys of a zone that has nothing to do with the name
				s := vfSign(o.zsk, o.name, vfNow.Add(-hour), vfNow.Add(hour), set...)
				return s
			case 5:
				s := dns.Copy(good).(*dns.RRSIG)
				s.OrigTtl++
				return s
			case 6:
				s := dns.Copy(good).(*dns.RRSIG)
				s.TypeCovered = dns.TypeAAAA
				return s
			default: // of another name
				return z.sign(vfA("q."+strings.TrimPrefix(z.name, "."), "192.0.2.1"))
			}
		}
		kind := h.rng.Intn(24)
		what, want := "", "bogus"
		a.Answer = append(append([]dns.RR{}, set...), good)
		dropSig := func(m *dns.Msg) *dns.Msg {
			var out []dns.RR
			for _, rr := range m.Answer {
				if rr.Header().Rrtype != dns.TypeRRSIG {
					out = append(out, rr)
				}
			}
			m.Answer = out
			return m
		}
		dsOf := z.name + "/43"
		p := w.parent(z.name)
		if kind >= 10 && kind <= 19 && p == nil {
			kind = 0
		}
		switch kind {
		case 0:
			what, want = "complete", "secure"
		case 1:
			what, want = "complete, with a useless signature as well", "secure"
			a.Answer = append(a.Answer, bad())
			if h.one(2) {
				n := len(a.Answer)
				a.Answer[n-1], a.Answer[n-2] = a.Answer[n-2], a.Answer[n-1]
			}
		case 2:
			what = "unsigned"
			a.Answer = set
		case 3, 4:
			what = "useless signature"
			a.Answer = append(append([]dns.RR{}, set...), bad())
		case 5:
			what = "record changed"
			a.Answer[0] = vfA(owner, "198.51.100.1")
		case 6:
			what = "record added"
			a.Answer = append(a.Answer, vfA(owner, "198.51.100.1"))
		case 7:
			what = "signer only looks like a parent"
			v, m := w.zones["victim."], w.zones["im."]
			set = []dns.RR{vfA("victim.", "192.0.2.9")}
			if h.one(2) {
				set = []dns.RR{vfA("www.victim.", "192.0.2.9")}
			}
			_ = v
			a.Question[0].Name = set[0].Header().Name
			a.Answer = append(set, vfSign(m.zsk, "im.", vfNow.Add(-hour), vfNow.Add(hour), set...))
		case 8:
			what = "other record set unsigned"
			a.Answer = append(a.Answer, vfA("other-set."+strings.TrimPrefix(z.name, "."), "192.0.2.7"))
		case 9:
			what = "attacker's keys for the zone"
			k, s := vfNewKey(z.name, 257), vfNewKey(z.name, 256)
			w.swap[z.name+"/48"] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDNSKEY)
				m.Answer = []dns.RR{s.pub, k.pub, vfSign(k, z.name, vfNow.Add(-hour), vfNow.Add(hour), s.pub, k.pub)}
				if h.one(2) { // next to the real ones
					m.Answer = []dns.RR{s.pub, k.pub, z.ksk.pub, vfSign(k, z.name, vfNow.Add(-hour), vfNow.Add(hour), s.pub, k.pub, z.ksk.pub)}
				}
				return m
			}
			a.Answer = append(append([]dns.RR{}, set...), vfSign(s, z.name, vfNow.Add(-hour), vfNow.Add(hour), set...))
		case 10:
			what = "delegation record unsigned"
			w.swap[dsOf] = func() *dns.Msg { return dropSig(w.lookup(z.name, dns.TypeDS)) }
		case 11:
			what = "delegation record signed by another key"
			w.swap[dsOf] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDS)
				m.Answer[1] = vfSign(vfNewKey(p.name, 256), p.name, vfNow.Add(-hour), vfNow.Add(hour), m.Answer[0])
				return m
			}
		case 12:
			what = "delegation record expired"
			w.swap[dsOf] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDS)
				m.Answer[1] = vfSign(p.zsk, p.name, vfNow.Add(-2*hour), vfNow.Add(-hour), m.Answer[0])
				return m
			}
		case 13:
			what = "attacker's keys and own delegation record for it"
			k, s := vfNewKey(z.name, 257), vfNewKey(z.name, 256)
			w.swap[z.name+"/48"] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDNSKEY)
				m.Answer = []dns.RR{s.pub, k.pub, vfSign(k, z.name, vfNow.Add(-hour), vfNow.Add(hour), s.pub, k.pub)}
				return m
			}
			d := k.pub.ToDS(dns.SHA256)
			d.Hdr.Ttl = 3600
			w.swap[dsOf] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDS)
				switch h.rng.Intn(3) {
				case 0:
					m.Answer = append(m.Answer, d)
				case 1:
					m.Answer[0] = d
				default:
					m.Answer = []dns.RR{d, vfSign(s, z.name, vfNow.Add(-hour), vfNow.Add(hour), d)}
				}
				return m
			}
			a.Answer = append(append([]dns.RR{}, set...), vfSign(s, z.name, vfNow.Add(-hour), vfNow.Add(hour), set...))
		case 14:
			what = "delegation denied without proof"
			a.Answer = set
			w.swap[dsOf] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDS)
				m.Answer = nil
				n := vfNSEC(z.name, "zz."+z.name, dns.TypeNS)
				switch h.rng.Intn(6) {
				case 0:
				case 1:
					m.Ns = []dns.RR{n}
				case 2: // signed by the child, or anyone
					m.Ns = []dns.RR{n, vfSign(z.zsk, z.name, vfNow.Add(-hour), vfNow.Add(hour), n)}
				case 3: // of another delegation
					n.Hdr.Name = "zz." + strings.TrimPrefix(p.name, ".")
					m.Ns = []dns.RR{n, p.sign(n)}
				case 4: // that has a delegation record
					n = vfNSEC(z.name, "zz."+z.name, dns.TypeNS, dns.TypeDS)
					m.Ns = []dns.RR{n, p.sign(n)}
				default: // not a delegation
					n = vfNSEC(z.name, "zz."+z.name, dns.TypeA)
					m.Ns = []dns.RR{n, p.sign(n)}
				}
				return m
			}
		case 15:
			what, want = "delegation denied with a proof", "insecure"
			a.Answer = set
			w.swap[dsOf] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDS)
				n := vfNSEC(z.name, "zz."+z.name, dns.TypeNS)
				m.Answer, m.Ns = nil, []dns.RR{n, p.sign(n)}
				return m
			}
		case 16:
			what = "old denial of the delegation"
			a.Answer = set
			w.swap[dsOf] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDS)
				n := vfNSEC(z.name, "zz."+z.name, dns.TypeNS)
				m.Answer, m.Ns = nil, []dns.RR{n, vfSign(p.zsk, p.name, vfNow.Add(-2*hour), vfNow.Add(-hour), n)}
				return m
			}
		case 17:
			what = "keys not signed by a key of the delegation"
			w.swap[z.name+"/48"] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDNSKEY)
				m.Answer[2] = vfSign(z.zsk, z.name, vfNow.Add(-hour), vfNow.Add(hour), z.zsk.pub, z.ksk.pub)
				if h.one(2) {
					m.Answer = m.Answer[:2]
				}
				return m
			}
		case 18:
			what = "delegation record of another zone"
			ok := w.zones["victim."]
			if z == ok || p.name != "." {
				what, want = "complete", "secure"
				break
			}
			// whoever has the keys of victim. has a delegation record as well
			w.swap[z.name+"/48"] = func() *dns.Msg {
				m := w.lookup("victim.", dns.TypeDNSKEY)
				if h.one(2) {
					for i := range m.Answer {
						m.Answer[i] = dns.Copy(m.Answer[i])
						m.Answer[i].Header().Name = z.name
					}
					k, s := m.Answer[1].(*dns.DNSKEY), m.Answer[0].(*dns.DNSKEY)
					m.Answer[2] = vfSign(vfKey{k, ok.ksk.priv}, z.name, vfNow.Add(-hour), vfNow.Add(hour), s, k)
				}
				return m
			}
			d := dns.Copy(ok.ksk.pub).(*dns.DNSKEY)
			d.Hdr.Name = z.name
			ds := d.ToDS(dns.SHA256)
			ds.Hdr.Name, ds.Hdr.Ttl = "victim.", 3600
			sig := p.sign(ds)
			w.swap[dsOf] = func() *dns.Msg {
				m := w.lookup("victim.", dns.TypeDS)
				if h.one(2) {
					m.Answer = []dns.RR{ds, sig}
				}
				return m
			}
			s := dns.Copy(ok.zsk.pub).(*dns.DNSKEY)
			s.Hdr.Name = z.name
			a.Answer = append(append([]dns.RR{}, set...), vfSign(vfKey{s, ok.zsk.priv}, z.name, vfNow.Add(-hour), vfNow.Add(hour), set...))
		case 19:
			what = "no answer about keys or delegation"
			key := []string{z.name + "/48", dsOf}[h.rng.Intn(2)]
			w.swap[key] = func() *dns.Msg { return nil }
		case 20, 21:
			what, want = "below an unsigned delegation", "insecure"
			n := []string{"www.ins.", "ins.", "a.b.ins.test.", "ins.test."}[h.rng.Intn(4)]
			a.Question[0].Name = n
			a.Answer = []dns.RR{vfA(n, "192.0.2.5")}
			if kind == 21 {
				if h.one(2) {
					what = "unsigned zone and a complete set"
					a.Answer = append(a.Answer, append(set, good)...)
				} else {
					what, want = "unsigned zone and a bad set", "bogus"
					a.Answer = append(a.Answer, append(set, bad())...)
				}
			}
		case 22:
			what = "expired keys"
			w.swap[z.name+"/48"] = func() *dns.Msg {
				m := w.lookup(z.name, dns.TypeDNSKEY)
				m.Answer[2] = vfSign(z.ksk, z.name, vfNow.Add(-2*hour), vfNow.Add(-hour), z.zsk.pub, z.ksk.pub)
				return m
			}
		default:
			what = "no trust anchor"
		}
		v := w.validator()
		if kind == 23 {
			v = dnssec.NewValidator(dnssec.WithResolver(w.resolve), dnssec.WithTime(func() time.Time { return vfNow }))
			if h.one(2) {
				d := vfNewKey(".", 257).pub.ToDS(dns.SHA256)
				v.SetAnchor(".", d.KeyTag, d.Algorithm, d.DigestType, d.Digest)
			} else if h.one(2) {
				d := w.zones["."].ds()
				v.SetAnchor("elsewhere.", d.KeyTag, d.Algorithm, d.DigestType, d.Digest)
			}
		}
		h.begin("%s zone=%s %s", what, z.name, vfShow(a))
		for n := 1 + h.rng.Intn(2); n > 0; n-- { // the second time with keys from the store
			err := v.Validate(a.Copy())
			if got := vfVerdict(err); got != want {
				h.fail("wrong-verdict "+what, "%s instead of %s (%v)", got, want, err)
			}
		}
		// keys are kept no longer than allowed, and only those that were accepted
		if kind == 0 && h.one(3) {
			now := vfNow
			v := dnssec.NewValidator(dnssec.WithResolver(w.resolve), dnssec.WithTime(func() time.Time { return now }))
			d := w.zones["."].ds()
			v.SetAnchor(".", d.KeyTag, d.Algorithm, d.DigestType, d.Digest)
			if err := v.Validate(a.Copy()); err != nil {
				h.fail("wrong-verdict complete", "%v", err)
			}
			now = vfNow.Add(3 * hour)
			long := vfSign(z.zsk, z.name, vfNow.Add(-hour), vfNow.Add(9*hour), set...)
			b := a.Copy()
			b.Answer = append(append([]dns.RR{}, set...), long)
			if err := v.Validate(b); vfVerdict(err) != "bogus" {
				h.fail("keys-outlive-their-time", "%s", vfVerdict(err))
			}
		}
	}
}

// less tells whether a name comes before another in canonical order (RFC 4034, 6.1).
func vfLess(a, b string) bool {
	x, y := vfLabels(a), vfLabels(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// vfLabels are the labels of a name, the last one first, as they are on the wire.
func vfLabels(n string) (out []string) {
	buf := make([]byte, 300)
	off, err := dns.PackDomainName(strings.ToLower(n), buf, 0, nil, false)
	if err != nil {
		panic(err)
	}
	for i := 0; i < off && buf[i] != 0; i += int(buf[i]) + 1 {
		out = append([]string{string(buf[i+1 : i+1+int(buf[i])])}, out...)
	}
	return out
}

func vfHas(l []uint16, t uint16) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// TestVerifD02 makes zones, gives the validator some of their authenticated denial records, and
// compares what it accepts with what is in the zone.
func TestVerifD02(t *testing.T) {
	h := vfStart(t, 12*time.Second)
	defer h.finish()
	w := vfNewWorld(".", "test.", "del.test.", "-ins.test.")
	pool := []string{"a.test.", "b.test.", "*.test.", "a.b.test.", "*.b.test.", "c.a.b.test.", "del.test.", "x.del.test.", "z.test.", `\000.test.`, `a\.b.test.`, `-.test.`, "dn.test.", "q.dn.test.", "e.f.test.", "f.test.", "ba.test.", "ins.test.", "y.ins.test.", `\200.test.`, "*.e.f.test.", "other."}
	types := []uint16{dns.TypeA, dns.TypeTXT, dns.TypeCNAME, dns.TypeDS, dns.TypeMX}
	z := w.zones["test."]
	v := w.validator()
	for h.more() {
		z.types = map[string][]uint16{"test.": {dns.TypeSOA, dns.TypeNS, dns.TypeDNSKEY}, "del.test.": {dns.TypeNS, dns.TypeDS}, "ins.test.": {dns.TypeNS}}
		for _, n := range pool {
			if !h.one(2) || !dns.IsSubDomain("test.", n) || dns.IsSubDomain("del.test.", n) || dns.IsSubDomain("ins.test.", n) || n == "q.dn.test." {
				continue
			}
			switch {
			case n == "dn.test.":
				z.types[n] = []uint16{dns.TypeDNAME}
			case h.one(4):
				z.types[n] = []uint16{dns.TypeCNAME}
			default:
				for _, t := range []uint16{dns.TypeA, dns.TypeTXT, dns.TypeMX} {
					if h.one(2) {
						z.types[n] = append(z.types[n], t)
					}
				}
				if z.types[n] == nil {
					z.types[n] = []uint16{dns.TypeSRV}
				}
			}
		}
		exists := map[string]bool{}
		for n := range z.types {
			for m := n; ; _, m, _ = strings.Cut(m, ".") {
				if m == `b.test.` && n == `a\.b.test.` {
					m = "test."
				}
				exists[m] = true
				if m == "test." {
					break
				}
			}
		}
		if z.types["a\\.b.test."] != nil { // the split above does not know escapes
			exists["b.test."] = z.types["b.test."] != nil || z.types["a.b.test."] != nil || z.types["*.b.test."] != nil || z.types["c.a.b.test."] != nil
		}
		useNSEC3 := h.one(2)
		optout := useNSEC3 && h.one(3)
		salt := []string{"", "AB"}[h.rng.Intn(2)]
		var chain []dns.RR
		if !useNSEC3 {
			var names []string
			for n := range z.types {
				names = append(names, n)
			}
			sort.Slice(names, func(i, j int) bool { return vfLess(names[i], names[j]) })
			for i, n := range names {
				chain = append(chain, vfNSEC(n, names[(i+1)%len(names)], z.types[n]...))
			}
		} else {
			var hs []string
			of := map[string]string{}
			for n := range exists {
				if exists[n] && !(optout && n == "ins.test.") {
					k := dns.HashName(n, dns.SHA1, 1, salt)
					hs, of[k] = append(hs, k), n
				}
			}
			sort.Strings(hs)
			for i, k := range hs {
				ts := append([]uint16{}, z.types[of[k]]...)
				if len(ts) > 0 {
					ts = append(ts, dns.TypeRRSIG)
				}
				sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
				r := &dns.NSEC3{Hdr: dns.RR_Header{Name: k + ".test.", Rrtype: dns.TypeNSEC3, Class: 1, Ttl: 300}, Hash: dns.SHA1, Iterations: 1, SaltLength: uint8(len(salt) / 2), Salt: salt, HashLength: 20, NextDomain: hs[(i+1)%len(hs)], TypeBitMap: ts}
				if optout {
					r.Flags = 1
				}
				chain = append(chain, r)
			}
		}
		sigs := make([]dns.RR, len(chain))
		for n := 40; n > 0 && h.more(); n-- {
			qname := pool[h.rng.Intn(len(pool))]
			if h.one(3) {
				qname = []string{"g.", "0.", "zz.", `\001.`, "A."}[h.rng.Intn(5)] + qname
			}
			if len(qname) > 60 {
				qname = "test."
			}
			qtype := types[h.rng.Intn(len(types))]
			a := new(dns.Msg)
			a.SetQuestion(qname, qtype)
			a.Response = true
			a.Rcode = []int{dns.RcodeSuccess, dns.RcodeNameError}[h.rng.Intn(2)]
			all := h.one(3)
			unsigned := !all && h.one(6)
			for i, rr := range chain {
				if !all && !h.one(2) {
					continue
				}
				if sigs[i] == nil {
					sigs[i] = z.sign(rr)
				}
				a.Ns = append(a.Ns, rr)
				switch {
				case !unsigned:
					a.Ns = append(a.Ns, sigs[i])
				case h.one(3):
				case h.one(2):
					a.Ns = append(a.Ns, vfSign(z.zsk, "test.", vfNow.Add(-2*time.Hour), vfNow.Add(-time.Hour), rr))
				default:
					a.Ns = append(a.Ns, vfSign(vfNewKey("test.", 256), "test.", vfNow.Add(-time.Hour), vfNow.Add(time.Hour), rr))
				}
			}
			h.rng.Shuffle(len(a.Ns), func(i, j int) { a.Ns[i], a.Ns[j] = a.Ns[j], a.Ns[i] })
			if h.one(4) { // signatures are not an answer
				a.Answer = append(a.Answer, z.sign(vfA("test.", "192.0.2.1")))
				a.Answer[0].(*dns.RRSIG).Hdr.Name = qname
			}
			// what is true
			name := dns.CanonicalName(qname)
			under := dns.IsSubDomain("test.", name)
			below := false // not in this zone at all
			for _, cut := range []string{"del.test.", "ins.test.", "dn.test."} {
				if dns.IsSubDomain(cut, name) && cut != name && z.types[cut] != nil {
					below = true
				}
			}
			apexDS := name == "test." && qtype == dns.TypeDS
			atCut := (name == "del.test." || name == "ins.test.") && qtype != dns.TypeDS
			ce := name
			for under && !exists[ce] {
				i, _ := dns.NextLabel(ce, 0)
				ce = ce[i:]
			}
			wild := "*." + ce
			truth := false
			unclear := below || atCut || apexDS || !under || optout && name == "ins.test."
			ent := under && exists[name] && z.types[name] == nil
			if !unclear {
				if a.Rcode == dns.RcodeNameError {
					truth = !exists[name] && z.types[wild] == nil && !exists[wild]
					if optout && !exists[name] { // could be an unsigned delegation
						unclear = true
					}
				} else {
					ts := z.types[name]
					if !exists[name] {
						ts = z.types[wild]
						if ts == nil {
							ts = []uint16{qtype}
						}
					}
					truth = !vfHas(ts, qtype) && !vfHas(ts, dns.TypeCNAME)
					if optout && qtype == dns.TypeDS {
						unclear = true
					}
				}
			}
			h.begin("%s nsec3=%v optout=%v all=%v unsigned=%v %s %d %d zone %v", qname, useNSEC3, optout, all, unsigned, qname, qtype, a.Rcode, z.types)
			err := v.Validate(a)
			got := vfVerdict(err)
			switch {
			case got == "secure" && unsigned:
				h.fail("denial-without-authentic-records", "%s", vfShow(a))
			case optout && dns.IsSubDomain("ins.test.", name) && !unsigned: // left out of the chain, as opt-out allows
			case got == "secure" && (below || atCut || !under):
				h.fail("denied-from-outside-the-zone", "%s", vfShow(a))
			case got == "secure" && !unclear && !truth:
				h.fail("denied-though-it-exists", "%s", vfShow(a))
			case got != "secure" && !unclear && truth && all && !(ent && !useNSEC3):
				h.fail("proper-denial-refused", "%v %s", err, vfShow(a))
			case got == "insecure" && !dns.IsSubDomain("ins.test.", name):
				h.fail("insecure-without-proof", "%v %s", err, vfShow(a))
			}
		}
	}
}

// TestVerifD03 looks at what clients of the validating resolver get.
func TestVerifD03(t *testing.T) {
	h := vfStart(t, 8*time.Second)
	defer h.finish()
	w := vfNewWorld(".", "-ins.")
	root := w.zones["."]
	var reply func(q *dns.Msg) (*dns.Msg, error)
	var sent *dns.Msg
	up := &vfRes{f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) { sent = q.Copy(); return reply(q) }}
	long := func(k vfKey, rrs ...dns.RR) dns.RR {
		return vfSign(k, ".", time.Now().Add(-24*time.Hour), time.Now().Add(24*time.Hour), rrs...)
	}
	d := root.ds()
	keys := long(root.ksk, root.zsk.pub, root.ksk.pub)
	nsec := vfNSEC("ins.", "zz.ins.", dns.TypeNS)
	nsecSig := long(root.zsk, nsec)
	res := map[bool]*DNSSECValidator{}
	for _, lo := range []bool{false, true} {
		r, err := NewDNSSECValidator(vfID("d"), up, DNSSECValidatorOptions{LogOnly: lo, TrustAnchors: []TrustAnchor{{Owner: ".", KeyTag: d.KeyTag, Algorithm: d.Algorithm, DigestType: d.DigestType, Digest: d.Digest}}})
		if err != nil {
			t.Fatal(err)
		}
		res[lo] = r
	}
	rec := vfA("www.", "192.0.2.1")
	recSig := long(root.zsk, rec)
	oldSig := vfSign(root.zsk, ".", vfNow.Add(-9*time.Hour), vfNow.Add(-8*time.Hour), rec)
	none := vfNSEC("www.", "zz.", dns.TypeMX)
	noneSig := long(root.zsk, none)
	for h.more() {
		q := h.query()
		q.Opcode = 0
		q.Question = []dns.Question{{Name: "www.", Qtype: dns.TypeA, Qclass: 1}}
		a := new(dns.Msg)
		want := "secure"
		kind := h.rng.Intn(8)
		switch kind {
		case 0, 1:
			a.Answer = []dns.RR{rec, recSig}
		case 2:
			a.Answer = []dns.RR{rec, oldSig}
			want = "bogus"
		case 3:
			a.Answer = []dns.RR{vfA("www.", "192.0.2.66"), recSig}
			want = "bogus"
		case 4:
			q.Question[0].Name = "x.ins."
			a.Answer = []dns.RR{vfA("x.ins.", "192.0.2.1")}
			want = "insecure"
		case 5:
			q.Question[0].Qtype = []uint16{dns.TypeAAAA, dns.TypeNSEC}[h.rng.Intn(2)]
			a.Ns = []dns.RR{none, noneSig}
			if q.Question[0].Qtype == dns.TypeNSEC {
				want = "bogus"
			}
		case 6:
			a.Rcode = []int{dns.RcodeServerFailure, dns.RcodeRefused, dns.RcodeNotImplemented}[h.rng.Intn(3)]
			a.Answer = []dns.RR{rec, recSig}
			want = "unchecked"
		case 7:
			q.Question[0].Qtype = []uint16{dns.TypeRRSIG, dns.TypeNSEC}[h.rng.Intn(2)]
			if q.Question[0].Qtype == dns.TypeNSEC {
				a.Answer = []dns.RR{none, noneSig}
			} else {
				a.Answer = []dns.RR{recSig}
			}
		}
		a.SetReply(&dns.Msg{MsgHdr: dns.MsgHdr{Id: q.Id, RecursionDesired: true, Rcode: a.Rcode}, Question: q.Question})
		a.Rcode = map[bool]int{true: a.Rcode}[kind == 6]
		if kind == 6 {
			a.Rcode = dns.RcodeRefused
		}
		a.AuthenticatedData = h.one(2)
		if !h.one(3) {
			a.SetEdns0(1232, true)
		}
		if h.one(2) {
			a.Ns = append(a.Ns, vfNSEC("extra.", "f.", 1))
		}
		if h.one(2) {
			a.Extra = append([]dns.RR{vfA("glue.", "192.0.2.3"), dns.Copy(recSig)}, a.Extra...)
		}
		fail := h.one(12)
		reply = func(uq *dns.Msg) (*dns.Msg, error) {
			qu := uq.Question[0]
			m := new(dns.Msg)
			m.SetReply(uq)
			switch {
			case qu.Name == "." && qu.Qtype == dns.TypeDNSKEY:
				m.Answer = []dns.RR{root.zsk.pub, root.ksk.pub, keys}
				return m.Copy(), nil
			case qu.Name == "ins." && qu.Qtype == dns.TypeDS:
				m.Ns = []dns.RR{nsec, nsecSig}
				return m.Copy(), nil
			case qu.Qtype == dns.TypeDS || qu.Qtype == dns.TypeDNSKEY:
				return m, nil
			}
			if o := uq.IsEdns0(); o == nil || !o.Do() {
				h.fail("signatures-not-asked-for", "%s", vfShow(uq))
			}
			if fail {
				return nil, vfErr
			}
			return a.Copy(), nil
		}
		lo := h.one(2)
		before := vfShow(q)
		h.begin("%s log-only=%v fail=%v %s response %s", want, lo, fail, before, vfShow(a))
		got, err := res[lo].Resolve(q, vfCI("192.0.2.1"))
		_ = sent
		if vfShow(q) != before {
			h.fail("query-changed", "%s", vfShow(q))
		}
		if fail {
			if err == nil || got != nil {
				h.fail("failure-hidden", "%v %v", got, err)
			}
			continue
		}
		if err != nil || got == nil {
			h.fail("no-response", "%v %v", got, err)
			continue
		}
		if want == "bogus" && !lo {
			if got.Rcode != dns.RcodeServerFailure || len(got.Answer) > 0 || got.AuthenticatedData || got.Id != q.Id {
				h.fail("bogus-delivered", "%s", vfShow(got))
			}
			continue
		}
		if got.AuthenticatedData != (want == "secure") {
			h.fail("wrong-mark", "%s", vfShow(got))
		}
		o := q.IsEdns0()
		do := o != nil && o.Do()
		filter := func(rrs []dns.RR) (out []dns.RR) {
			for _, rr := range rrs {
				t := rr.Header().Rrtype
				if !do && t != q.Question[0].Qtype && (t == dns.TypeRRSIG || t == dns.TypeNSEC || t == dns.TypeNSEC3) {
					continue
				}
				if t == dns.TypeOPT && o == nil {
					continue
				}
				rr = dns.Copy(rr)
				if x, ok := rr.(*dns.OPT); ok && !do {
					x.SetDo(false)
				}
				out = append(out, rr)
			}
			return
		}
		b := a.Copy()
		b.Answer, b.Ns, b.Extra = filter(b.Answer), filter(b.Ns), filter(b.Extra)
		b.AuthenticatedData = want == "secure"
		if vfShow(b) != vfShow(got) {
			h.fail("wrong-content", "got %s expected %s", vfShow(got), vfShow(b))
		}
	}
}
