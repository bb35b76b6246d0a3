package rdns

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/miekg/dns"
	"github.com/redis/go-redis/v9"
)

// vfRedis is a stand-in for a Redis server, reached through in-process pipes.
type vfRedis struct {
	mu   sync.Mutex
	data map[string][]byte
	ttl  map[string]time.Duration
}

func newVfRedis() *vfRedis {
	return &vfRedis{data: map[string][]byte{}, ttl: map[string]time.Duration{}}
}

func (s *vfRedis) backend(prefix string) *redisBackend {
	return NewRedisBackend(RedisBackendOptions{
		KeyPrefix: prefix,
		SyncSet:   true,
		RedisOptions: redis.Options{
			Addr:     "127.0.0.1:1",
			Protocol: 2,
			Dialer: func(context.Context, string, string) (net.Conn, error) {
				a, b := net.Pipe()
				go s.serve(b)
				return a, nil
			},
		},
	})
}

func (s *vfRedis) serve(c net.Conn) {
	defer c.Close()
	in := bufio.NewReader(c)
	line := func() (string, error) {
		l, err := in.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err
	}
	for {
		l, err := line()
		if err != nil || !strings.HasPrefix(l, "*") {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		args := make([]string, n)
		for i := range args {
			l, err := line()
			if err != nil {
				return
			}
			k, _ := strconv.Atoi(l[1:])
			b := make([]byte, k+2)
			if _, err := io.ReadFull(in, b); err != nil {
				return
			}
			args[i] = string(b[:k])
		}
		s.mu.Lock()
		out := "-ERR unknown command\r\n"
		switch strings.ToLower(args[0]) {
		case "set":
			s.data[args[1]] = []byte(args[2])
			delete(s.ttl, args[1])
			if len(args) > 4 {
				v, _ := strconv.ParseInt(args[4], 10, 64)
				u := time.Second
				if strings.ToLower(args[3]) == "px" {
					u = time.Millisecond
				}
				s.ttl[args[1]] = time.Duration(v) * u
			}
			out = "+OK\r\n"
		case "get":
			if v, ok := s.data[args[1]]; ok {
				out = fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
			} else {
				out = "$-1\r\n"
			}
		}
		s.mu.Unlock()
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

// vfNormal gives the form a message has after a trip through wire format, or nil if it has none.
func vfNormal(m *dns.Msg) *dns.Msg {
	b, err := m.Pack()
	if err != nil {
		return nil
	}
	n := new(dns.Msg)
	if n.Unpack(b) != nil {
		return nil
	}
	return n
}

func vfBackends() map[string]CacheBackend {
	return map[string]CacheBackend{
		"memory": NewMemoryBackend(MemoryBackendOptions{GCPeriod: time.Hour}),
		"redis":  newVfRedis().backend("p:"),
	}
}

// vfAged compares a served answer with the stored one: the same content, TTLs reduced by an
// age within [lo, hi]. It returns a description of the first difference.
func vfAged(stored, got, q *dns.Msg, lo, hi int64) string {
	g := got.Copy()
	want := stored.Copy()
	if g.Id != q.Id {
		return fmt.Sprintf("transaction ID %d instead of %d", g.Id, q.Id)
	}
	if fmt.Sprint(g.Question) != fmt.Sprint(q.Question) {
		return fmt.Sprintf("question %v instead of %v", g.Question, q.Question)
	}
	want.Id, want.Question = g.Id, g.Question
	ws, gs := [][]dns.RR{want.Answer, want.Ns, want.Extra}, [][]dns.RR{g.Answer, g.Ns, g.Extra}
	age := int64(-1)
	for s := range ws {
		if len(ws[s]) != len(gs[s]) {
			return fmt.Sprintf("section %d has %d records instead of %d", s, len(gs[s]), len(ws[s]))
		}
		for i := range ws[s] {
			wh, gh := ws[s][i].Header(), gs[s][i].Header()
			if wh.Rrtype == dns.TypeOPT {
				continue
			}
			d := int64(wh.Ttl) - int64(gh.Ttl)
			if d < lo || d > hi || gh.Ttl == 0 {
				return fmt.Sprintf("TTL %d of a record stored with %d, age between %d and %d", gh.Ttl, wh.Ttl, lo, hi)
			}
			if age >= 0 && d != age {
				return "records aged by different amounts"
			}
			age = d
			wh.Ttl = gh.Ttl
		}
	}
	if vfShow(want) != vfShow(g) {
		return fmt.Sprintf("content %s instead of %s", vfShow(g), vfShow(want))
	}
	return ""
}

func TestVerifC01(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	bs := vfBackends()
	for h.more() {
		for kind, b := range bs {
			q := h.query()
			a := h.answer(q)
			if h.one(2) {
				for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
					for _, rr := range s {
						if rr.Header().Rrtype != dns.TypeOPT {
							rr.Header().Ttl = uint32(1 + h.rng.Intn(20))
						}
					}
				}
			}
			stored := vfNormal(a)
			if stored == nil {
				continue
			}
			offs := []time.Duration{0, time.Second, 1500 * time.Millisecond, 5 * time.Second, 9500 * time.Millisecond, 59 * time.Second,
				300 * time.Second, 86400 * time.Second, -time.Second, -3600 * time.Second, -7 * time.Second, (1 << 31) * time.Second, (1<<32 + 4) * time.Second}
			off := offs[h.rng.Intn(len(offs))]
			life := []time.Duration{time.Hour, time.Hour, time.Minute, -time.Second, -time.Minute}[h.rng.Intn(5)]
			ts := time.Now().Add(-off)
			exp := time.Now().Add(life)
			if (1<<32)*time.Second < off {
				// Ages beyond 2^32 seconds cannot occur with 32-bit TTLs in force.
				exp = ts.Add((1 << 32) * time.Second)
			}
			h.begin("%s: age %v, remaining lifetime %v, message %s", kind, off, time.Until(exp).Round(time.Second), vfShow(stored))
			h.guard("panic", func() {
				b.Store(q, &cacheAnswer{Timestamp: ts, Expiry: exp, Msg: a.Copy()})
				t0 := time.Now()
				got, _, ok := b.Lookup(q)
				t1 := time.Now()
				if !ok {
					return
				}
				// Redis expires entries itself; one whose lifetime is over must not be written.
				if t0.After(exp) {
					h.fail("expired-served", "an answer past its lifetime was served")
				}
				from := ts
				if kind == "redis" {
					from = time.Unix(ts.Unix(), 0)
				}
				lo, hi := int64(t0.Sub(ts)/time.Second), int64(t1.Sub(from)/time.Second)
				if lo < 0 {
					lo = 0
				}
				if hi < 0 {
					hi = 0
				}
				if d := vfAged(stored, got, q, lo, hi); d != "" {
					h.fail("age-"+kind, "%s", d)
				}
			})
			if m, ok := b.(*memoryBackend); ok {
				m.Flush()
			}
			if kind == "redis" {
				bs[kind] = vfRedisReset(b)
			}
		}
	}
}

func vfRedisReset(b CacheBackend) CacheBackend {
	b.Close()
	return newVfRedis().backend("p:")
}

// vfSubnetOf gives the client subnet a query carries.
func vfSubnetOf(q *dns.Msg) string {
	s := "none"
	if o := q.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if e, ok := x.(*dns.EDNS0_SUBNET); ok {
				s = fmt.Sprintf("%v/%d", e.Address, e.SourceNetmask)
			}
		}
	}
	return s
}

func vfDo(q *dns.Msg) bool { o := q.IsEdns0(); return o != nil && o.Do() }

// vfSameKey says whether two queries may share an answer.
func vfSameKey(a, b *dns.Msg) bool {
	x, y := a.Question[0], b.Question[0]
	return strings.EqualFold(x.Name, y.Name) && x.Qtype == y.Qtype && x.Qclass == y.Qclass && vfDo(a) == vfDo(b) &&
		a.CheckingDisabled == b.CheckingDisabled && vfSubnetOf(a) == vfSubnetOf(b)
}

// keyed makes a query over a small space of keys, with at most one subnet option.
func (h *vfH) keyed() *dns.Msg {
	q := new(dns.Msg)
	names := []string{"a.test.", "A.test.", "b.test.", "a.b.test.", "ab.test.", "test.", "a.test.:IN:A::."}
	q.SetQuestion(names[h.rng.Intn(len(names))], []uint16{1, 28, 257, 1 << 8, 65281}[h.rng.Intn(5)])
	if h.one(2) {
		q.Question[0].Qtype = 1
	}
	q.Id = uint16(h.rng.Intn(1 << 16))
	if h.one(5) {
		q.Question[0].Qclass = []uint16{3, 255, 257}[h.rng.Intn(3)]
	}
	q.CheckingDisabled = h.one(3)
	if h.one(2) {
		o := &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}}
		o.SetUDPSize(1232)
		if h.one(2) {
			o.SetDo()
		}
		if h.one(3) {
			o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0102030405060708"})
		}
		if h.one(2) {
			e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: []uint8{0, 8, 23, 24, 32}[h.rng.Intn(5)],
				Address: net.IPv4(10, 0, 0, byte(h.rng.Intn(3))).To4()}
			if h.one(3) {
				e.Family, e.Address = 2, net.ParseIP([]string{"2001:db8::", "2001:db8::1", "2001:db9::"}[h.rng.Intn(3)])
				e.SourceNetmask = []uint8{0, 24, 32, 56, 128}[h.rng.Intn(5)]
			}
			o.Option = append(o.Option, e)
		}
		q.Extra = append(q.Extra, o)
	}
	return q
}

func TestVerifC02(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	serial := 0
	for h.more() {
		for kind, b := range vfBackends() {
			var log []string
			var keys []*dns.Msg
			var msgs []*dns.Msg
			upstream := &vfRes{name: "up"}
			c := NewCache(vfID("c02"), upstream, CacheOptions{Backend: b, NegativeTTL: 500, HardenBelowNXDOMAIN: h.one(3)})
			for step := 0; step < 60 && h.more(); step++ {
				q := h.keyed()
				log = append(log, vfShow(q))
				h.begin("%s: queries %s", kind, strings.Join(log, " ; "))
				h.guard("panic", func() {
					before := upstream.count()
					serial++
					a := new(dns.Msg)
					a.SetReply(q)
					a.Rcode = []int{0, 0, 0, 3}[h.rng.Intn(4)]
					a.AuthenticatedData = h.one(2)
					a.RecursionAvailable = h.one(2)
					a.Answer = []dns.RR{&dns.TXT{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeTXT, Class: 1, Ttl: 5000}, Txt: []string{fmt.Sprint(serial)}}}
					upstream.f = func(*dns.Msg, ClientInfo) (*dns.Msg, error) { return a.Copy(), nil }
					got, err := c.Resolve(q, vfCI("192.0.2.1"))
					if err != nil || got == nil {
						return
					}
					if got.Id != q.Id || fmt.Sprint(got.Question) != fmt.Sprint(q.Question) {
						h.fail("id", "answer %s to query %s", vfShow(got), vfShow(q))
					}
					if upstream.count() > before {
						keys, msgs = append(keys, q.Copy()), append(msgs, a)
						return
					}
					// Served from the cache.
					if len(got.Answer) == 0 && got.Rcode == dns.RcodeNameError {
						for i := range keys {
							if msgs[i].Rcode == dns.RcodeNameError && dns.IsSubDomain(keys[i].Question[0].Name, q.Question[0].Name) {
								return
							}
						}
					}
					var diff string
					for i := len(keys) - 1; i >= 0; i-- {
						if !vfSameKey(keys[i], q) {
							continue
						}
						if diff = vfAged(vfNormal(msgs[i]), got, q, 0, 4000); diff == "" {
							return
						}
					}
					if diff != "" {
						h.fail("content", "%s", diff)
						return
					}
					h.fail("key", "an answer stored for another query was served: %s", vfShow(got))
				})
			}
			b.Close()
		}
	}
}

// vfStoreLog is a backend that records what it is asked to store.
type vfStoreLog struct {
	mu    sync.Mutex
	items []*cacheAnswer
	hit   *dns.Msg
}

func (s *vfStoreLog) Store(q *dns.Msg, it *cacheAnswer) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := *it
	c.Msg = it.Msg.Copy()
	s.items = append(s.items, &c)
}
func (s *vfStoreLog) Lookup(*dns.Msg) (*dns.Msg, bool, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.hit != nil {
		return s.hit.Copy(), true, true
	}
	return nil, false, false
}
func (s *vfStoreLog) Size() int    { return 0 }
func (s *vfStoreLog) Flush()       {}
func (s *vfStoreLog) Close() error { return nil }

func vfMin(m *dns.Msg) (int64, bool) {
	min, ok := int64(1<<32), false
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, rr := range s {
			if rr.Header().Rrtype != dns.TypeOPT {
				ok = true
				if int64(rr.Header().Ttl) < min {
					min = int64(rr.Header().Ttl)
				}
			}
		}
	}
	return min, ok
}

func TestVerifC03(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	id := vfID("c03")
	for h.more() {
		log := &vfStoreLog{}
		neg := []uint32{0, 1, 60, 299, 300, 301, 1000, 1<<32 - 1}[h.rng.Intn(8)]
		lim := map[int]uint32{}
		for h.one(2) {
			lim[h.rng.Intn(6)] = h.ttl()
		}
		up := &vfRes{name: "up"}
		// Built in place: NewCache would leave a goroutine behind for every case.
		c := vfC03Cache(id, up, CacheOptions{Backend: log, NegativeTTL: neg, CacheRcodeMaxTTL: lim, PrefetchTrigger: 1 << 31})
		if neg == 0 {
			neg = 60
		}
		q := h.query()
		a := h.answer(q)
		a.Rcode = h.rng.Intn(24)
		if a.Rcode > 6 && !h.one(4) {
			a.Rcode = []int{0, 2, 3}[h.rng.Intn(3)]
		}
		if h.one(4) {
			a.Answer, a.Ns = nil, nil
			if h.one(2) {
				a.Extra = nil
			}
		}
		pre := h.one(3)
		if pre {
			log.hit = a.Copy()
			log.hit.Truncated = false
			log.hit.Rcode = 0
			log.hit.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: "x.", Rrtype: 1, Class: 1, Ttl: 1}, A: h.ip4()}}
			log.hit.Ns, log.hit.Extra = nil, nil
		}
		up.f = func(*dns.Msg, ClientInfo) (*dns.Msg, error) { return a.Copy(), nil }
		h.begin("negative TTL %d, limits %v, prefetch %v, response %s", neg, lim, pre, vfShow(a))
		h.guard("panic", func() {
			c.Resolve(q, vfCI("192.0.2.1"))
			if pre {
				for i := 0; i < 200 && up.count() == 0; i++ {
					time.Sleep(50 * time.Microsecond)
				}
				time.Sleep(300 * time.Microsecond)
			}
			log.mu.Lock()
			defer log.mu.Unlock()
			for _, it := range log.items {
				life := it.Expiry.Sub(it.Timestamp)
				m := it.Msg
				if m.Truncated {
					h.fail("truncated", "a truncated response was stored")
				}
				min, any := vfMin(m)
				bound := int64(neg)
				switch m.Rcode {
				case 0, 3, 5, 4, 1:
					if any {
						bound = min
						if min == 1<<32-1 {
							bound = 1 << 32
						}
					}
				case 2:
					if bound > 300 {
						bound = 300
					}
				default:
					h.fail("rcode", "a response with code %d was stored", m.Rcode)
				}
				if l, ok := lim[m.Rcode]; ok && int64(l) < bound {
					bound = int64(l)
				}
				if life > time.Duration(bound)*time.Second {
					h.fail("lifetime", "kept for %v, allowed %ds", life, bound)
				}
				if d := time.Since(it.Timestamp); d < 0 || d > time.Minute {
					h.fail("timestamp", "stored with the time %v", it.Timestamp)
				}
			}
		})
	}
}

var vfC03One *Cache

func vfC03Cache(id string, up Resolver, opt CacheOptions) *Cache {
	if vfC03One == nil {
		vfC03One = NewCache(id, up, opt)
	}
	c := *vfC03One
	c.CacheOptions = opt
	if c.NegativeTTL == 0 {
		c.NegativeTTL = 60
	}
	c.resolver, c.backend = up, opt.Backend
	return &c
}
