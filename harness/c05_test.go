package rdns

import (
	"strings"
	"testing"
	"time"

	"github.com/miekg/dns"
)

func TestVerifC05(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	for h.more() {
		q := h.keyed()
		a := h.answer(q)
		a.Rcode &= 15
		want := vfNormal(a)
		if want == nil {
			continue
		}
		it := &cacheAnswer{Timestamp: time.Unix(h.rng.Int63n(1<<32), h.rng.Int63n(1e9)), Expiry: time.Unix(h.rng.Int63n(1<<32), h.rng.Int63n(1e9)), PrefetchEligible: h.one(2), Msg: a.Copy()}
		h.begin("timestamp %d expiry %d prefetch %v query %s message %s", it.Timestamp.UnixNano(), it.Expiry.UnixNano(), it.PrefetchEligible, vfShow(q), vfShow(want))
		h.guard("panic", func() {
			key := lruKeyFromQuery(q)
			b, err := newCacheBlob(key, it)
			if err != nil {
				h.fail("memory", "not encoded: %v", err)
				return
			}
			m := new(dns.Msg)
			if err := m.Unpack(b.message()); err != nil {
				h.fail("memory", "message not decodable: %v", err)
				return
			}
			if b.key() != key || !b.matchesKey(key) || b.timestamp() != it.Timestamp.UnixNano() || b.expiry() != it.Expiry.UnixNano() || b.prefetchEligible() != it.PrefetchEligible || vfShow(m) != vfShow(want) {
				h.fail("memory", "decoded key %+v timestamp %d expiry %d prefetch %v message %s", b.key(), b.timestamp(), b.expiry(), b.prefetchEligible(), vfShow(m))
			}
			// The file format.
			c := newLRUCache(0)
			c.addKey(key, b)
			var buf strings.Builder
			if err := c.serialize(&buf); err != nil {
				h.fail("file", "not written: %v", err)
				return
			}
			d := newLRUCache(0)
			if err := d.deserialize(strings.NewReader(buf.String())); err != nil {
				h.fail("file", "not read: %v", err)
				return
			}
			if g := d.get(q); g == nil || string(g.blob) != string(b) {
				h.fail("file", "the entry read back differs")
			}
			s := buf.String()
			cut := s[:h.rng.Intn(len(s))]
			e := newLRUCache(0)
			e.deserialize(strings.NewReader(cut))
			if g := e.get(q); g != nil && string(g.blob) != string(b) {
				h.fail("file-cut", "a record cut off at byte %d was used", len(cut))
			}
			// The Redis format.
			w, err := encodeCacheAnswer(make([]byte, 0, []int{0, 5, 11, 40, 100, 2048}[h.rng.Intn(6)]), it)
			if err != nil {
				h.fail("redis", "not encoded: %v", err)
				return
			}
			r, err := decodeCacheAnswer(w)
			if err != nil {
				h.fail("redis", "not decoded: %v", err)
				return
			}
			if r.Timestamp.Unix() != it.Timestamp.Unix() || r.PrefetchEligible != it.PrefetchEligible || vfShow(r.Msg) != vfShow(want) {
				h.fail("redis", "decoded timestamp %v prefetch %v message %s", r.Timestamp, r.PrefetchEligible, vfShow(r.Msg))
			}
			for n := 0; n < len(w); n += 1 + h.rng.Intn(3) {
				r, err := decodeCacheAnswer(w[:n])
				if n < 10+12 && err == nil {
					h.fail("redis-short", "%d bytes accepted", n)
				}
				if err == nil && len(r.Msg.Answer) != len(want.Answer) && n < 10 {
					h.fail("redis-short", "%d bytes accepted", n)
				}
			}
			v := append([]byte(nil), w...)
			v[0] = byte(h.rng.Intn(256))
			if v[0] != w[0] {
				if _, err := decodeCacheAnswer(v); err == nil {
					h.fail("redis-version", "version %d accepted", v[0])
				}
			}
		})
	}
}
