package rdns

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/miekg/dns"
)

func TestVerifC04(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	dir := t.TempDir()
	var qs []*dns.Msg
	for i := 0; i < 9; i++ {
		q := new(dns.Msg)
		q.SetQuestion(fmt.Sprintf("n%d.test.", i), dns.TypeA)
		qs = append(qs, q)
	}
	type ent struct {
		k, v    int
		expired bool
	}
	for h.more() {
		limit := h.rng.Intn(6)
		b := vfC04Backend(limit)
		var model []ent // most recent first
		var log []string
		find := func(k int) int {
			for i, e := range model {
				if e.k == k {
					return i
				}
			}
			return -1
		}
		front := func(i int) {
			e := model[i]
			copy(model[1:i+1], model[:i])
			model[0] = e
		}
		for step := 0; step < 40; step++ {
			k := h.rng.Intn(len(qs))
			if h.one(3) {
				k = h.rng.Intn(3)
			}
			op := h.rng.Intn(24)
			var d string
			bad := false
			h.guard("panic", func() {
				switch {
				case op < 9:
					expired := h.one(6)
					d = fmt.Sprintf("store %d expired=%v", k, expired)
					v := step
					a := new(dns.Msg)
					a.SetReply(qs[k])
					a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: qs[k].Question[0].Name, Rrtype: 1, Class: 1, Ttl: uint32(100000 + v)}, A: h.ip4()}}
					exp := time.Now().Add(time.Hour)
					if expired {
						exp = time.Now().Add(-time.Hour)
					}
					b.Store(qs[k], &cacheAnswer{Timestamp: time.Now(), Expiry: exp, Msg: a})
					if i := find(k); i >= 0 {
						model[i].v, model[i].expired = v, expired
						front(i)
					} else {
						model = append([]ent{{k, v, expired}}, model...)
						if limit > 0 && len(model) > limit {
							model = model[:limit]
						}
					}
				case op < 20:
					d = fmt.Sprintf("lookup %d", k)
					a, _, ok := b.Lookup(qs[k])
					i := find(k)
					want := i >= 0 && !model[i].expired
					if ok != want {
						d += fmt.Sprintf(": found=%v, expected %v", ok, want)
						bad = true
						break
					}
					if ok && (int(a.Answer[0].Header().Ttl)-100000 > model[i].v || int(a.Answer[0].Header().Ttl)-100000 < model[i].v-3) {
						d += ": an older entry was found"
						bad = true
					}
					if i >= 0 && want {
						front(i)
					} else if i >= 0 {
						model = append(model[:i], model[i+1:]...)
					}
				case op < 22:
					d = fmt.Sprintf("evict %d", k)
					b.Evict(qs[k])
					if i := find(k); i >= 0 {
						model = append(model[:i], model[i+1:]...)
					}
				case op == 22 && h.one(4):
					d = "flush"
					b.Flush()
					model = nil
				case op == 23 && h.one(8):
					d = "save and load"
					f := dir + "/cache"
					if err := b.writeToFile(f); err != nil {
						d += ": " + err.Error()
						bad = true
						break
					}
					b = vfC04Backend(limit)
					if err := b.loadFromFile(f); err != nil {
						d += ": " + err.Error()
						bad = true
					}
				default:
					d = "size"
				}
			})
			log = append(log, d)
			n := b.Size()
			h.begin("limit %d: %s", limit, strings.Join(log, ", "))
			if bad {
				h.fail("content", "%s", d)
				break
			}
			if n != len(model) {
				h.fail("size", "%d entries held, %d expected", n, len(model))
				break
			}
			if limit > 0 && n > limit {
				h.fail("limit", "%d entries held, limit %d", n, limit)
				break
			}
		}
	}
}

// vfC04Backend makes a backend without the housekeeping goroutines NewMemoryBackend starts.
func vfC04Backend(limit int) *memoryBackend {
	return &memoryBackend{lru: newLRUCache(limit)}
}
