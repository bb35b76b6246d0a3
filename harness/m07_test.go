package rdns

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/miekg/dns"
)

func TestVerifM07(t *testing.T) {
	h := vfStart(t, 9*time.Second)
	defer h.finish()
	names := []string{"example.com.", "EXAMPLE.com.", "a.example.com."}
	subnets := []*dns.EDNS0_SUBNET{
		nil,
		{Code: 8, Family: 1, SourceNetmask: 24, Address: net.IPv4(1, 2, 3, 0).To4()},
		{Code: 8, Family: 1, SourceNetmask: 25, Address: net.IPv4(1, 2, 3, 0).To4()},
		{Code: 8, Family: 1, SourceNetmask: 24, Address: net.IPv4(0, 0, 0, 0).To4()},
		{Code: 8, Family: 2, SourceNetmask: 24, Address: net.ParseIP("::")},
		{Code: 8, Family: 2, SourceNetmask: 48, Address: net.ParseIP("2001:db8::")},
		{Code: 8, Family: 2, SourceNetmask: 48, Address: net.ParseIP("2001:db8:1::")},
		{Code: 8, Family: 2, SourceNetmask: 128, Address: net.ParseIP("2001:db8::1")},
		{Code: 8, Family: 1, SourceNetmask: 0, Address: net.IPv4(0, 0, 0, 0).To4()},
	}
	identity := func(q *dns.Msg) string {
		s := fmt.Sprintf("%s %d %d cd=%v", strings.ToLower(q.Question[0].Name), q.Question[0].Qtype, q.Question[0].Qclass, q.CheckingDisabled)
		do, ecs := false, "none"
		if o := q.IsEdns0(); o != nil {
			do = o.Do()
			for _, x := range o.Option {
				if e, ok := x.(*dns.EDNS0_SUBNET); ok {
					ecs = fmt.Sprintf("%d/%v/%d", e.Family, e.Address, e.SourceNetmask)
				}
			}
		}
		return fmt.Sprintf("%s do=%v ecs=%s", s, do, ecs)
	}
	for h.more() {
		n := h.rng.Intn(6) + 2
		base := h.rng.Intn(1 << 30)
		qs := make([]*dns.Msg, n)
		for i := range qs {
			q := new(dns.Msg)
			q.SetQuestion(names[h.rng.Intn(len(names))], []uint16{dns.TypeA, dns.TypeA, dns.TypeAAAA}[h.rng.Intn(3)])
			q.Id = uint16(base + i*101)
			q.CheckingDisabled = h.one(4)
			if h.one(8) {
				q.Question[0].Qclass = dns.ClassCHAOS
			}
			if h.one(2) {
				o := &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}}
				if h.one(3) {
					o.SetDo()
				}
				if h.one(3) {
					o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "01"})
				}
				if e := subnets[h.rng.Intn(len(subnets))]; e != nil {
					c := *e
					o.Option = append(o.Option, &c)
				}
				q.Extra = append(q.Extra, o)
			}
			if i > 0 && h.one(2) {
				id := q.Id
				q = qs[h.rng.Intn(i)].Copy()
				q.Id = id
			}
			qs[i] = q
		}
		fails, drops := h.one(8), h.one(8)
		var mu sync.Mutex
		serial := 0
		ptr := map[*dns.Msg]bool{} // messages in someone's hands
		running := map[string]int{}
		gate := make(chan struct{})
		up := &vfRes{name: "up", f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
			mu.Lock()
			serial++
			n := serial
			id := identity(q)
			running[id]++
			twice := running[id] > 1
			mu.Unlock()
			if twice {
				h.fail("asked-twice", "%s asked again while it was running", id)
			}
			<-gate
			mu.Lock()
			running[id]--
			mu.Unlock()
			if fails {
				return nil, vfErr
			}
			if drops {
				return nil, nil
			}
			a := new(dns.Msg)
			mu.Lock()
			ptr[a] = true
			mu.Unlock()
			a.SetReply(q)
			a.Answer = []dns.RR{&dns.TXT{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeTXT, Class: 1, Ttl: 60}, Txt: []string{id, fmt.Sprint(n)}}}
			return a, nil
		}}
		var show []string
		ids := map[string]bool{}
		for _, q := range qs {
			show = append(show, fmt.Sprintf("%d:%s:%s", q.Id, q.Question[0].Name, identity(q)))
			ids[identity(q)] = true
		}
		h.begin("fails=%v drops=%v %v", fails, drops, show)
		r := NewRequestDedup(vfID("m07"), up)
		as := make([]*dns.Msg, n)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i := range qs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				as[i], errs[i] = r.Resolve(qs[i], ClientInfo{})
			}()
		}
		// all of them are in flight once every distinct question has reached the upstream
		// and the others had time to queue up behind it
		for k := 0; k < 2000 && up.count() < len(ids); k++ {
			time.Sleep(100 * time.Microsecond)
		}
		time.Sleep(time.Millisecond)
		if up.count() < len(ids) {
			h.fail("merged-too-much", "%d distinct questions, only %d asked", len(ids), up.count())
		}
		close(gate)
		if !h.within("merge", 10*time.Second, wg.Wait) {
			return
		}
		first := map[string]string{}
		for i, a := range as {
			if (errs[i] != nil) != fails {
				h.fail("error", "query %d: %v", i, errs[i])
			}
			if (a == nil) != (fails || drops) {
				h.fail("answer", "query %d: %v", i, a)
			}
			if a == nil {
				continue
			}
			if ptr[a] {
				h.fail("shared", "a caller got a message that is not its own")
			}
			ptr[a] = true
			if a.Id != qs[i].Id || len(a.Question) != 1 || a.Question[0] != qs[i].Question[0] {
				h.fail("identity", "query %d (%s) got ID %d question %v", i, show[i], a.Id, a.Question)
			}
			if len(a.Answer) != 1 || a.Answer[0].(*dns.TXT).Txt[0] != identity(qs[i]) {
				h.fail("wrong-answer", "query %d (%s) got %v", i, show[i], a.Answer)
				continue
			}
			k := a.Answer[0].(*dns.TXT).Txt[0]
			if v := a.Answer[0].(*dns.TXT).Txt[1]; first[k] == "" {
				first[k] = v
			}
			a.Answer[0].(*dns.TXT).Txt[1] = "changed"
			a.Answer[0].Header().Ttl = 1
		}
		// done: the next one asks again
		before := up.count()
		a, err := r.Resolve(qs[0], ClientInfo{})
		if up.count() != before+1 {
			h.fail("stale", "a query after the answer asked the upstream %d times", up.count()-before)
		} else if !fails && !drops && (err != nil || a == nil || a.Answer[0].Header().Ttl != 60) {
			h.fail("stale", "%v %v", a, err)
		}
		if len(r.inflight) != 0 {
			h.fail("left-behind", "%d requests still recorded as running", len(r.inflight))
		}
	}
}
