package rdns

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/miekg/dns"
)

func TestVerifG02(t *testing.T) {
	h := vfStart(t, 9*time.Second)
	defer h.finish()
	q := new(dns.Msg)
	q.SetQuestion("example.com.", dns.TypeA)
	id := vfID("g02")

	// Several queries in flight at the same member; all of them fail together. The preference
	// must move by exactly one step for that member.
	together := func(name string, n, width int, mk func(...Resolver) Resolver) {
		h.begin("%s: %d members, %d simultaneous failures of the preferred member", name, n, width)
		var mu sync.Mutex
		calls := make([]int, n)
		gate := make(chan struct{})
		arrived := make(chan struct{}, width)
		firstWave := true
		var members []Resolver
		for i := 0; i < n; i++ {
			i := i
			members = append(members, &vfRes{name: fmt.Sprintf("m%d", i), f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
				mu.Lock()
				calls[i]++
				wave := firstWave
				mu.Unlock()
				if wave && i == 0 {
					arrived <- struct{}{}
					<-gate
					return nil, vfErr
				}
				a := new(dns.Msg)
				a.SetReply(q)
				return a, nil
			}})
		}
		g := mk(members...)
		var wg sync.WaitGroup
		for k := 0; k < width; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				h.guard("group-panic", func() { g.Resolve(q, ClientInfo{}) })
			}()
		}
		for k := 0; k < width; k++ {
			select {
			case <-arrived:
			case <-time.After(5 * time.Second):
				h.fail("not-all-at-preferred", "only %d of %d queries reached the preferred member", k, width)
				close(gate)
				return
			}
		}
		close(gate)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			h.fail("hang", "queries did not return")
			return
		}
		mu.Lock()
		firstWave = false
		want := 1 % n
		for i := range calls {
			calls[i] = 0
		}
		mu.Unlock()
		g.Resolve(q, ClientInfo{})
		mu.Lock()
		defer mu.Unlock()
		for i := range calls {
			if (calls[i] > 0) != (i == want) {
				h.fail("preference-step", "after %d simultaneous failures of member 0 the next query went to %v, expected member %d", width, calls, want)
				break
			}
		}
	}
	for h.more() {
		n, width := 2+h.rng.Intn(4), 2+h.rng.Intn(6)
		together("fail-rotate", n, width, func(m ...Resolver) Resolver { return NewFailRotate(id, FailRotateOptions{}, m...) })
		together("fail-back", n, width, func(m ...Resolver) Resolver { return NewFailBack(id, FailBackOptions{ResetAfter: time.Hour}, m...) })

		// strict rotation: after k*n concurrent queries every member was asked k times
		k := 1 + h.rng.Intn(20)
		h.begin("round-robin: %d members, %d concurrent rounds", n, k)
		var members []Resolver
		for i := 0; i < n; i++ {
			members = append(members, &vfRes{name: fmt.Sprintf("m%d", i)})
		}
		g := NewRoundRobin(id, members...)
		var wg sync.WaitGroup
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < k; j++ {
					h.guard("round-robin-panic", func() { g.Resolve(q, ClientInfo{}) })
				}
			}()
		}
		wg.Wait()
		for i, m := range members {
			if c := m.(*vfRes).count(); c != k {
				h.fail("rotation", "member %d was asked %d times of %d", i, c, k)
			}
		}
		if h.evals%30 == 0 {
			// random group: members that fail come back, and only configured members are ever asked
			h.begin("random: %d members with failures and re-activation", n)
			var ms []Resolver
			for i := 0; i < n; i++ {
				c := 0
				var mu sync.Mutex
				ms = append(ms, &vfRes{name: fmt.Sprintf("m%d", i), f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
					mu.Lock()
					defer mu.Unlock()
					c++
					if c%3 == 0 {
						return nil, vfErr
					}
					return new(dns.Msg), nil
				}})
			}
			r := NewRandom(id, RandomOptions{ResetAfter: time.Millisecond}, ms...)
			for w := 0; w < 4; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 30; j++ {
						h.guard("random-panic", func() { r.Resolve(q, ClientInfo{}) })
					}
				}()
			}
			wg.Wait()
			time.Sleep(30 * time.Millisecond)
			for i, m := range ms {
				before := m.(*vfRes).count()
				for j := 0; j < 400 && m.(*vfRes).count() == before; j++ {
					r.Resolve(q, ClientInfo{})
					time.Sleep(100 * time.Microsecond)
				}
				if m.(*vfRes).count() == before {
					h.fail("member-lost", "member %d is never asked again after a failure", i)
				}
			}
		}
	}
}
