package rdns

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	"github.com/miekg/dns"
	"github.com/quic-go/quic-go"
)

// vfDial connects a pipeline to a function that plays the server.
type vfDial struct {
	serve func(c *dns.Conn)
	fail  func() bool
}

func (d vfDial) Dial(string) (*dns.Conn, error) {
	if d.fail != nil && d.fail() {
		return nil, vfErr
	}
	a, b := net.Pipe()
	go d.serve(&dns.Conn{Conn: b})
	return &dns.Conn{Conn: a}, nil
}

// vfTwist makes a response to q that answers it (0, 5, 6) or does not.
func vfTwist(q *dns.Msg, kind int) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1, Ttl: 5}, A: net.IPv4(1, 2, 3, 4)}}
	n := q.Question[0].Name
	switch kind {
	case 1:
		a.Question[0].Name = "x" + n
		if n == "." {
			a.Question[0].Name = "x."
		}
	case 2:
		a.Question[0].Qtype ^= 1
	case 3:
		a.Question[0].Qclass ^= 2
	case 4:
		a.Question = nil
	case 5:
		a.Question[0].Name = strings.ToUpper(n)
	case 6:
		a.Id ^= 0x5a5a
	case 7: // another label
		if i := strings.Index(n, "."); i > 0 {
			a.Question[0].Name = n[i+1:] + "test."
		} else {
			a.Question[0].Name = "test."
		}
	}
	return a
}

func vfQuestionSame(a, q *dns.Msg) bool {
	return len(a.Question) > 0 && strings.EqualFold(a.Question[0].Name, q.Question[0].Name) && a.Question[0].Qtype == q.Question[0].Qtype && a.Question[0].Qclass == q.Question[0].Qclass
}

func vfQUICServer(kind *int, mu *sync.Mutex) (string, func()) {
	ln, err := quic.ListenAddr("127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{vfCert()}, NextProtos: []string{"doq"}}, nil)
	if err != nil {
		return "", nil
	}
	go func() {
		for {
			c, err := ln.Accept(context.Background())
			if err != nil {
				return
			}
			go func() {
				for {
					s, err := c.AcceptStream(context.Background())
					if err != nil {
						return
					}
					b, _ := io.ReadAll(s)
					q := new(dns.Msg)
					if len(b) < 2 || q.Unpack(b[2:]) != nil {
						s.Close()
						continue
					}
					mu.Lock()
					a := vfTwist(q, *kind)
					mu.Unlock()
					p, _ := a.Pack()
					out := make([]byte, 2+len(p))
					binary.BigEndian.PutUint16(out, uint16(len(p)))
					copy(out[2:], p)
					s.Write(out)
					s.Close()
				}
			}()
		}
	}()
	return ln.Addr().String(), func() { ln.Close() }
}

// vfClients makes one client of each kind, each with a server that answers as kind says.
func vfClients(t *testing.T, mu *sync.Mutex, kind *int) (clients map[string]Resolver, names []string, stop func()) {
	clients, stop = map[string]Resolver{}, func() {}

	dial := vfDial{serve: func(c *dns.Conn) {
		defer c.Close()
		for {
			q, err := c.ReadMsg()
			if err != nil {
				return
			}
			mu.Lock()
			a := vfTwist(q, *kind)
			mu.Unlock()
			c.WriteMsg(a)
		}
	}}
	timeout := 300 * time.Millisecond
	clients["dns"] = &DNSClient{id: "u01", pipeline: NewPipeline(vfID("u01"), "x", dial, timeout), opt: DNSClientOptions{UDPSize: 1232}}
	clients["dot"] = &DoTClient{id: "u01", pipeline: NewPipeline(vfID("u01"), "x", dial, timeout)}
	clients["dtls"] = &DTLSClient{id: "u01", pipeline: NewPipeline(vfID("u01"), "x", dial, timeout)}
	for _, m := range []string{"GET", "POST"} {
		c, err := NewDoHClient(vfID("u01"), "https://example.com/dns-query{?dns}", DoHClientOptions{Method: m})
		if err != nil {
			t.Fatal(err)
		}
		c.client.Transport = vfTrip(func(r *http.Request) (*http.Response, error) {
			var b []byte
			if r.Method == "POST" {
				b, _ = io.ReadAll(r.Body)
			} else {
				b, _ = base64.RawURLEncoding.DecodeString(r.URL.Query().Get("dns"))
			}
			q := new(dns.Msg)
			if err := q.Unpack(b); err != nil {
				return nil, err
			}
			p, _ := vfTwist(q, *kind).Pack()
			return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(p))}, nil
		})
		clients["doh-"+m] = c
	}
	keys, err := odoh.CreateDefaultKeyPair()
	if err == nil {
		cfg := odoh.CreateObliviousDoHConfigs([]odoh.ObliviousDoHConfig{keys.Config})
		o, err := NewODoHClient(vfID("u01"), "https://proxy.example.com/proxy", "https://target.example.com/dns-query", vfHex(cfg.Marshal()), DoHClientOptions{})
		if err == nil {
			o.proxy.client.Transport = vfTrip(func(r *http.Request) (*http.Response, error) {
				b, _ := io.ReadAll(r.Body)
				om, err := odoh.UnmarshalDNSMessage(b)
				if err != nil {
					return nil, err
				}
				oq, rc, err := keys.DecryptQuery(om)
				if err != nil {
					return nil, err
				}
				q := new(dns.Msg)
				if err := q.Unpack(oq.DnsMessage); err != nil {
					return nil, err
				}
				p, _ := vfTwist(q, *kind).Pack()
				or := odoh.CreateObliviousDNSResponse(p, 0)
				om, err = rc.EncryptResponse(or)
				if err != nil {
					return nil, err
				}
				hd := http.Header{}
				hd.Set("content-type", ODOH_CONTENT_TYPE)
				return &http.Response{StatusCode: 200, Header: hd, Body: io.NopCloser(bytes.NewReader(om.Marshal()))}, nil
			})
			clients["odoh"] = o
		}
	}
	if addr, end := vfQUICServer(kind, mu); end != nil {
		stop = end
		if c, err := NewDoQClient(vfID("u01"), addr, DoQClientOptions{TLSConfig: &tls.Config{InsecureSkipVerify: true}, QueryTimeout: 2 * time.Second}); err == nil {
			clients["doq"] = c
		}
	}
	for _, n := range []string{"dns", "dot", "dtls", "doh-GET", "doh-POST", "odoh", "doq"} {
		if clients[n] != nil {
			names = append(names, n)
		}
	}
	return clients, names, stop
}

func TestVerifU01(t *testing.T) {
	h := vfStart(t, 10*time.Second)
	defer h.finish()
	var mu sync.Mutex
	kind := 0
	clients, names, stop := vfClients(t, &mu, &kind)
	defer stop()
	late := 0
	for h.more() {
		n := names[h.rng.Intn(len(names))]
		k := h.rng.Intn(8)
		piped := n == "dns" || n == "dot" || n == "dtls"
		if k == 6 && piped {
			if late++; late > 6 { // each waits for the timeout
				continue
			}
		}
		mu.Lock()
		kind = k
		mu.Unlock()
		q := h.query()
		q.Opcode = 0
		q.Question[0].Name = vfNames[h.rng.Intn(len(vfNames))]
		if h.one(3) {
			q.Question[0].Name = "MiXed." + strings.TrimPrefix(q.Question[0].Name, ".")
		}
		before := vfShow(q)
		h.risky("%s kind=%d %s", n, k, before)
		a, err := clients[n].Resolve(q, ClientInfo{})
		if vfShow(q) != before {
			h.fail("query-changed", "now %s", vfShow(q))
		}
		if err == nil {
			if a == nil {
				h.fail("nothing", "neither answer nor error")
				continue
			}
			if !vfQuestionSame(a, q) {
				h.fail("question", "accepted %s", vfShow(a))
			}
			if a.Id != q.Id {
				h.fail("id", "answer carries ID %d", a.Id)
			}
			if k == 6 && piped {
				h.fail("wrong-id", "accepted a message that carries another ID")
			}
			continue
		}
		if k == 0 || k == 5 || (k == 6 && !piped) {
			if strings.Contains(err.Error(), "timeout") || strings.Contains(err.Error(), "deadline") || n == "doq" {
				continue // the machine was busy
			}
			h.fail("refused", "%v", err)
		}
	}
}

func vfHex(b []byte) string {
	const d = "0123456789abcdef"
	var s []byte
	for _, c := range b {
		s = append(s, d[c>>4], d[c&15])
	}
	return string(s)
}

// vfToken is carried by a query in a local option and by the response in a text record.
func vfToken(m *dns.Msg) string {
	if o := m.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if l, ok := x.(*dns.EDNS0_LOCAL); ok && l.Code == 65100 {
				return string(l.Data)
			}
		}
	}
	for _, r := range m.Answer {
		if x, ok := r.(*dns.TXT); ok {
			return x.Txt[0]
		}
	}
	return ""
}

func TestVerifU02(t *testing.T) {
	h := vfStart(t, 12*time.Second)
	defer h.finish()
	realID := dns.Id
	defer func() { dns.Id = realID }()
	var imu sync.Mutex
	irng := rand.New(rand.NewSource(h.rng.Int63()))
	space := 1 << 16
	dns.Id = func() uint16 { // few IDs, so that they are picked again
		imu.Lock()
		defer imu.Unlock()
		return uint16(irng.Intn(space))
	}
	for i := 0; i < 4000 && h.more(); i++ {
		vfTable(h)
	}
	for round := 0; h.more(); round++ {
		n := 1 + h.rng.Intn(24)
		imu.Lock()
		space = []int{n + 1, n + 8, 64, 1 << 16}[h.rng.Intn(4)]
		imu.Unlock()
		plan := h.rng.Intn(6) // 0 all answered in random order, 1 some never, 2 twice, 3 connection dies, 4 stray ones, 5 dialling fails at first
		seed := h.rng.Int63()
		h.risky("n=%d ids=%d plan=%d seed=%d", n, space, plan, seed)
		var mu sync.Mutex
		wire := map[string]uint16{} // wire ID a token was sent with
		held := map[uint16]string{} // received and not answered
		rng := rand.New(rand.NewSource(seed))
		answerable := map[string]bool{}
		conns := 0
		fails := 0
		dial := vfDial{fail: func() bool {
			mu.Lock()
			defer mu.Unlock()
			fails++
			return plan == 5 && fails <= 2
		}}
		dial.serve = func(c *dns.Conn) {
			defer c.Close()
			mu.Lock()
			conns++
			mine := conns
			if mine > 1 {
				held = map[uint16]string{}
			}
			mu.Unlock()
			msgs := make(chan *dns.Msg, 100)
			go func() {
				defer close(msgs)
				for {
					q, err := c.ReadMsg()
					if err != nil {
						return
					}
					mu.Lock()
					tok := vfToken(q)
					if other, ok := held[q.Id]; ok && other != tok && plan != 1 {
						h.fail("shared-id", "ID %d given to %s and %s", q.Id, other, tok)
					}
					held[q.Id] = tok
					wire[tok] = q.Id
					mu.Unlock()
					msgs <- q
				}
			}()
			var pool []*dns.Msg
			what := func(n int) bool {
				mu.Lock()
				defer mu.Unlock()
				return rng.Intn(n) == 0
			}
			send := func(q *dns.Msg, id uint16) {
				a := new(dns.Msg)
				a.SetReply(q)
				a.Id = id
				a.Truncated, a.Rcode = what(3), 0
				if what(4) {
					a.Rcode = dns.RcodeServerFailure
				}
				a.Answer = []dns.RR{&dns.TXT{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeTXT, Class: 1, Ttl: 5}, Txt: []string{vfToken(q)}}}
				c.WriteMsg(a)
			}
			for {
				select {
				case q, ok := <-msgs:
					if !ok {
						return
					}
					pool = append(pool, q)
				case <-time.After(300 * time.Microsecond):
					if len(pool) == 0 {
						continue
					}
					mu.Lock()
					i := rng.Intn(len(pool))
					q := pool[i]
					pool = append(pool[:i], pool[i+1:]...)
					what := rng.Intn(4)
					die := plan == 3 && mine < 3 && rng.Intn(4) == 0
					tok := vfToken(q)
					drop := plan == 1 && what == 0
					if !drop {
						delete(held, q.Id)
						answerable[tok] = true
					}
					mu.Unlock()
					switch {
					case die:
						return
					case drop:
						continue
					case plan == 2 && what < 2:
						send(q, q.Id)
						send(q, q.Id)
					case plan == 4 && what < 2:
						mu.Lock()
						stray := uint16(rng.Intn(1 << 16))
						_, used := held[stray]
						mu.Unlock()
						if !used && stray != q.Id && space == 1<<16 {
							send(q, stray)
						}
						send(q, q.Id)
					default:
						send(q, q.Id)
					}
				}
			}
		}
		wait := 700 * time.Millisecond
		if plan == 1 {
			wait = 150 * time.Millisecond
		}
		p := NewPipeline(vfID("u02"), "x", dial, wait)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			q := new(dns.Msg)
			q.SetQuestion(vfNames[h.rng.Intn(2)], dns.TypeTXT)
			q.Id = uint16(h.rng.Intn(3))
			tok := strconv.Itoa(i)
			q.SetEdns0(1232, false)
			o := q.IsEdns0()
			o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: 65100, Data: []byte(tok)})
			wg.Add(1)
			go func(id uint16) {
				defer wg.Done()
				<-start
				a, err := p.Resolve(q)
				if err != nil {
					if _, slow := err.(QueryTimeoutError); !slow && (plan == 0 || plan == 2 || plan == 4) {
						h.fail("error", "%v", err)
					}
					return
				}
				mu.Lock()
				defer mu.Unlock()
				if a == nil {
					h.fail("nothing", "neither answer nor error")
					return
				}
				if a.Id != id {
					h.fail("id", "answer carries ID %d instead of %d", a.Id, id)
				}
				if got := vfToken(a); got != tok && wire[got] != wire[tok] {
					h.fail("swapped", "query %s (ID %d) got the response of %s (ID %d)", tok, wire[tok], got, wire[got])
				}
			}(q.Id)
		}
		h.within("ends", 5*time.Second, func() {
			close(start)
			wg.Wait()
		})
		p.inFlight.mu.Lock()
		left := len(p.inFlight.requests)
		p.inFlight.mu.Unlock()
		if left > 0 && (plan == 0 || plan == 2 || plan == 4) {
			mu.Lock()
			all := len(answerable) == n
			mu.Unlock()
			if all {
				h.fail("left", "%d requests left behind", left)
			}
		}
	}
}

// vfTable compares the table of outstanding requests with a map after random operations.
func vfTable(h *vfH) {
	real := dns.Id
	defer func() { dns.Id = real }()
	dns.Id = func() uint16 { return uint16(h.rng.Intn(6)) }
	var t inFlightQueue
	model := map[uint16]*request{}
	var all []*request
	var done []string
	for i := 1 + h.rng.Intn(12); i > 0; i-- {
		switch k := h.rng.Intn(8); {
		case k < 4 && len(model) < 6:
			q := h.query()
			r := newRequest(q)
			all = append(all, r)
			if h.one(4) {
				done = append(done, "new")
				continue // a request that is never sent
			}
			m := t.add(r)
			done = append(done, "add")
			h.begin("table %v", done)
			if m == nil {
				h.fail("table-full", "refused")
				return
			}
			if model[m.Id] != nil {
				h.fail("table-id", "ID %d is in use", m.Id)
				return
			}
			model[m.Id] = r
		case k < 6:
			a := h.answer(h.query())
			a.Id = uint16(h.rng.Intn(6))
			done = append(done, "get "+strconv.Itoa(int(a.Id)))
			h.begin("table %v", done)
			if got := t.get(a); got != model[a.Id] {
				h.fail("table-get", "not the request with that ID")
				return
			}
			delete(model, a.Id)
		case k == 6 && len(all) > 0:
			n := h.rng.Intn(len(all))
			done = append(done, "delete "+strconv.Itoa(n))
			h.begin("table %v", done)
			t.delete(all[n])
			for id, r := range model {
				if r == all[n] {
					delete(model, id)
				}
			}
		case k == 7 && h.one(3):
			done = append(done, "drain")
			h.begin("table %v", done)
			t.drain(vfErr)
			for _, r := range model {
				select {
				case <-r.done:
				default:
					h.fail("table-drain", "request not ended")
					return
				}
			}
			model = map[uint16]*request{}
		}
		if len(t.requests) != len(model) {
			h.fail("table-size", "%d instead of %d requests", len(t.requests), len(model))
			return
		}
	}
}
