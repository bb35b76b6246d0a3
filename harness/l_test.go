package rdns

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	"github.com/miekg/dns"
	"github.com/quic-go/quic-go"
)

func vfNet(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}

var vfNets = []string{"127.0.0.0/8", "10.0.0.0/8", "10.1.0.0/16", "10.1.2.3/32", "192.168.0.0/24", "2001:db8::/32", "::1/128", "0.0.0.0/0", "2001:db8::1/128"}
var vfPeers = []string{"127.0.0.1", "10.1.2.3", "10.1.2.4", "10.2.0.1", "192.168.0.9", "192.168.1.9", "2001:db8::1", "2001:db8::2", "2001:db9::1", "::1", "8.8.8.8"}

func (h *vfH) nets() ([]*net.IPNet, []string) {
	var ns []*net.IPNet
	var ss []string
	for i := h.rng.Intn(4); i > 0; i-- {
		s := vfNets[h.rng.Intn(len(vfNets))]
		ns = append(ns, vfNet(s))
		ss = append(ss, s)
	}
	return ns, ss
}

func vfInside(ns []*net.IPNet, ip net.IP) bool {
	if len(ns) == 0 {
		return true
	}
	for _, n := range ns {
		if ip != nil && n.Contains(ip) {
			return true
		}
	}
	return false
}

func vfHTTP(m *dns.Msg, method string) *http.Request {
	b, _ := m.Copy().Pack()
	if method == "GET" {
		return httptest.NewRequest("GET", "/dns-query?dns="+base64.RawURLEncoding.EncodeToString(b), nil)
	}
	r := httptest.NewRequest("POST", "/dns-query", bytes.NewReader(b))
	r.Header.Set("Content-Type", "application/dns-message")
	return r
}

func TestVerifL01(t *testing.T) {
	h := vfStart(t, 9*time.Second)
	defer h.finish()
	vfDoQ(h, true)
	for h.more() {
		ns, ss := h.nets()
		peer := net.ParseIP(vfPeers[h.rng.Intn(len(vfPeers))])
		if h.one(2) && peer.To4() != nil {
			peer = peer.To4()
		}
		var got []ClientInfo
		up := &vfRes{f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
			got = append(got, ci)
			a := new(dns.Msg)
			a.SetReply(q)
			return a, nil
		}}
		q := h.query()
		if h.one(2) {
			var addr net.Addr = &net.UDPAddr{IP: peer, Port: 99}
			if h.one(2) {
				addr = &net.TCPAddr{IP: peer, Port: 99}
			}
			proto := []string{"udp", "tcp", "dot", "dtls"}[h.rng.Intn(4)]
			h.begin("%s allowed %v peer %v", proto, ss, addr)
			w := &vfWriter{peer: addr}
			h.guard("panic", func() { listenHandler(vfID("l01"), proto, "", up, ns)(w, q) })
			if vfInside(ns, peer) {
				if len(got) != 1 || !got[0].SourceIP.Equal(peer) {
					h.fail("not-resolved", "allowed client: %v", got)
				}
			} else if len(got) != 0 || len(w.sent) > 1 || len(w.sent) == 1 && w.sent[0].Rcode != dns.RcodeRefused {
				h.fail("resolved", "client outside the networks: %d lookups, sent %v", len(got), w.sent)
			}
			continue
		}
		opt := DoHListenerOptions{ListenOptions: ListenOptions{AllowedNet: ns}}
		proxy := ""
		if h.one(2) {
			proxy = vfNets[h.rng.Intn(len(vfNets))]
			opt.HTTPProxyNet = vfNet(proxy)
		}
		var xff []string
		for i := h.rng.Intn(3); i > 0; i-- {
			x := []string{vfPeers[h.rng.Intn(len(vfPeers))], " 10.1.2.3", "junk", "", "127.0.0.1", "10.1.2.3, 8.8.8.8", "8.8.8.8,10.1.2.3 ", "8.8.8.8,"}[h.rng.Intn(8)]
			xff = append(xff, x)
		}
		method := []string{"GET", "POST"}[h.rng.Intn(2)]
		r := vfHTTP(q, method)
		r.RemoteAddr = net.JoinHostPort(peer.String(), "4711")
		for _, x := range xff {
			r.Header.Add("X-Forwarded-For", x)
		}
		client := peer
		if all := strings.Join(xff, ", "); all != "" && opt.HTTPProxyNet != nil && opt.HTTPProxyNet.Contains(peer) {
			last := strings.TrimSpace(all[strings.LastIndex(all, ",")+1:])
			if ip := net.ParseIP(last); ip != nil && !ip.IsLoopback() {
				client = ip
			}
		}
		oblivious := h.one(4)
		h.begin("doh %s allowed %v peer %v proxy %q forwarded %q oblivious=%v", method, ss, peer, proxy, xff, oblivious)
		w := httptest.NewRecorder()
		if oblivious {
			l, err := NewODoHListener(vfID("l01"), "", ODoHListenerOptions{ListenOptions: ListenOptions{AllowedNet: ns}, AllowDoH: h.one(2), OdohMode: "dual"}, up)
			if err != nil {
				h.fail("odoh", "%v", err)
				continue
			}
			r = vfOblivious(l, q)
			r.RemoteAddr = net.JoinHostPort(peer.String(), "4711")
			r.Header.Add("X-Forwarded-For", "10.1.2.3")
			h.guard("odoh-panic", func() { l.ODoHqueryHandler(w, r) })
			if vfInside(ns, peer) && len(got) != 1 || !vfInside(ns, peer) && len(got) != 0 {
				h.fail("odoh-resolved", "%d lookups", len(got))
			}
			asked := 0
			l.proxyClient.Transport = vfTrip(func(*http.Request) (*http.Response, error) {
				asked++
				return nil, vfErr
			})
			pr := httptest.NewRequest("POST", "/proxy?targethost=odoh.example.com&targetpath=/dns-query", strings.NewReader("x"))
			pr.Header.Set("Content-Type", ODOH_CONTENT_TYPE)
			pr.RemoteAddr = r.RemoteAddr
			h.guard("odoh-proxy-panic", func() { l.ODoHproxyHandler(httptest.NewRecorder(), pr) })
			if vfInside(ns, peer) != (asked == 1) {
				h.fail("odoh-proxied", "%d requests to the target", asked)
			}
			continue
		}
		l, _ := NewDoHListener(vfID("l01"), "", opt, up)
		h.guard("doh-panic", func() { l.dohHandler(w, r) })
		if vfInside(ns, client) {
			if len(got) != 1 || !got[0].SourceIP.Equal(client) {
				h.fail("doh-not-resolved", "allowed client %v: %v", client, got)
			}
		} else if len(got) != 0 {
			h.fail("doh-resolved", "client %v outside the networks was resolved as %v", client, got)
		}
	}
}

type vfTrip func(*http.Request) (*http.Response, error)

func (f vfTrip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func vfOblivious(l *ODoHListener, q *dns.Msg) *http.Request {
	b, _ := q.Copy().Pack()
	m, _, err := l.odohKeyPair.Config.Contents.EncryptQuery(odoh.CreateObliviousDNSQuery(b, 0))
	if err != nil {
		panic(err)
	}
	r := httptest.NewRequest("POST", "/dns-query", bytes.NewReader(m.Marshal()))
	r.Header.Set("Content-Type", ODOH_CONTENT_TYPE)
	r.TLS = &tls.ConnectionState{HandshakeComplete: true}
	return r
}

func vfCert() tls.Certificate {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, _ := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// vfDoQ exercises a DoQ listener over a loopback connection.
func vfDoQ(h *vfH, networks bool) {
	cert := vfCert()
	for i := 0; i < 6 && h.more(); i++ {
		pc, err := net.ListenPacket("udp", "127.0.0.1:0")
		if err != nil {
			return
		}
		addr := pc.LocalAddr().String()
		pc.Close()
		var opt DoQListenerOptions
		opt.TLSConfig = &tls.Config{Certificates: []tls.Certificate{cert}}
		allowed := true
		if networks {
			opt.AllowedNet = []*net.IPNet{vfNet([]string{"10.0.0.0/8", "127.0.0.0/8"}[i%2])}
			allowed = i%2 == 1
		}
		kind := i % 4
		up := &vfRes{f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
			switch kind {
			case 0:
				return nil, vfErr
			case 2:
				return nil, nil
			}
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1, Ttl: 5}, A: net.IPv4(1, 2, 3, 4)}}
			return a, nil
		}}
		l := NewQUICListener(vfID("doq"), addr, opt, up)
		go l.Start()
		h.risky("doq allowed=%v upstream=%d", allowed, kind)
		q := new(dns.Msg)
		q.SetQuestion("example.com.", dns.TypeA)
		q.Id = 77
		empty := i == 5
		if empty {
			q.Question = nil
		}
		b, _ := q.Pack()
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		var c *quic.Conn
		for try := 0; try < 20; try++ {
			c, err = quic.DialAddr(ctx, addr, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"doq"}}, nil)
			if err == nil {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		if err != nil {
			cancel()
			l.Stop()
			continue
		}
		var got []byte
		s, err := c.OpenStreamSync(ctx)
		if err == nil {
			out := make([]byte, 2+len(b))
			binary.BigEndian.PutUint16(out, uint16(len(b)))
			copy(out[2:], b)
			s.Write(out)
			s.Close()
			s.SetReadDeadline(time.Now().Add(800 * time.Millisecond))
			got, _ = io.ReadAll(s)
		}
		c.CloseWithError(0, "")
		cancel()
		l.Stop()
		n := up.count()
		switch {
		case !allowed || empty:
			if n != 0 || len(got) != 0 {
				h.fail("doq-resolved", "%d lookups, %d bytes", n, len(got))
			}
		case n != 1:
			h.fail("doq-lookups", "%d lookups", n)
		case kind == 2:
			if len(got) != 0 {
				h.fail("doq-drop", "%d bytes for a dropped query", len(got))
			}
		default:
			a := new(dns.Msg)
			if len(got) < 2 || int(binary.BigEndian.Uint16(got)) != len(got)-2 || a.Unpack(got[2:]) != nil {
				h.fail("doq-frame", "badly framed response % x", got)
				continue
			}
			if a.Id != 77 || len(a.Question) != 1 || kind == 0 && a.Rcode != dns.RcodeServerFailure || kind != 0 && len(a.Answer) != 1 {
				h.fail("doq-answer", "%s", vfShow(a))
			}
		}
	}
}

func TestVerifL02(t *testing.T) {
	h := vfStart(t, 9*time.Second)
	defer h.finish()
	vfDoQ(h, false)
	for h.more() {
		q := h.query()
		if h.one(8) {
			q.Question = nil
		}
		kind := h.rng.Intn(6)
		var a *dns.Msg
		up := &vfRes{f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
			switch kind {
			case 0:
				return nil, vfErr
			case 1:
				return nil, nil
			}
			a = h.answer(q)
			for i := h.rng.Intn(40); i > 0; i-- {
				a.Answer = append(a.Answer, h.rr(h.name()))
			}
			if h.one(5) {
				a.Extra = append(a.Extra, &dns.TSIG{Hdr: dns.RR_Header{Name: "key.", Rrtype: dns.TypeTSIG, Class: dns.ClassANY}, Algorithm: dns.HmacSHA256, MAC: "00", MACSize: 1})
			}
			return a, nil
		}}
		var sent *dns.Msg
		n, size := 0, -1
		what := "doh"
		if h.one(2) {
			what = []string{"udp", "udp4", "udp6", "tcp", "tcp4", "dot", "dtls"}[h.rng.Intn(7)]
			h.begin("%s kind=%d %s", what, kind, vfShow(q))
			w := &vfWriter{peer: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}}
			h.guard("panic", func() { listenHandler(vfID("l02"), what, "", up, nil)(w, q) })
			if n = len(w.sent); n > 0 {
				sent = w.sent[0]
				size = vfWire(h, sent)
			}
		} else {
			method := []string{"GET", "POST"}[h.rng.Intn(2)]
			h.begin("doh %s kind=%d %s", method, kind, vfShow(q))
			l, _ := NewDoHListener(vfID("l02"), "", DoHListenerOptions{}, up)
			w := httptest.NewRecorder()
			r := vfHTTP(q, method)
			h.guard("doh-panic", func() { l.dohHandler(w, r) })
			if b := w.Body.Bytes(); w.Code == 200 && len(b) > 0 {
				sent = new(dns.Msg)
				n = 1
				if err := sent.Unpack(b); err != nil {
					h.fail("doh-body", "%v in % x", err, b)
					continue
				}
			}
		}
		if len(q.Question) == 0 {
			if up.count() != 0 || n != 0 && what != "doh" {
				h.fail("empty", "query without a question: %d lookups, %d responses", up.count(), n)
			}
			continue
		}
		if up.count() != 1 || n > 1 {
			h.fail("count", "%d lookups, %d responses", up.count(), n)
			continue
		}
		if kind == 1 {
			if n != 0 {
				h.fail("drop", "response to a dropped query")
			}
			continue
		}
		if n != 1 {
			if what == "doh" {
				if _, err := a.Copy().Pack(); err != nil {
					continue
				}
			}
			h.fail("silent", "no response")
			continue
		}
		if sent.Id != q.Id || len(sent.Question) != 1 || sent.Question[0] != q.Question[0] {
			h.fail("question", "%s", vfShow(sent))
		}
		if kind == 0 {
			if sent.Rcode != dns.RcodeServerFailure || len(sent.Answer) != 0 {
				h.fail("failure", "%s", vfShow(sent))
			}
			continue
		}
		if sent.Rcode != a.Rcode {
			h.fail("rcode", "%d instead of %d", sent.Rcode, a.Rcode)
		}
		if strings.HasPrefix(what, "udp") || what == "dtls" {
			max := 512
			if o := q.IsEdns0(); o != nil && int(o.UDPSize()) > max {
				max = int(o.UDPSize())
			}
			if size > max {
				h.fail("size", "%d bytes for a client that takes %d", size, max)
			}
		}
	}
}

func TestVerifL03(t *testing.T) {
	h := vfStart(t, 6*time.Second)
	defer h.finish()
	for h.more() {
		op := h.rng.Intn(16)
		safe := op == dns.OpcodeQuery || op == dns.OpcodeNotify
		if h.one(2) {
			opt := DoHClientOptions{Method: "GET", Use0RTT: h.one(2), Transport: []string{"tcp", "quic"}[h.rng.Intn(2)]}
			q := h.query()
			q.Opcode = op
			h.begin("client opcode=%d 0rtt=%v transport=%s", op, opt.Use0RTT, opt.Transport)
			opt2 := opt
			opt2.Transport, opt2.Use0RTT = "tcp", false
			c, err := NewDoHClient(vfID("l03"), "https://example.com/dns-query{?dns}", opt2)
			if err != nil {
				h.fail("client", "%v", err)
				continue
			}
			c.opt.Transport, c.opt.Use0RTT = opt.Transport, opt.Use0RTT
			var method string
			c.client.Transport = vfTrip(func(r *http.Request) (*http.Response, error) {
				method = r.Method
				return nil, vfErr
			})
			c.Resolve(q, ClientInfo{})
			if method != "GET" && !safe {
				h.fail("client-early", "opcode sent with method %s", method)
			}
			if method == "" {
				h.fail("client-silent", "nothing sent")
			}
			continue
		}
		state := h.rng.Intn(3)
		method := []string{"GET", "POST"}[h.rng.Intn(2)]
		q := h.query()
		q.Opcode = op
		h.begin("server opcode=%d tls=%d method=%s", op, state, method)
		r := vfHTTP(q, method)
		switch state {
		case 1:
			r.TLS = &tls.ConnectionState{}
		case 2:
			r.TLS = &tls.ConnectionState{HandshakeComplete: true}
		}
		up := &vfRes{}
		l, _ := NewDoHListener(vfID("l03"), "", DoHListenerOptions{}, up)
		w := httptest.NewRecorder()
		h.guard("panic", func() { l.dohHandler(w, r) })
		if state == 1 && !safe && up.count() != 0 {
			h.fail("server-early", "state-changing operation resolved before the handshake completed")
		}
		if (state != 1 || safe) && up.count() != 1 {
			h.fail("server-refused", "%d lookups, status %d", up.count(), w.Code)
		}
	}
	_ = fmt.Sprint
}
