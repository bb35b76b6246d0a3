package rdns

import (
	"net"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// vfPads returns the padding options of a message and whether it has an EDNS0 record.
func vfPads(m *dns.Msg) (pads []dns.EDNS0, edns bool) {
	o := m.IsEdns0()
	if o == nil {
		return nil, false
	}
	for _, x := range o.Option {
		if x.Option() == dns.EDNS0PADDING {
			pads = append(pads, x)
		}
	}
	return pads, true
}

func vfPadBytes(pads []dns.EDNS0) (n, nonEmpty int) {
	for _, x := range pads {
		if p, ok := x.(*dns.EDNS0_PADDING); ok && len(p.Padding) > 0 {
			n += len(p.Padding)
			nonEmpty++
		}
	}
	return
}

func vfWire(h *vfH, m *dns.Msg) int {
	b, err := m.Copy().Pack()
	if err != nil {
		return -1
	}
	return len(b)
}

// vfWriter stands in for a client connection of the plain listeners.
type vfWriter struct {
	peer   net.Addr
	sent   []*dns.Msg
	closed int
}

func (w *vfWriter) LocalAddr() net.Addr         { return &net.UDPAddr{} }
func (w *vfWriter) RemoteAddr() net.Addr        { return w.peer }
func (w *vfWriter) WriteMsg(m *dns.Msg) error   { w.sent = append(w.sent, m.Copy()); return nil }
func (w *vfWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *vfWriter) Close() error                { w.closed++; return nil }
func (w *vfWriter) TsigStatus() error           { return nil }
func (w *vfWriter) TsigTimersOnly(bool)         {}
func (w *vfWriter) Hijack()                     {}
func (w *vfWriter) Network() string             { return "" }

func TestVerifM03(t *testing.T) {
	h := vfStart(t, 9*time.Second)
	defer h.finish()
	for h.more() {
		q := h.query()
		if o := q.IsEdns0(); o != nil {
			o.SetUDPSize([]uint16{0, 200, 467, 468, 469, 512, 600, 935, 936, 937, 1232, 4096, 65535}[h.rng.Intn(13)])
		}
		switch h.rng.Intn(3) {
		case 0:
			before := q.Copy()
			hadPads, hadEdns := vfPads(q)
			h.begin("query %s", vfShow(q))
			h.guard("query-panic", func() { padQuery(q) })
			pads, edns := vfPads(q)
			if edns != hadEdns || !hadEdns && vfShow(q) != vfShow(before) {
				h.fail("query-edns0", "EDNS0 added to or changed in a query without it")
				continue
			}
			if !hadEdns {
				continue
			}
			if len(hadPads) > 0 && len(pads) != len(hadPads) || len(hadPads) == 0 && len(pads) != 1 {
				h.fail("query-count", "%d padding options became %d", len(hadPads), len(pads))
			}
			if _, k := vfPadBytes(pads); k > 1 {
				h.fail("query-several", "%d padding options with content", k)
			}
			if n := vfWire(h, q); n >= 0 && n%128 != 0 {
				h.fail("query-length", "encoded length %d", n)
			}
		case 1:
			a := h.answer(q)
			a.Compress = h.one(2)
			before := a.Copy()
			hadPads, hadEdns := vfPads(a)
			_, qEdns := vfPads(q)
			h.begin("answer to %s: compress=%v %s", vfShow(q), a.Compress, vfShow(a))
			h.guard("answer-panic", func() { padAnswer(q, a) })
			pads, edns := vfPads(a)
			if !qEdns {
				if vfShow(a) != vfShow(before) {
					h.fail("answer-unasked", "response changed although the query has no EDNS0: %s", vfShow(a))
				}
				continue
			}
			if !edns {
				h.fail("answer-edns0", "no EDNS0 record in the response")
				continue
			}
			if len(hadPads) > 0 && len(pads) != len(hadPads) || len(hadPads) == 0 && len(pads) > 1 {
				h.fail("answer-count", "%d padding options became %d", len(hadPads), len(pads))
			}
			n, k := vfPadBytes(pads)
			if k > 1 {
				h.fail("answer-several", "%d padding options with content", k)
			}
			l, size := vfWire(h, a), int(q.IsEdns0().UDPSize())
			if l < 0 {
				continue
			}
			if n > 0 && l > size {
				h.fail("answer-too-long", "padding makes the response %d bytes for a client that takes %d", l, size)
			}
			if l%468 != 0 && l-n-(l-n)%468+468 <= size && hadEdns {
				h.fail("answer-length", "encoded length %d, the client takes %d", l, size)
			}
		default:
			a := h.answer(q)
			proto := []string{"udp", "tcp", "udp4", "tcp6", "dot", "dtls"}[h.rng.Intn(6)]
			_, qEdns := vfPads(q)
			_, aEdns := vfPads(a)
			h.begin("%s %s: %s", proto, vfShow(q), vfShow(a))
			w := &vfWriter{peer: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)}}
			up := &vfRes{f: func(*dns.Msg, ClientInfo) (*dns.Msg, error) { return a, nil }}
			h.guard("listen-panic", func() { listenHandler(vfID("m03"), proto, "", up, nil)(w, q) })
			if len(w.sent) != 1 {
				h.fail("listen-sent", "%d responses", len(w.sent))
				continue
			}
			pads, edns := vfPads(w.sent[0])
			switch {
			case proto == "dot" || proto == "dtls":
				if !qEdns && edns && !aEdns {
					h.fail("listen-added", "padding for a client without EDNS0")
				}
				if qEdns && proto == "dot" && !edns {
					h.fail("listen-unpadded", "no EDNS0 record on an encrypted transport")
				}
				if l := vfWire(h, w.sent[0]); qEdns && proto == "dot" && l >= 0 && l%468 != 0 && l-l%468+468 <= int(q.IsEdns0().UDPSize()) {
					n, _ := vfPadBytes(pads)
					if l-n-(l-n)%468+468 <= int(q.IsEdns0().UDPSize()) {
						h.fail("listen-length", "encoded length %d", l)
					}
				}
			case len(pads) > 0:
				h.fail("listen-plain", "padding on a plain transport")
			}
		}
	}
}
