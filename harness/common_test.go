package rdns

// Shared helpers of the bounded checks. Every file of this directory is laid into the
// package under test with `go test -overlay`.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/miekg/dns"
)

type vfH struct {
	t        *testing.T
	mu       sync.Mutex
	rng      *rand.Rand
	evals    int
	distinct map[string]bool
	samples  []string
	failures []map[string]string
	classes  map[string]bool
	deadline time.Time
	max      int
	cur      string
	curFile  string
	thorough bool
}

func vfStart(t *testing.T, quick time.Duration) *vfH {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &vfH{t: t, rng: rand.New(rand.NewSource(seed + 7)), distinct: map[string]bool{}, classes: map[string]bool{}}
	if os.Getenv("VERIF_TIER") == "thorough" {
		h.thorough = true
		quick *= 12
	}
	h.deadline = time.Now().Add(quick)
	h.max = 1 << 30
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		h.curFile = filepath.Join(d, "current-case")
	}
	return h
}

// more reports whether there is time for another case; it stops early once failures are found.
func (h *vfH) more() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return time.Now().Before(h.deadline) && len(h.failures) < 5 && h.evals < h.max
}

// begin notes the case about to run. Crashes are attributed to it.
func (h *vfH) begin(format string, a ...any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	h.cur = fmt.Sprintf(format, a...)
	if len(h.distinct) < 200000 {
		h.distinct[h.cur] = true
	}
	if len(h.samples) < 5 {
		h.samples = append(h.samples, h.cur)
	}
}

// risky is begin for cases whose failure may take the process down.
func (h *vfH) risky(format string, a ...any) {
	h.begin(format, a...)
	if h.curFile != "" {
		os.WriteFile(h.curFile, []byte(h.cur), 0o600)
	}
}

func (h *vfH) fail(class, format string, a ...any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.classes[class] {
		return
	}
	h.classes[class] = true
	h.failures = append(h.failures, map[string]string{"class": class, "what": fmt.Sprintf(format, a...), "input": h.cur})
}

// guard runs f and reports a panic as a failure of the current case.
func (h *vfH) guard(class string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			h.fail(class, "panic: %v", r)
		}
	}()
	f()
}

// within runs f and reports a failure when it does not come back in time.
func (h *vfH) within(class string, d time.Duration, f func()) bool {
	done := make(chan struct{})
	var pan any
	go func() {
		defer close(done)
		defer func() { pan = recover() }()
		f()
	}()
	select {
	case <-done:
		if pan != nil {
			h.fail(class+"-panic", "panic: %v", pan)
		}
		return true
	case <-time.After(d):
		h.fail(class+"-hang", "no return within %v", d)
		return false
	}
}

func (h *vfH) finish() {
	h.mu.Lock()
	defer h.mu.Unlock()
	if f := os.Getenv("VERIF_OUT"); f != "" {
		b, _ := json.Marshal(map[string]any{"evaluations": h.evals, "distinct": len(h.distinct), "samples": h.samples, "failures": h.failures})
		os.WriteFile(f, b, 0o644)
	}
	for _, f := range h.failures {
		h.t.Errorf("%s: %s\n  case: %s", f["class"], f["what"], f["input"])
	}
}

// vfRes is a resolver under the control of the check.
type vfRes struct {
	name string
	mu   sync.Mutex
	n    int
	last *dns.Msg
	f    func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error)
}

func (r *vfRes) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
	r.mu.Lock()
	r.n++
	r.last = q.Copy()
	f := r.f
	r.mu.Unlock()
	if f == nil {
		a := new(dns.Msg)
		a.SetReply(q)
		return a, nil
	}
	return f(q, ci)
}
func (r *vfRes) String() string { return r.name }
func (r *vfRes) count() int     { r.mu.Lock(); defer r.mu.Unlock(); return r.n }
func (r *vfRes) query() *dns.Msg {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.last
}

var vfErr = errors.New("verif: upstream failure")

var vfIDn int64
var vfIDmu sync.Mutex

// vfID gives a fresh component name: expvar refuses to publish a name twice.
func vfID(p string) string {
	vfIDmu.Lock()
	defer vfIDmu.Unlock()
	vfIDn++
	return fmt.Sprintf("vf-%s-%d", p, vfIDn)
}

var vfNames = []string{"example.com.", "www.example.com.", "a.b.example.com.", "example.org.", "EXAMPLE.com.", "com.", ".", "sub.test.", "xn--a.test.", "cname.example.com.", "b.example.com.", "1.2.0.192.in-addr.arpa."}
var vfTypes = []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeCNAME, dns.TypeTXT, dns.TypeMX, dns.TypeNS, dns.TypeSOA, dns.TypePTR, dns.TypeSRV, dns.TypeHTTPS, dns.TypeANY, dns.TypeDNSKEY, dns.TypeDS, dns.TypeRRSIG, dns.TypeNSEC, 65280}

func (h *vfH) name() string   { return vfNames[h.rng.Intn(len(vfNames))] }
func (h *vfH) typ() uint16    { return vfTypes[h.rng.Intn(len(vfTypes))] }
func (h *vfH) one(n int) bool { return h.rng.Intn(n) == 0 }

func (h *vfH) ip4() net.IP {
	return net.IPv4(byte(h.rng.Intn(4)+1), byte(h.rng.Intn(3)), 0, byte(h.rng.Intn(5))).To4()
}

func (h *vfH) ip6() net.IP {
	b := make(net.IP, 16)
	copy(b, []byte{0x20, 0x01, 0x0d, 0xb8, byte(h.rng.Intn(2))})
	b[15] = byte(h.rng.Intn(5))
	b[6] = byte(h.rng.Intn(256))
	return b
}

func (h *vfH) ttl() uint32 {
	return []uint32{0, 1, 2, 3, 5, 9, 10, 11, 30, 59, 60, 61, 300, 3600, 86400, 1 << 31, 1<<32 - 1}[h.rng.Intn(17)]
}

// rr makes a record of a random kind.
func (h *vfH) rr(name string) dns.RR {
	hd := func(t uint16) dns.RR_Header {
		return dns.RR_Header{Name: name, Rrtype: t, Class: dns.ClassINET, Ttl: h.ttl()}
	}
	switch h.rng.Intn(18) {
	case 0, 1, 2:
		return &dns.A{Hdr: hd(dns.TypeA), A: h.ip4()}
	case 3, 4:
		return &dns.AAAA{Hdr: hd(dns.TypeAAAA), AAAA: h.ip6()}
	case 5:
		return &dns.CNAME{Hdr: hd(dns.TypeCNAME), Target: h.name()}
	case 6:
		return &dns.TXT{Hdr: hd(dns.TypeTXT), Txt: []string{strings.Repeat("t", h.rng.Intn(200))}}
	case 7:
		return &dns.MX{Hdr: hd(dns.TypeMX), Preference: 1, Mx: h.name()}
	case 8:
		return &dns.NS{Hdr: hd(dns.TypeNS), Ns: h.name()}
	case 9:
		return &dns.SOA{Hdr: hd(dns.TypeSOA), Ns: h.name(), Mbox: h.name(), Minttl: h.ttl(), Serial: 1}
	case 10:
		return &dns.PTR{Hdr: hd(dns.TypePTR), Ptr: h.name()}
	case 11:
		return &dns.SRV{Hdr: hd(dns.TypeSRV), Target: h.name(), Port: 53}
	case 12:
		return &dns.RRSIG{Hdr: hd(dns.TypeRRSIG), TypeCovered: dns.TypeA, Algorithm: 8, SignerName: "example.com.", Signature: "AAAA"}
	case 13:
		return &dns.DNAME{Hdr: hd(dns.TypeDNAME), Target: h.name()}
	case 14:
		return &dns.HTTPS{SVCB: dns.SVCB{Hdr: hd(dns.TypeHTTPS), Priority: 1, Target: h.name(), Value: []dns.SVCBKeyValue{&dns.SVCBAlpn{Alpn: []string{"h2"}}}}}
	case 15:
		return &dns.CAA{Hdr: hd(dns.TypeCAA), Tag: "issue", Value: "ca.test"}
	case 16:
		return &dns.NSEC{Hdr: hd(dns.TypeNSEC), NextDomain: h.name(), TypeBitMap: []uint16{1, 46}}
	default:
		return &dns.RFC3597{Hdr: hd(65280), Rdata: "0102"}
	}
}

func (h *vfH) subnet() *dns.EDNS0_SUBNET {
	e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: uint8(h.rng.Intn(33)), Address: h.ip4()}
	if h.one(3) {
		e.Family, e.SourceNetmask, e.Address = 2, uint8(h.rng.Intn(129)), h.ip6()
	}
	return e
}

func (h *vfH) option() dns.EDNS0 {
	switch h.rng.Intn(6) {
	case 0, 1:
		return h.subnet()
	case 2:
		return &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0102030405060708"}
	case 3:
		return &dns.EDNS0_PADDING{Padding: make([]byte, h.rng.Intn(20))}
	case 4:
		return &dns.EDNS0_EDE{InfoCode: uint16(h.rng.Intn(20)), ExtraText: "x"}
	default:
		return &dns.EDNS0_LOCAL{Code: uint16(65001 + h.rng.Intn(3)), Data: []byte{1, 2, 3}}
	}
}

func (h *vfH) opt() *dns.OPT {
	o := &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}}
	o.SetUDPSize([]uint16{0, 512, 513, 600, 1232, 4096, 65535}[h.rng.Intn(7)])
	if h.one(2) {
		o.SetDo()
	}
	for h.one(2) && len(o.Option) < 4 {
		o.Option = append(o.Option, h.option())
	}
	return o
}

// query makes a query; most have one question and no records.
func (h *vfH) query() *dns.Msg {
	q := new(dns.Msg)
	q.SetQuestion(h.name(), h.typ())
	q.Id = uint16(h.rng.Intn(1 << 16))
	q.RecursionDesired = !h.one(4)
	q.CheckingDisabled = h.one(4)
	q.AuthenticatedData = h.one(4)
	if h.one(6) {
		q.Question[0].Qclass = dns.ClassCHAOS
	}
	if h.one(2) {
		q.Extra = append(q.Extra, h.opt())
	}
	return q
}

func (h *vfH) rrs(max int, qname string) []dns.RR {
	var s []dns.RR
	for i := h.rng.Intn(max + 1); i > 0; i-- {
		n := qname
		if h.one(3) {
			n = h.name()
		}
		s = append(s, h.rr(n))
	}
	return s
}

// answer makes a response to q with random content.
func (h *vfH) answer(q *dns.Msg) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.Rcode = []int{0, 0, 0, 0, 3, 2, 5, 4, 1}[h.rng.Intn(9)]
	a.Authoritative, a.AuthenticatedData, a.RecursionAvailable = h.one(3), h.one(3), !h.one(3)
	a.Truncated = h.one(12)
	qn := "example.com."
	if len(q.Question) > 0 {
		qn = q.Question[0].Name
	}
	a.Answer = h.rrs(4, qn)
	a.Ns = h.rrs(2, qn)
	a.Extra = h.rrs(2, qn)
	if h.one(2) {
		i := h.rng.Intn(len(a.Extra) + 1)
		a.Extra = append(a.Extra[:i], append([]dns.RR{h.opt()}, a.Extra[i:]...)...)
	}
	return a
}

// vfShow renders a message for comparison and reports, Go values included.
func vfShow(m *dns.Msg) string {
	if m == nil {
		return "<nil>"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "hdr=%+v q=%v", m.MsgHdr, m.Question)
	for n, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		fmt.Fprintf(&b, " s%d=[", n)
		for _, rr := range s {
			if o, ok := rr.(*dns.OPT); ok {
				fmt.Fprintf(&b, "OPT size=%d do=%v ttl=%d", o.UDPSize(), o.Do(), o.Hdr.Ttl)
				for _, x := range o.Option {
					fmt.Fprintf(&b, " {%d %T %+v}", x.Option(), x, x)
				}
				b.WriteString(";")
				continue
			}
			fmt.Fprintf(&b, "%v;", rr)
		}
		b.WriteString("]")
	}
	return strings.ReplaceAll(b.String(), "\t", " ")
}

func vfCI(ip string) ClientInfo { return ClientInfo{SourceIP: net.ParseIP(ip)} }
