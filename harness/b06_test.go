package rdns

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// vfSteps is a list whose reloads follow a script.
type vfSteps struct {
	mu     sync.Mutex
	script []bool // outcome of each reload
	step   int
	done   chan struct{}
	cur    *vfStepDB
	closed []int
}

type vfStepDB struct {
	s   *vfSteps
	gen int
}

func (d *vfStepDB) match(name string) bool { return name == fmt.Sprintf("gen%d", d.gen) }

func (s *vfSteps) reload() (*vfStepDB, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.step >= len(s.script) {
		if s.step == len(s.script) {
			s.step++
			close(s.done)
		}
		return nil, vfErr
	}
	ok := s.script[s.step]
	s.step++
	if !ok {
		return nil, vfErr
	}
	s.cur = &vfStepDB{s, s.step}
	return s.cur, nil
}

type vfStepNames struct{ *vfStepDB }

func (d vfStepNames) Reload() (BlocklistDB, error) {
	n, err := d.s.reload()
	if err != nil {
		return MultiDB{}, err
	}
	return vfStepNames{n}, nil
}
func (d vfStepNames) Match(q *dns.Msg) ([]net.IP, []string, *BlocklistMatch, bool) {
	return nil, nil, &BlocklistMatch{}, d.match(strings.TrimSuffix(q.Question[0].Name, "."))
}
func (d vfStepNames) String() string { return "steps" }

type vfStepIPs struct{ *vfStepDB }

func (d vfStepIPs) Reload() (IPBlocklistDB, error) {
	n, err := d.s.reload()
	if err != nil {
		return MultiIPDB{}, err
	}
	return vfStepIPs{n}, nil
}
func (d vfStepIPs) Match(ip net.IP) (*BlocklistMatch, bool) {
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	for _, c := range d.s.closed {
		if c == d.gen {
			return &BlocklistMatch{}, false
		}
	}
	return &BlocklistMatch{}, ip[3] == byte(d.gen)
}
func (d vfStepIPs) Close() error {
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	d.s.closed = append(d.s.closed, d.gen)
	return nil
}
func (d vfStepIPs) String() string { return "steps" }

type vfScriptLoader struct {
	n     int
	f     func(n int) ([]string, error)
	calls int
}

func (l *vfScriptLoader) Load() ([]string, error) { l.calls++; return l.f(l.calls) }

func TestVerifB06(t *testing.T) {
	h := vfStart(t, 16*time.Second)
	defer h.finish()

	// refresh loops: the list in force after any script of good and bad reloads
	loops := func(kind string, script []bool) {
		if len(h.failures) > 0 {
			return
		}
		h.begin("%s reloads %v", kind, script)
		s := &vfSteps{script: script, done: make(chan struct{})}
		gen := 0
		for i, ok := range script {
			if ok {
				gen = i + 1
			}
		}
		up := &vfRes{name: "up"}
		var r Resolver
		per := time.Millisecond
		switch kind {
		case "blocklist":
			r, _ = NewBlocklist(vfID("b06"), up, BlocklistOptions{BlocklistDB: vfStepNames{&vfStepDB{s, 0}}, BlocklistRefresh: per})
		case "allowlist":
			r, _ = NewBlocklist(vfID("b06"), up, BlocklistOptions{BlocklistDB: vfNameList{}, AllowlistDB: vfStepNames{&vfStepDB{s, 0}}, AllowListResolver: &vfRes{f: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) { return nxdomain(q), nil }}, AllowlistRefresh: per})
		case "response-name":
			up.f = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
				a := new(dns.Msg)
				a.SetReply(q)
				a.Answer = []dns.RR{&dns.CNAME{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeCNAME, Class: 1}, Target: q.Question[0].Name}}
				return a, nil
			}
			r, _ = NewResponseBlocklistName(vfID("b06"), up, ResponseBlocklistNameOptions{BlocklistDB: vfStepNames{&vfStepDB{s, 0}}, BlocklistRefresh: per})
		case "response-ip":
			up.f = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
				a := new(dns.Msg)
				a.SetReply(q)
				var n int
				fmt.Sscanf(q.Question[0].Name, "gen%d.", &n)
				a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1}, A: net.IP{10, 0, 0, byte(n)}}}
				return a, nil
			}
			r, _ = NewResponseBlocklistIP(vfID("b06"), up, ResponseBlocklistIPOptions{BlocklistDB: vfStepIPs{&vfStepDB{s, 0}}, BlocklistRefresh: per})
		case "client":
			r, _ = NewClientBlocklist(vfID("b06"), up, ClientBlocklistOptions{BlocklistDB: vfStepIPs{&vfStepDB{s, 0}}, BlocklistRefresh: per})
		}
		select {
		case <-s.done:
		case <-time.After(10 * time.Second):
			h.fail("refresh-stopped", "only %d of %d reloads within 10 s", s.step, len(script))
			return
		}
		time.Sleep(2 * time.Millisecond)
		for g := 0; g <= len(script); g++ {
			q := new(dns.Msg)
			q.SetQuestion(fmt.Sprintf("gen%d.", g), dns.TypeA)
			var a *dns.Msg
			var err error
			h.guard("panic", func() { a, err = r.Resolve(q, ClientInfo{SourceIP: net.IP{10, 0, 0, byte(g)}}) })
			if err != nil || a == nil {
				h.fail("outcome", "%v %v", a, err)
				return
			}
			if blocked := a.Rcode != 0; blocked != (g == gen) {
				h.fail("list-in-force", "%s: rules of load %d in force = %v, the last good load is %d", kind, g, blocked, gen)
				return
			}
		}
	}
	for n := 0; n <= 3; n++ {
		for m := 0; m < 1<<n; m++ {
			var script []bool
			for i := 0; i < n; i++ {
				script = append(script, m&(1<<i) != 0)
			}
			for _, k := range []string{"blocklist", "allowlist", "response-name", "response-ip", "client"} {
				loops(k, script)
			}
		}
	}

	// lists made of lists and lists made of rules
	for m := 0; m < 27; m++ {
		ok := []bool{m%3 != 0, m/3%3 != 0, m/9%3 != 0}
		h.begin("several lists, reloads %v", ok)
		var dbs []BlocklistDB
		var ipdbs []IPBlocklistDB
		all := true
		for i, o := range ok {
			s := &vfSteps{script: []bool{o}, done: make(chan struct{})}
			dbs = append(dbs, vfStepNames{&vfStepDB{s, 0}})
			s2 := &vfSteps{script: []bool{o}, done: make(chan struct{})}
			ipdbs = append(ipdbs, vfStepIPs{&vfStepDB{s2, 0}})
			all = all && o
			_ = i
		}
		md, _ := NewMultiDB(dbs...)
		nd, err := md.Reload()
		if (err == nil) != all {
			h.fail("multi-reload", "reload outcome %v", err)
		}
		if err == nil {
			if x, ok := nd.(MultiDB); !ok || len(x.dbs) != 3 || x.dbs[2].(vfStepNames).gen != 1 || x.dbs[0].(vfStepNames).gen != 1 {
				h.fail("multi-content", "reloaded list %v", nd)
			}
		}
		mi, _ := NewMultiIPDB(ipdbs...)
		ni, err := mi.Reload()
		if (err == nil) != all {
			h.fail("multi-ip-reload", "reload outcome %v", err)
		}
		if err == nil {
			if x, ok := ni.(MultiIPDB); !ok || len(x.dbs) != 3 || x.dbs[2].(vfStepIPs).gen != 1 || x.dbs[0].(vfStepIPs).gen != 1 {
				h.fail("multi-ip-content", "reloaded list %v", ni)
			}
		}
	}
	for _, sub := range []bool{false, true} {
		l := &vfScriptLoader{f: func(n int) ([]string, error) {
			if n%2 == 0 {
				return nil, vfErr
			}
			return []string{fmt.Sprintf("gen%d.test", n)}, nil
		}}
		h.begin("domain list reload, subdomains=%v", sub)
		var db BlocklistDB
		if sub {
			db, _ = NewDomainSubdomainDB("l", l)
		} else {
			db, _ = NewDomainDB("l", l)
		}
		if _, err := db.Reload(); err == nil {
			h.fail("reload-error-lost", "failed load not reported")
		}
		nd, err := db.Reload()
		if err != nil {
			h.fail("reload", "%v", err)
			continue
		}
		for _, p := range []struct {
			n    string
			want bool
		}{{"gen3.test.", true}, {"gen1.test.", false}, {"w.gen3.test.", sub}} {
			q := new(dns.Msg)
			q.SetQuestion(p.n, dns.TypeA)
			if _, _, _, got := nd.Match(q); got != p.want {
				h.fail("reload-content", "%s: match=%v want %v", p.n, got, p.want)
			}
		}
	}

	// sources
	dir := t.TempDir()
	content := map[string][]string{"a": {"one", "two", ""}, "b": {"three"}, "e": nil}
	write := func(f, k string) {
		os.Remove(f)
		switch k {
		case "missing":
		case "long":
			os.WriteFile(f, []byte("partial\n"+strings.Repeat("x", 70000)+"\nrest\n"), 0o644)
		default:
			os.WriteFile(f, []byte(strings.Join(append(append([]string{}, content[k]...), ""), "\n")), 0o644)
		}
	}
	var mode string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		switch mode {
		case "missing":
			w.WriteHeader(404)
			w.Write([]byte("not found\n"))
		case "error":
			w.WriteHeader(500)
		case "redirectless":
			w.WriteHeader(304)
		case "cut":
			w.Header().Set("Content-Length", "100")
			w.Write([]byte("partial\n"))
		case "long":
			w.Write([]byte("partial\n" + strings.Repeat("x", 70000) + "\nrest\n"))
		default:
			w.Write([]byte(strings.Join(append(append([]string{}, content[mode]...), ""), "\n")))
		}
	}))
	defer srv.Close()
	modes := []string{"a", "b", "e", "missing", "long"}
	hmodes := append(append([]string{}, modes...), "error", "cut", "redirectless")
	n := 0
	for h.more() && n < 600 {
		n++
		allow := h.one(2)
		isHTTP := h.one(2)
		cache := isHTTP && h.one(2)
		steps := 1 + h.rng.Intn(5)
		var l BlocklistLoader
		f := filepath.Join(dir, fmt.Sprintf("list%d", n))
		cdir := ""
		if cache {
			cdir = filepath.Join(dir, fmt.Sprintf("cache%d", n))
			os.Mkdir(cdir, 0o755)
		}
		mk := func() BlocklistLoader {
			if isHTTP {
				return NewHTTPLoader(srv.URL+"/l", HTTPLoaderOptions{AllowFailure: allow, CacheDir: cdir})
			}
			return NewFileLoader(f, FileLoaderOptions{AllowFailure: allow})
		}
		l = mk()
		var last []string
		var disk []string
		hasDisk, first := false, true
		var hist []string
		for i := 0; i < steps; i++ {
			if cache && h.one(4) {
				l = mk() // a restart
				last, first = nil, true
				hist = append(hist, "restart")
			}
			m := modes[h.rng.Intn(len(modes))]
			if isHTTP {
				m = hmodes[h.rng.Intn(len(hmodes))]
			}
			mode = m
			write(f, m)
			hist = append(hist, m)
			h.begin("http=%v cache=%v tolerant=%v loads=%v", isHTTP, cache, allow, hist)
			rules, err := l.Load()
			want, good := content[m], false
			if _, ok := content[m]; ok {
				good = true
			}
			if cache && first && hasDisk {
				want, good = disk, true
			} else if good && cache {
				disk, hasDisk = want, true
			}
			first = false
			switch {
			case good:
				if err != nil || strings.Join(rules, "|") != strings.Join(want, "|") || len(rules) != len(want) {
					h.fail("load", "rules %q error %v, want %q", rules, err, want)
				}
				last = want
			case allow:
				if err != nil || strings.Join(rules, "|") != strings.Join(last, "|") || len(rules) != len(last) {
					h.fail("tolerated", "rules %.60q error %v, want those of the last good load %q", rules, err, last)
				}
			default:
				if err == nil {
					h.fail("failure-lost", "failed load gave %.60q and no error", rules)
				}
			}
		}
	}
}
