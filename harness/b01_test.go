package rdns

import (
	"strings"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// vfDomainRule reports whether one rule describes a name, both as written in the list.
func vfDomainRule(rule, name string, sub bool) bool {
	rule = strings.ToLower(strings.TrimSuffix(strings.TrimSpace(rule), "."))
	name = strings.ToLower(strings.TrimSuffix(name, "."))
	below := func(n, apex string) bool { return strings.HasSuffix(n, "."+apex) }
	switch {
	case strings.HasPrefix(rule, "*."):
		return below(name, rule[2:])
	case strings.HasPrefix(rule, "."):
		return name == rule[1:] || below(name, rule[1:])
	case sub:
		return name == rule || below(name, rule)
	}
	return name == rule
}

func TestVerifB01(t *testing.T) {
	h := vfStart(t, 14*time.Second)
	defer h.finish()
	var names []string
	var grow func(suffix string, depth int)
	grow = func(suffix string, depth int) {
		for _, l := range []string{"a", "b"} {
			n := l + suffix
			names = append(names, n)
			if depth > 1 {
				grow("."+n, depth-1)
			}
		}
	}
	grow("", 3)
	var rules []string
	for _, n := range names {
		rules = append(rules, n, "."+n, "*."+n)
	}
	var short []string
	for _, r := range rules {
		if n := strings.TrimLeft(r, "*."); len(n) == 1 || (len(n) == 3 && n[2] == 'a') {
			short = append(short, r)
		}
	}
	var probes []string
	probes = append(probes, names...)
	for _, n := range names {
		if strings.Count(n, ".") == 2 {
			probes = append(probes, "a."+n, "ab."+n)
		}
	}
	probes = append(probes, "c", "c.a", "ab", "ba", "xa.b", "")
	check := func(list []string, sub bool) {
		h.begin("list=%q subdomains=%v", list, sub)
		h.guard("panic", func() {
			var db BlocklistDB
			var err error
			if sub {
				db, err = NewDomainSubdomainDB("list", NewStaticLoader(list))
			} else {
				db, err = NewDomainDB("list", NewStaticLoader(list))
			}
			if err != nil {
				h.fail("load-error", "%v", err)
				return
			}
			for _, p := range probes {
				want := false
				for _, r := range list {
					want = want || vfDomainRule(r, p, sub)
				}
				q := new(dns.Msg)
				q.SetQuestion(p+".", dns.TypeA)
				if _, _, _, got := db.Match(q); got != want {
					h.fail("match", "name %q: match=%v, rules say %v", p, got, want)
					return
				}
			}
		})
	}
	for _, sub := range []bool{false, true} {
		for _, a := range rules {
			check([]string{a}, sub)
			for _, b := range rules {
				check([]string{a, b}, sub)
			}
		}
	}
	for _, sub := range []bool{false, true} {
		for _, a := range short {
			for _, b := range short {
				for _, c := range short {
					check([]string{a, b, c}, sub)
				}
			}
		}
	}
	// longer lists, other spellings
	spell := func(r string) string {
		switch h.rng.Intn(6) {
		case 0:
			return strings.ToUpper(r)
		case 1:
			return r + "."
		case 2:
			return "  " + r + "\t"
		}
		return r
	}
	deep := func() string {
		n := 1 + h.rng.Intn(5)
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, []string{"a", "b", "ab", "a-b", "xn--x"}[h.rng.Intn(5)])
		}
		return strings.Join(p, ".")
	}
	for h.more() {
		var list []string
		n := 3 + h.rng.Intn(8)
		var pool []string
		for i := 0; i < 6; i++ {
			pool = append(pool, deep())
		}
		for i := 0; i < n; i++ {
			base := pool[h.rng.Intn(len(pool))]
			if h.one(3) {
				base = deep() + "." + base
			}
			list = append(list, spell([]string{"", ".", "*."}[h.rng.Intn(3)]+base))
			if h.one(12) {
				list = append(list, "")
			}
		}
		sub := h.one(2)
		h.begin("list=%q subdomains=%v", list, sub)
		h.guard("panic", func() {
			var db BlocklistDB
			var err error
			if sub {
				db, err = NewDomainSubdomainDB("list", NewStaticLoader(list))
			} else {
				db, err = NewDomainDB("list", NewStaticLoader(list))
			}
			if err != nil {
				h.fail("load-error", "%v", err)
				return
			}
			for i := 0; i < 30; i++ {
				p := deep()
				if h.one(2) {
					p = strings.TrimSpace(strings.TrimLeft(list[h.rng.Intn(len(list))], " .*"))
					switch h.rng.Intn(5) {
					case 0:
						p = "w." + p
					case 1:
						p = "x" + p
					case 2:
						if i := strings.IndexByte(p, '.'); i >= 0 {
							p = p[i+1:]
						}
					case 3:
						p = strings.ToUpper(p)
					}
				}
				p = strings.TrimSuffix(p, ".")
				want := false
				for _, r := range list {
					want = want || (strings.TrimSpace(r) != "" && vfDomainRule(r, p, sub))
				}
				q := new(dns.Msg)
				q.SetQuestion(p+".", dns.TypeA)
				if _, _, _, got := db.Match(q); got != want {
					h.fail("match", "name %q: match=%v, rules say %v", p, got, want)
					return
				}
			}
		})
	}
}
