From d5dd3db320284b4612843297f823a0903671771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:51 +0000
Subject: [PATCH 01/24] fix: do not turn empty responses into NXDOMAIN in
 filter mode

A successful response without answer records (no data for this type) has
nothing to remove. The response IP blocklist in filter mode replaced it
with a name error, or sent the query to the blocklist resolver, as if all
of its answers had been filtered.
---
 response-blocklist-ip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/response-blocklist-ip.go b/response-blocklist-ip.go
index 698c3a5..af4621b 100644
--- a/response-blocklist-ip.go
+++ b/response-blocklist-ip.go
@@ -148,9 +148,10 @@ func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo
 }
 
 func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	hadAnswer := len(answer.Answer) > 0
 	answer.Answer = r.filterRR(query, ci, answer.Answer)
 	// If there's nothing left after applying the filter, return NXDOMAIN or send to the alternative resolver
-	if len(answer.Answer) == 0 {
+	if hadAnswer && len(answer.Answer) == 0 {
 		log := Log.With("qname", qName(query))
 		if r.BlocklistResolver != nil {
 			log.With(slog.String("resolver", r.BlocklistResolver.String())).Debug("no answers after filtering, forwarding to blocklist-resolver")
-- 
2.43.0


From cf333a5213f9aa51ecf108db7aabdf13a88c7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:51 +0000
Subject: [PATCH 02/24] fix: handle IPv4-mapped networks in IP lists

A rule such as ::ffff:192.0.2.0/120 was stored in the IPv4 trie with all
of its 16 bytes. It did not match 192.0.2.1 but matched 0.0.0.0.
---
 cidr-db.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cidr-db.go b/cidr-db.go
index 611a9a0..577b98e 100644
--- a/cidr-db.go
+++ b/cidr-db.go
@@ -41,14 +41,16 @@ func NewCidrDB(name string, loader BlocklistLoader) (*CidrDB, error) {
 				r += "/128"
 			}
 		}
-		ip, n, err := net.ParseCIDR(r)
+		_, n, err := net.ParseCIDR(r)
 		if err != nil {
 			return nil, err
 		}
-		if addr := ip.To4(); addr == nil {
+		if addr := n.IP.To4(); addr == nil {
 			db.ip6.add(n)
 		} else {
-			db.ip4.add(n)
+			// IPv4-mapped IPv6 networks have a 16-byte address and mask,
+			// only the last 4 bytes of either belong into the IPv4 trie.
+			db.ip4.add(&net.IPNet{IP: addr, Mask: n.Mask[len(n.Mask)-net.IPv4len:]})
 		}
 	}
 	return db, nil
-- 
2.43.0


From ed9d4d8b58b8e51c60fce3abdc0539f084206c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:51 +0000
Subject: [PATCH 03/24] fix: ignore blank lines in domain lists

A blank line was stored as a rule for the root, so queries for "." were
blocked by any list that contains one.
---
 blocklistdb-domain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blocklistdb-domain.go b/blocklistdb-domain.go
index e036144..1b46d86 100644
--- a/blocklistdb-domain.go
+++ b/blocklistdb-domain.go
@@ -70,6 +70,11 @@ func newDomainDB(name string, loader BlocklistLoader, includeSubdomains bool) (*
 	for _, r := range rules {
 		r = strings.TrimSpace(r)
 
+		// Skip blank lines, they'd end up as a rule for the root
+		if r == "" {
+			continue
+		}
+
 		// Strip trailing . in case the list has FQDN names with . suffixes.
 		r = strings.TrimSuffix(r, ".")
 
-- 
2.43.0


From 93c04d2b1772fe217295243cdc79729f8d31c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:17 +0000
Subject: [PATCH 04/24] fix: leave out static template records that come out
 empty

A template can produce no text for some queries, for instance when it is
conditional on the query type. The parser then returns no record and no
error, and the response was given an empty record that can't be packed.
---
 static-template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/static-template.go b/static-template.go
index 077f1cd..feeac7f 100644
--- a/static-template.go
+++ b/static-template.go
@@ -103,6 +103,10 @@ func (r *StaticTemplateResolver) processRRTemplates(q *dns.Msg, ci ClientInfo, t
 			log.Warn("failed to parse template output", "error", err)
 			continue
 		}
+		// Nothing to add if the template produced no record for this query
+		if rr == nil {
+			continue
+		}
 		// Update the name of every answer record to match that of the query
 		// rr.Header().Name = qName(q)
 		resp = append(resp, rr)
-- 
2.43.0


From 9d12eccacc8cb28717b7957dff94ce0d5d5b94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:17 +0000
Subject: [PATCH 05/24] fix: determine the rate limit window with the lock held

A query that worked out its window just before the end of it and then had to
wait for the lock moved the limiter back to the previous window. That threw
away the counters of the current window, and the next query did so again, so
clients could exceed their limit.
---
 rate-limiter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rate-limiter.go b/rate-limiter.go
index 98b56f4..239694c 100644
--- a/rate-limiter.go
+++ b/rate-limiter.go
@@ -78,12 +78,13 @@ func (r *RateLimiter) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	}
 	key := source.String()
 
-	// Calculate the current (fixed) window
-	windowID := time.Now().Unix() / int64(r.Window)
-
 	var reject bool
 	r.mu.Lock()
 
+	// Calculate the current (fixed) window. This has to be done with the lock held or
+	// a query that was waiting for it could move the limiter back to the previous one.
+	windowID := time.Now().Unix() / int64(r.Window)
+
 	// If we have moved on to the next window, re-initialize the counters
 	if windowID != r.currWinID {
 		r.currWinID = windowID
-- 
2.43.0


From bc9e224aeaee2917383a1af0c744bec583f1a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:17 +0000
Subject: [PATCH 06/24] fix: tell client subnets of different families apart
 when merging queries

Queries with an all-zero IPv4 subnet, an all-zero IPv6 subnet of the same
prefix length, or with no subnet at all and a zero prefix were considered to be
the same and got each other's answer.
---
 request-dedup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request-dedup.go b/request-dedup.go
index ce551b4..9ea6500 100644
--- a/request-dedup.go
+++ b/request-dedup.go
@@ -18,6 +18,7 @@ type dedupKey struct {
 	ecs_ipv6_hi uint64
 	ecs_ipv6_lo uint64
 	ecs_mask    uint8
+	ecs_family  uint16
 }
 
 type inflightRequest struct {
@@ -53,6 +54,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		ecsIPv4              uint32
 		ecsIPv6Lo, ecsIPv6Hi uint64
 		ecsMask              uint8
+		ecsFamily            uint16
 		do                   bool
 	)
 
@@ -65,6 +67,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			if !ok {
 				continue
 			}
+			ecsFamily = ecs.Family
 			switch ecs.Family {
 			case 1: // ip4
 				ecsIPv4 = byteToUint32(ecs.Address.To4())
@@ -86,6 +89,7 @@ func (r *requestDedup) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		ecs_ipv6_hi: ecsIPv6Hi,
 		ecs_ipv6_lo: ecsIPv6Lo,
 		ecs_mask:    ecsMask,
+		ecs_family:  ecsFamily,
 	}
 
 	r.mu.Lock()
-- 
2.43.0


From 045e92f3db58890e3cc4aab7a4664b7efc7d2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:22 +0000
Subject: [PATCH 07/24] fix: reject static records that are blank instead of
 crashing on the first query

---
 static.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/static.go b/static.go
index 960700c..8eead57 100644
--- a/static.go
+++ b/static.go
@@ -1,6 +1,8 @@
 package rdns
 
 import (
+	"fmt"
+
 	"github.com/miekg/dns"
 )
 
@@ -36,21 +38,21 @@ func NewStaticResolver(id string, opt StaticResolverOptions) (*StaticResolver, e
 	r := &StaticResolver{id: id, opt: opt}
 
 	for _, record := range opt.Answer {
-		rr, err := dns.NewRR(record)
+		rr, err := parseStaticRR(record)
 		if err != nil {
 			return nil, err
 		}
 		r.answer = append(r.answer, rr)
 	}
 	for _, record := range opt.NS {
-		rr, err := dns.NewRR(record)
+		rr, err := parseStaticRR(record)
 		if err != nil {
 			return nil, err
 		}
 		r.ns = append(r.ns, rr)
 	}
 	for _, record := range opt.Extra {
-		rr, err := dns.NewRR(record)
+		rr, err := parseStaticRR(record)
 		if err != nil {
 			return nil, err
 		}
@@ -95,3 +97,16 @@ func (r *StaticResolver) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 func (r *StaticResolver) String() string {
 	return r.id
 }
+
+// Parses a record in zone-file format, which has to contain a record. Blank text
+// or comments would result in a nil record otherwise.
+func parseStaticRR(record string) (dns.RR, error) {
+	rr, err := dns.NewRR(record)
+	if err != nil {
+		return nil, err
+	}
+	if rr == nil {
+		return nil, fmt.Errorf("no record found in '%s'", record)
+	}
+	return rr, nil
+}
-- 
2.43.0


From 98843bf8ad6692f361ff451044967c44d0d5fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 08/24] fix: truncate responses on UDP listeners limited to one
 address family

---
 dnslistener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnslistener.go b/dnslistener.go
index b93a6d8..9603237 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -146,7 +146,7 @@ func listenHandler(id, protocol, addr string, r Resolver, allowedNet []*net.IPNe
 		}
 
 		// Check the response actually fits if the query was sent over UDP. If not, respond with TC flag.
-		if protocol == "udp" || protocol == "dtls" {
+		if strings.HasPrefix(protocol, "udp") || protocol == "dtls" {
 			maxSize := dns.MinMsgSize
 			if edns0 := req.IsEdns0(); edns0 != nil {
 				maxSize = int(edns0.UDPSize())
-- 
2.43.0


From 53c21b6200866352789e1910c9e36519f4e3b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 09/24] fix: drop TSIG records from responses, truncating a
 signed response crashed the listener

---
 dnslistener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnslistener.go b/dnslistener.go
index 9603237..bce0882 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -137,6 +137,12 @@ func listenHandler(id, protocol, addr string, r Resolver, allowedNet []*net.IPNe
 			return
 		}
 
+		// A signature from upstream means nothing to the client, and signed messages
+		// can't be padded or truncated.
+		for a.IsTsig() != nil {
+			a.Extra = a.Extra[:len(a.Extra)-1]
+		}
+
 		// If the client asked via DoT and EDNS0 is enabled, the response should be padded for extra security.
 		// See rfc7830 and rfc8467.
 		if protocol == "dot" || protocol == "dtls" {
-- 
2.43.0


From 3f9623a6c049d2cfee30788a475ea1047c7cda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 10/24] fix: close the stream when a query received over DoQ is
 dropped instead of crashing

---
 doqlistener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doqlistener.go b/doqlistener.go
index 7c6458e..66b5676 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -268,6 +268,12 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		a.SetRcode(q, dns.RcodeServerFailure)
 	}
 
+	// A nil response from the resolvers means "drop", close the stream
+	if a == nil {
+		s.metrics.drop.Add(1)
+		return
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
-- 
2.43.0


From db91aac6503ba6b85d15e638544ff48a7e4e48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:47 +0000
Subject: [PATCH 11/24] fix: don't crash on padding options that were added as
 generic EDNS0 options

---
 padding.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/padding.go b/padding.go
index f6b6841..b0e9ef7 100644
--- a/padding.go
+++ b/padding.go
@@ -30,8 +30,8 @@ func padAnswer(q, a *dns.Msg) {
 	// If the answer has padding, grab that and truncate it before re-calculating the length
 	var paddingOpt *dns.EDNS0_PADDING
 	for _, opt := range edns0a.Option {
-		if opt.Option() == dns.EDNS0PADDING {
-			paddingOpt = opt.(*dns.EDNS0_PADDING)
+		if p, ok := opt.(*dns.EDNS0_PADDING); ok {
+			paddingOpt = p
 			paddingOpt.Padding = nil
 		}
 	}
@@ -67,8 +67,8 @@ func padQuery(q *dns.Msg) {
 	// If the query has padding, grab that and truncate it before re-calculating the length
 	var paddingOpt *dns.EDNS0_PADDING
 	for _, opt := range edns0q.Option {
-		if opt.Option() == dns.EDNS0PADDING {
-			paddingOpt = opt.(*dns.EDNS0_PADDING)
+		if p, ok := opt.(*dns.EDNS0_PADDING); ok {
+			paddingOpt = p
 			paddingOpt.Padding = nil
 		}
 	}
-- 
2.43.0


From af5c593febcc630d2109c4c2033153ecc3eeefcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:22 +0000
Subject: [PATCH 12/24] fix: apply the allowed networks of ODoH listeners to
 oblivious and proxied queries

---
 odohlistener.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index c315081..3ccdddd 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -110,6 +110,10 @@ func (s *ODoHListener) Stop() error {
 }
 
 func (s *ODoHListener) ODoHproxyHandler(w http.ResponseWriter, r *http.Request) {
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	if r.Method != http.MethodPost {
 		http.Error(w, "only POST allowed", http.StatusMethodNotAllowed)
 		return
@@ -203,6 +207,10 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		http.Error(w, "only contentType oblivious-dns-message allowed", http.StatusMethodNotAllowed)
 		return
 	}
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	b, err := io.ReadAll(io.LimitReader(r.Body, 4096))
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
-- 
2.43.0


From d69a9eb4fcbe6aeb0277a4f886eb67a438998a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:40 +0000
Subject: [PATCH 13/24] fix: fail DNSSEC validation when a key lookup is
 dropped upstream instead of crashing

---
 dnssec/validator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 10a019e..a468ea0 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -21,6 +21,7 @@ var (
 	ErrInsecureDelegation   = errors.New("dnssec: insecure delegation")
 	ErrSignerOutOfBailiwick = errors.New("dnssec: RRSIG signer name out of bailiwick")
 	ErrDenialOfExistence    = errors.New("dnssec: denial of existence not proven")
+	ErrNoResponse           = errors.New("dnssec: query was dropped")
 )
 
 type Validator struct {
@@ -314,6 +315,9 @@ func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*d
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("%w: %s/%s", ErrNoResponse, name, dns.TypeToString[q.Question[0].Qtype])
+	}
 	if a.Rcode != dns.RcodeSuccess {
 		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
@@ -345,6 +349,9 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("%w: %s/%s", ErrNoResponse, name, dns.TypeToString[q.Question[0].Qtype])
+	}
 	var (
 		ds   []*dns.DS
 		sigs []*dns.RRSIG
-- 
2.43.0


From 26fc016a2bff2cb2c1100d369d7f7ac78f44bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:42 +0000
Subject: [PATCH 14/24] fix: only accept DS records of the zone being
 validated, a DS of a sibling zone was accepted

---
 dnssec/validator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index a468ea0..94e44f2 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -358,6 +358,11 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	)
 	if a.Rcode == dns.RcodeSuccess {
 		for _, rr := range a.Answer {
+			// A DS of another zone, even if signed by the same parent, says
+			// nothing about this one.
+			if dns.CanonicalName(rr.Header().Name) != dns.CanonicalName(name) {
+				continue
+			}
 			switch r := rr.(type) {
 			case *dns.DS:
 				ds = append(ds, r)
-- 
2.43.0


From 0afae35a48129ecdec1c2db5b8c6647e31805b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:45 +0000
Subject: [PATCH 15/24] fix: don't let an insecure RRset hide the validation
 failure of another one in the same answer

---
 dnssec/validator.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 94e44f2..9034237 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -92,21 +92,34 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
+	// An RRset from an insecure zone must not hide the failure of another one,
+	// so report it only once all of them have been checked.
+	var insecure error
 	for key, rrset := range rrsets {
-		rrsigs := sigs[key]
-		if len(rrsigs) == 0 {
-			// Check if this is an insecure delegation by looking for DS in parent
-			zone := rrset[0].Header().Name
-			if err := v.checkInsecureDelegation(zone); err != nil {
-				return err
-			}
-			return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		if errors.Is(err, ErrInsecureDelegation) {
+			insecure = err
+			continue
 		}
-		if err := v.validateRRset(rrset, rrsigs); err != nil {
+		if err != nil {
 			return err
 		}
 	}
-	return nil
+	return insecure
+}
+
+// validateAnswerRRset validates one RRset of an answer. It returns
+// ErrInsecureDelegation if it belongs to a provably unsigned zone.
+func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, rrsigs []*dns.RRSIG) error {
+	if len(rrsigs) == 0 {
+		// Check if this is an insecure delegation by looking for DS in parent
+		zone := rrset[0].Header().Name
+		if err := v.checkInsecureDelegation(zone); err != nil {
+			return err
+		}
+		return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+	}
+	return v.validateRRset(rrset, rrsigs)
 }
 
 // checkInsecureDelegation walks the delegation chain from the root toward
-- 
2.43.0


From 3ef9b3c028c73ea1c11fda5c40a03ea1d1d2e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:47 +0000
Subject: [PATCH 16/24] fix: require proof of denial for answers made up of
 nothing but signatures

---
 dnssec/validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 9034237..651a11e 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -92,6 +92,12 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
+	// Signatures without any records are not an answer either, unless they were
+	// asked for.
+	if len(rrsets) == 0 && (len(answer.Question) == 0 || answer.Question[0].Qtype != dns.TypeRRSIG) {
+		return v.validateDenial(answer)
+	}
+
 	// An RRset from an insecure zone must not hide the failure of another one,
 	// so report it only once all of them have been checked.
 	var insecure error
-- 
2.43.0


From a220229f953ba61828ea8bc1bb3c5644155b1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:15 +0000
Subject: [PATCH 17/24] fix: an NSEC3 record proving that a name exists was
 accepted as proof that it does not

---
 dnssec/denial_existence.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 482479d..f556836 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -292,16 +292,23 @@ func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
 
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Cover(name) {
+		if nsec3Covers(r, name) {
 			return true
 		}
 	}
 	return false
 }
 
+// nsec3Covers reports whether the hash of name lies strictly between the hashes
+// of the NSEC3 record. NSEC3.Cover() alone is also true for the name the record
+// belongs to, which does exist.
+func nsec3Covers(r *dns.NSEC3, name string) bool {
+	return r.Cover(name) && !r.Match(name)
+}
+
 func nsec3OptOutCovers(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Flags&1 == 1 && r.Cover(name) {
+		if r.Flags&1 == 1 && nsec3Covers(r, name) {
 			return true
 		}
 	}
-- 
2.43.0


From 4693d3c0376579debd9651375a9264a54fea7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:18 +0000
Subject: [PATCH 18/24] fix: don't accept a name error for a name that has
 other names below it

---
 dnssec/denial_existence.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index f556836..ecadff8 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -148,6 +148,10 @@ func nsecProvesNXDOMAIN(nsecs []*dns.NSEC, qname string) bool {
 	covered := false
 	for _, n := range nsecs {
 		if nsecCovers(n, qname) {
+			// There are names below qname, so it does exist (without records)
+			if dns.IsSubDomain(qname, dns.CanonicalName(n.NextDomain)) {
+				return false
+			}
 			ce = nsecClosestEncloser(qname, n)
 			covered = true
 			break
-- 
2.43.0


From 5af3ba04910080df2fefc6fe048fed4e982ecf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:46 +0000
Subject: [PATCH 19/24] fix: don't accept denial records from above a
 delegation for names in the delegated zone

---
 dnssec/denial_existence.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index ecadff8..7cf640f 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -118,6 +118,10 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if dns.CanonicalName(n.Hdr.Name) != qname {
 			continue
 		}
+		// At a delegation the parent can only deny DS (RFC 6840 §4.1)
+		if qtype != dns.TypeDS && bitmapIsDelegation(n.TypeBitMap) {
+			continue
+		}
 		return !slices.Contains(n.TypeBitMap, qtype) && !slices.Contains(n.TypeBitMap, dns.TypeCNAME)
 	}
 
@@ -195,6 +199,10 @@ func nsecCovers(n *dns.NSEC, qname string) bool {
 	if qname == owner {
 		return false
 	}
+	// Names below a delegation or DNAME are not part of the zone (RFC 6840 §4.1)
+	if dns.IsSubDomain(owner, qname) && bitmapEndsZone(n.TypeBitMap) {
+		return false
+	}
 	if canonicalNameCmp(owner, next) < 0 {
 		return canonicalNameCmp(owner, qname) < 0 && canonicalNameCmp(qname, next) < 0
 	}
@@ -224,6 +232,9 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 	// Direct match with the type (and CNAME) absent.
 	for _, r := range nsec3s {
 		if r.Match(qname) {
+			if qtype != dns.TypeDS && bitmapIsDelegation(r.TypeBitMap) {
+				continue
+			}
 			return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
 		}
 	}
@@ -279,7 +290,7 @@ func nsec3ClosestEncloser(nsec3s []*dns.NSEC3, qname string) (ce, nextCloser str
 	for k := n - 1; k >= 0; k-- {
 		candidate := lastNLabels(qname, k)
 		if nsec3MatchAny(nsec3s, candidate) {
-			return candidate, lastNLabels(qname, k+1), true
+			return candidate, lastNLabels(qname, k+1), !nsec3EndsZoneAt(nsec3s, candidate)
 		}
 	}
 	return "", "", false
@@ -294,6 +305,29 @@ func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
 	return false
 }
 
+// nsec3EndsZoneAt reports whether one of the records shows that the zone ends
+// at name, so its records can't deny anything below (RFC 5155 §8.3).
+func nsec3EndsZoneAt(nsec3s []*dns.NSEC3, name string) bool {
+	for _, r := range nsec3s {
+		if r.Match(name) && bitmapEndsZone(r.TypeBitMap) {
+			return true
+		}
+	}
+	return false
+}
+
+// bitmapIsDelegation reports whether an NSEC/NSEC3 type bitmap is that of the
+// parent side of a delegation: NS present, SOA absent.
+func bitmapIsDelegation(bitmap []uint16) bool {
+	return slices.Contains(bitmap, dns.TypeNS) && !slices.Contains(bitmap, dns.TypeSOA)
+}
+
+// bitmapEndsZone reports whether nothing below the name with the given type
+// bitmap is part of the zone, because it is delegated or redirected.
+func bitmapEndsZone(bitmap []uint16) bool {
+	return bitmapIsDelegation(bitmap) || slices.Contains(bitmap, dns.TypeDNAME)
+}
+
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
 		if nsec3Covers(r, name) {
-- 
2.43.0


From b673f86fccf1093cec101c94a5888c7e8964f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:49 +0000
Subject: [PATCH 20/24] fix: clear the authenticated-data flag set by upstream
 on responses that were not validated

---
 dnssec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dnssec.go b/dnssec.go
index 091e3b9..a4dee42 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -124,6 +124,9 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, err
 	}
 
+	// Whether or not upstream considers it authentic, it hasn't been validated yet
+	answer.AuthenticatedData = false
+
 	// Only validate successful responses
 	if answer.Rcode != dns.RcodeSuccess && answer.Rcode != dns.RcodeNameError {
 		stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
-- 
2.43.0


From 895efb3ca518137a2dd8f840fa77655c69c458d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:40 +0000
Subject: [PATCH 21/24] fix: restore the query ID in responses received over
 DoH and ODoH

---
 dohclient.go  | 3 +++
 odohclient.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/dohclient.go b/dohclient.go
index 53a4297..aff5f48 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -309,6 +309,9 @@ func (d *DoHClient) responseFromHTTP(q *dns.Msg, resp *http.Response) (*dns.Msg,
 		d.metrics.err.Add("unpack", 1)
 		return nil, err
 	}
+	// HTTP carries the response independently of the DNS message ID, and caches in
+	// between can return one that was made for another query. Restore the ID.
+	a.Id = q.Id
 	if err := validateResponseQuestion(q, a); err != nil {
 		d.metrics.err.Add("question", 1)
 		return nil, err
diff --git a/odohclient.go b/odohclient.go
index 8c43b45..9c7d852 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -132,6 +132,7 @@ func (d *ODoHClient) decodeProxyResponse(q *dns.Msg, resp *http.Response, queryC
 		d.proxy.metrics.err.Add("unpack", 1)
 		return nil, err
 	}
+	a.Id = q.Id
 	if err := validateResponseQuestion(q, a); err != nil {
 		d.proxy.metrics.err.Add("question", 1)
 		return nil, err
-- 
2.43.0


From 10e272988c48e90713d7b8b96c3ddcb11338f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:40 +0000
Subject: [PATCH 22/24] fix: encode a copy of the query in the ODoH client,
 encoding can change the message

---
 odohclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/odohclient.go b/odohclient.go
index 9c7d852..20dda90 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -66,6 +66,9 @@ func NewODoHClient(id, proxy, target, targetConfig string, opt DoHClientOptions)
 
 // Resolve a DNS query.
 func (d *ODoHClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	// Packing a message is not always a read-only operation, make a copy
+	q = q.Copy()
+
 	// Build the encrypted query. The target key is retrieved on-demand
 	msg, queryContext, err := d.buildTargetQuery(q)
 	if err != nil {
-- 
2.43.0


From 066dc5805226627e5ce32f6f0b4445ded0bc105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:50 +0000
Subject: [PATCH 23/24] fix: fail queries when an ODoH target has no supported
 config instead of crashing

---
 odohclient.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/odohclient.go b/odohclient.go
index 20dda90..fa2b8b3 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -185,6 +185,9 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal odohConfig: %w", err)
 		}
+		if len(odohConfigs.Configs) == 0 {
+			return nil, errors.New("no supported odohConfig")
+		}
 		d.odohConfig = &odohConfigs.Configs[0]
 	} else if d.odohConfig == nil || time.Now().After(d.odohConfigExpiry) {
 		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey()
@@ -210,7 +213,10 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(bodyBytes)
 	expiry := time.Now().Add(24 * time.Hour)
 
-	if err != nil || len(odohConfigs.Marshal()) < 1 {
+	if err == nil && len(odohConfigs.Configs) == 0 {
+		err = errors.New("no supported ODoH config")
+	}
+	if err != nil {
 		Log.Warn("Could not load the targets ODoH config")
 		return nil, time.Time{}, err
 	}
-- 
2.43.0


From 3697ec3f3211f31f10aa65d264a26f57491243c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:49:14 +0000
Subject: [PATCH 24/24] fix: require a closest encloser for an NSEC3 opt-out
 denial of DS

An opt-out NSEC3 record was accepted as proof that a name has no DS
record whenever its range contained the hash of the name itself. For a
name more than one label below the zone this says nothing, because the
name may belong to a signed child zone. The record now has to cover the
next closer name below a proven closest encloser.
---
 dnssec/denial_existence.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 7cf640f..a476fbe 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -239,15 +239,16 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 		}
 	}
 
-	// DS NODATA via opt-out: the name is covered by an opt-out NSEC3, proving
-	// no signed DS exists (RFC 5155 §6).
-	if qtype == dns.TypeDS && nsec3OptOutCovers(nsec3s, qname) {
+	ce, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
+
+	// DS NODATA via opt-out: the next closer name is covered by an opt-out
+	// NSEC3, proving no signed DS exists (RFC 5155 §8.6).
+	if qtype == dns.TypeDS && ok && nsec3OptOutCovers(nsec3s, nextCloser) {
 		return true
 	}
 
 	// Wildcard NODATA: closest encloser exists, next closer is covered, and the
 	// wildcard matches with the type absent.
-	ce, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
 	if ok && nsec3CoverAny(nsec3s, nextCloser) {
 		wildcard := "*." + ce
 		for _, r := range nsec3s {
-- 
2.43.0

