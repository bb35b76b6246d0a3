#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

I, S, H, C, F, K = "inputs", "schedules", "histories", "configurations", "fault_sequences", "crash_points"

prop("R01", "A router sends a query to the first route whose conditions all hold",
 "A router forwards each query to the resolver of the first configured route that matches it, exactly once, and returns that resolver's outcome; with no matching route it returns an error and contacts nobody. A route matches when every configured condition holds (query type, class, name pattern, source network, client-subnet network taken from the last client-subnet option, DoH path, listener, TLS server name, weekday, before and after times), and an inverted route matches exactly when the plain one would not. A 'before' time excludes the named minute itself and an 'after' time includes it.",
 [I, C], "every list of routes, every combination of conditions, every query and client, every minute of the week",
 "The tests build a handful of routers with one or two conditions each; they never combine conditions with inversion, and cannot choose the wall clock.",
 ["router.go", "route.go"],
 [("first-match loop", "router.go Router.Resolve"), ("conjunction of conditions with early return of the inverted flag", "route.go route.match"), ("time comparison", "route.go TimeOfDay.isBefore/isAfter")],
 [("routes", "ordered routes of a router", "router.go"), ("inverted", "negates a route", "route.go")],
 ["which upstream resolver receives the query", "error when none matches"])

prop("C01", "Cached answers age truthfully and are never served past a record's TTL",
 "When a response is served from the cache, every record except the EDNS0 pseudo-record carries the TTL it was stored with minus the whole seconds it spent in the cache. A response any of whose records would reach zero or less, or that is past the lifetime it was stored with, is not served. A clock that moved backwards never lengthens a TTL beyond the stored one and never produces a wrapped-around value.",
 [I, H], "every stored response (any number of records in any section, any TTLs), every storage time and lookup time, both backends",
 "Tests sleep one or two seconds with a single A record; the boundary where age equals a TTL, records in the authority/additional sections, 32-bit extremes and clock steps are not reached.",
 ["cache.go", "cache-memory.go", "cache-redis.go", "cache-blob.go"],
 [("age computation with saturation at zero", "cache.go cacheAge"), ("per-record subtraction and expiry test", "cache.go ageCachedAnswer"), ("expiry test before decoding", "cache-memory.go memoryBackend.Lookup"), ("minimum TTL", "cache.go minTTL")],
 [("timestamp", "time the response was stored", "cache-blob.go"), ("expiry", "end of the entry's lifetime", "cache-blob.go")],
 ["TTL fields of the message returned by a cache lookup", "hit or miss"])

prop("C02", "A cached answer only ever goes to a query it was an answer for",
 "A response stored for one query is served for another only if the two agree on name (ignoring case), type, class, the DNSSEC-OK bit, the checking-disabled bit, and on the client subnet (address and prefix length) they carry. The served message carries the transaction ID and question section of the query being answered and otherwise the stored content. This holds even when two different keys collide in the cache's hash index.",
 [I, H], "every pair of queries and every history of stores and lookups, including hash collisions",
 "Tests vary one key component at a time with fixed names and never produce a hash collision.",
 ["lru-cache.go", "cache-blob.go", "cache-redis.go", "cache-memory.go", "cache.go"],
 [("key construction", "lru-cache.go lruKeyFromQuery"), ("full key comparison after the hash hit", "lru-cache.go find, cache-blob.go matchesKey"), ("key string", "cache-redis.go keyFromQuery"), ("id and question restored", "cache.go ageCachedAnswer")],
 [("lruKey", "the identity of a cached response", "lru-cache.go")],
 ["message returned by a cache lookup"])

prop("C03", "The cache keeps a response no longer than its records and policy allow",
 "A response is kept at most for the smallest TTL among its records (the EDNS0 pseudo-record aside), or for the configured negative TTL when it has none; a server failure is kept at most for the negative TTL and never more than five minutes. A configured per-response-code limit always caps the lifetime. Truncated responses and responses with any other response code are never stored.",
 [I, C], "every upstream response (rcode, TTLs, sections), every cache configuration",
 "Tests cover two rcodes and fixed TTLs; the cross product of rcode, missing records, negative TTL and per-rcode limits is not reached.",
 ["cache.go"],
 [("lifetime selection", "cache.go storeInCache"), ("smallest TTL", "cache.go minTTL"), ("truncated guard", "cache.go Cache.Resolve")],
 [("Expiry", "end of lifetime handed to the backend", "cache.go")],
 ["what the backend is asked to store and until when"])

prop("C04", "The memory cache stays within its size and evicts the least recently used",
 "With a size limit set, the in-memory cache never holds more entries than the limit after any operation, and the entry removed to make room is always the one least recently stored or looked up. The recency order and the index always describe the same set of entries: a lookup finds exactly the entries that were stored and neither replaced, deleted, expired nor evicted.",
 [H, C], "every sequence of stores, lookups, deletes and flushes, for every capacity",
 "Tests run a few fixed sequences; the linked list and index can drift apart only after particular orders of operations.",
 ["lru-cache.go", "cache-memory.go"],
 [("doubly linked list plus index", "lru-cache.go insert/unlink/touch/resize/delete"), ("shrink loop", "lru-cache.go resize")],
 [("items", "index by key hash", "lru-cache.go"), ("head/tail list", "recency order", "lru-cache.go")],
 ["entries found by later lookups", "cache size"])

prop("C05", "Stored cache records decode to exactly what was stored",
 "Encoding a response together with its key, timestamp, expiry and prefetch flag and decoding it again yields the same values, in the in-memory format and in the format shared through Redis. Bytes that are too short, carry an unknown version or do not hold a decodable message are rejected rather than partially used.",
 [I], "every key (names, subnets and flags of any permitted length), every timestamp, every message, every byte string offered for decoding",
 "Round-trip tests use a few fixed keys; offsets computed from lengths and flag bits can be wrong for lengths and combinations not tried.",
 ["cache-blob.go", "cache-redis.go", "lru-cache.go"],
 [("layout with length fields and flag bits", "cache-blob.go newCacheBlobFromWire and accessors"), ("versioned header", "cache-redis.go encodeCacheAnswer/decodeCacheAnswer")],
 [("blob", "one stored record", "cache-blob.go")],
 ["decoded key, times, flags and message"])

prop("C06", "Replacing a persisted file is all-or-nothing at every crash point",
 "When a cache snapshot or a downloaded list is written to disk, at every point of the operation the target name refers either to the complete previous content or to the complete new content, whatever step fails or wherever the process or machine stops. A failed write reports an error, leaves the previous file untouched and leaves no temporary file behind. The replacement keeps the permission bits of the file it replaces.",
 [K, F], "every point between two file-system operations, every operation that can fail",
 "Tests exercise one successful write and one failing writer; they cannot stop between two file-system calls or fail each of them.",
 ["atomicfile.go", "cache-memory.go", "blocklistloader-http.go"],
 [("write to temporary file, flush, sync, close, rename", "atomicfile.go writeFileAtomic"), ("callers write only through it", "cache-memory.go writeToFile, blocklistloader-http.go writeToDisk")],
 [("target file", "previous or new complete content", "atomicfile.go")],
 ["content of the target after a crash or error"])

prop("G01", "Fail-over groups try further members on failure and return the first success",
 "A fail-over group (fail-rotate, fail-back, random, load-balance) asks one member at a time, returns the first successful response unchanged, and asks another member only after the previous one failed. Fail-rotate, fail-back and load-balance ask at most as many times as there are members and report failure only after that many failures, with the last member's outcome; a random group reports failure only when every active member has failed. A response counts as failed when the member returned an error, a refusal or 'not implemented', or a server failure or an answer without any record of the queried type where the group is configured to treat those as errors; a dropped query counts as success.",
 [I, C, F], "every group size, every sequence of member outcomes, every option setting",
 "Tests use two or three members with one failing; long failure sequences, option combinations and dropped responses are not covered.",
 ["failback.go", "failrotate.go", "random.go", "loadbalance.go", "resolver.go", "message.go"],
 [("retry loop", "Resolve of each group"), ("success test", "isSuccessResponse")],
 [("active", "member currently preferred", "failback.go, failrotate.go")],
 ["calls reaching the members", "response returned to the client"])

prop("G02", "A group's shared member selection stays valid under concurrent queries",
 "In every interleaving of concurrent queries the member a group selects is one of its configured members. A failure moves the group's preference away from a member only if that member is still the preferred one, so several simultaneous failures of one member advance the preference by one step, and a round-robin group hands out its members in strict rotation.",
 [S, H], "every interleaving of any number of concurrent queries and failures",
 "Tests run queries one after another; an index read and written under a lock cannot be shown valid by any finite number of runs.",
 ["failback.go", "failrotate.go", "roundrobin.go", "random.go", "loadbalance.go"],
 [("index guarded by a mutex", "failback.go current/errorFrom, failrotate.go current/errorFrom, roundrobin.go Resolve")],
 [("active/current", "index of the preferred member", "failback.go, failrotate.go, roundrobin.go")],
 ["which member receives each query"])

prop("B01", "Domain lists match exactly the names their rules describe",
 "In a domain list a plain rule matches that name only, a rule starting with a dot matches the name and everything below it, and a rule starting with '*.' matches everything below the name but not the name itself; in the subdomain variant a plain rule also covers everything below it. Matching ignores case and a trailing dot, works on whole labels, and never matches a name no rule describes.",
 [I, C], "every list of rules and every query name",
 "Tests check about twenty names against small lists; overlapping rules at different depths and label boundaries are sampled, not exhausted.",
 ["blocklistdb-domain.go"],
 [("label tree built from rules", "blocklistdb-domain.go NewDomainDB"), ("walk from the top-level label", "blocklistdb-domain.go DomainDB.Match")],
 [("node tree", "set of rules keyed by label", "blocklistdb-domain.go")],
 ["match result for a query name"])

prop("B02", "A blocked query never reaches the normal upstream; the allowlist wins",
 "A query matching the allowlist goes to the allowlist resolver if one is configured and otherwise to the normal resolver, and the blocklist has no say. Otherwise a query matching the blocklist never reaches the normal resolver: it goes to the blocklist resolver if configured, or is answered locally with the list's addresses or names of the requested type, or with a name error. A query matching neither list is forwarded to the normal resolver unmodified and its outcome returned.",
 [I, C], "every combination of list results, optional resolvers, query type and list-provided addresses",
 "Tests cover a few combinations with static lists; the full decision table over lists, options and record types is not enumerated.",
 ["blocklist.go", "blocklistdb-multi.go", "message.go"],
 [("ordered decisions", "blocklist.go Blocklist.Resolve"), ("first match over several lists", "blocklistdb-multi.go MultiDB.Match")],
 [("BlocklistDB/AllowlistDB", "current lists, replaced on refresh", "blocklist.go")],
 ["calls to each upstream", "locally produced answer"])

prop("B03", "An address is on a network list exactly when some listed network contains it",
 "A list of addresses and networks matches an address if and only if one of the listed networks of the same family contains it, for any prefix length from zero to the full address, in any order of insertion and with overlapping entries. A bare address means exactly that address. IPv4 addresses match the same rules whether they are held in 4-byte or 16-byte form.",
 [I, C], "every set of networks of both families and every address",
 "Tests use a few networks; bit-level mistakes at particular prefix lengths or for nested networks need inputs that were not chosen.",
 ["ip-blocklist-trie.go", "cidr-db.go", "ip-db-multi.go"],
 [("binary trie on address bits", "ip-blocklist-trie.go add/hasIP"), ("family split", "cidr-db.go NewCidrDB/Match")],
 [("trie", "set of prefixes", "ip-blocklist-trie.go")],
 ["match result for an address"])

prop("B04", "Response blocklists never let a listed address or name through",
 "When the response blocklist is applied, the client never receives a successful upstream response that contains a listed address (or, for the name variant, any upstream response with a listed name): it is replaced by the blocklist resolver's answer or a name error, or, in filter mode, delivered with every listed address record removed and all other records kept in order. With the inverted setting the roles of listed and unlisted are exchanged. A response with nothing to block is delivered unchanged.",
 [I, C], "every upstream response (records of all types in all sections), every list, every mode",
 "Tests use single-record answers; mixed sections, several listed records, and the combination of filter and inverted modes are mostly untested.",
 ["response-blocklist-ip.go", "response-blocklist-name.go"],
 [("scan of all sections", "response-blocklist-ip.go blockIfMatch/filterMatch"), ("name scan", "response-blocklist-name.go")],
 (), ["response delivered to the client"])

prop("B05", "A listed client never gets service from the normal upstream",
 "A query from a client whose address is on the client blocklist is refused, or sent to the blocklist resolver if one is configured, and never reaches the normal resolver; any other client's query is forwarded and its outcome returned. When configured to use the client subnet, the address tested is the one carried in the query's client-subnet option if there is one.",
 [I, C], "every query, client address, option list and configuration",
 "Tests cover one listed and one unlisted client; queries with several options or without the expected ones are not reached.",
 ["client-blocklist.go"],
 [("match then refuse or divert", "client-blocklist.go ClientBlocklist.Resolve")],
 (), ["calls to each upstream", "answer to the client"])

prop("B06", "A failed list refresh keeps the previous list in force",
 "When reloading a list fails, the rules loaded last stay in effect and nothing that was blocked becomes unblocked; a successful reload replaces the whole list at once. A source configured to tolerate failures yields its last successfully loaded rules on failure, and any other source reports the failure.",
 [F, H], "every sequence of successful and failing loads",
 "Tests load a list once; sequences of good and bad loads are not exercised.",
 ["blocklistloader-http.go", "blocklistloader-local.go", "blocklist.go", "client-blocklist.go", "response-blocklist-ip.go", "response-blocklist-name.go", "blocklistdb-multi.go", "ip-db-multi.go"],
 [("keep last rules", "Load of the loaders"), ("swap only on success", "refresh loops and Reload methods")],
 [("lastSuccess", "rules of the last good load", "blocklistloader-http.go, blocklistloader-local.go")],
 ["rules in force after a refresh"])

prop("M01", "The TTL modifier leaves every TTL within the configured bounds",
 "After the TTL modifier every record of the response other than the EDNS0 pseudo-record has a TTL no lower than the configured minimum and, when a maximum is set, no higher than it; a selection rule first sets all TTLs to the lowest, highest, first, last or average one of those present, or to a random value between the configured bounds. Nothing else in the response changes, and errors and dropped queries pass through.",
 [I, C], "every response, every selection rule and every minimum not above the maximum",
 "Tests use three records and one section; empty sections, pseudo-records and extreme values are not covered.",
 ["ttl-modifier.go"],
 [("selection then clamp", "ttl-modifier.go TTLModifier.Resolve and TTLSelect functions")],
 (), ["TTL fields of the response"])

prop("M02", "Client-subnet and EDNS0 edits disclose exactly what is configured",
 "After deletion no client-subnet option is left in the forwarded query; after 'add' exactly one is present, holding the configured or the client's address cut to the configured prefix length; 'add if missing' leaves an existing option alone; the privacy setting leaves no address bits beyond the configured prefix in any IPv4 or IPv6 client-subnet option. These edits concern the query's EDNS0 record (the last one should a malformed query carry several). Generic EDNS0 edits remove every option with the given code and add exactly the configured one. All other options keep their content and order.",
 [I, C], "every query (with no, one or many options), every client address and configuration",
 "Tests use queries with a single option; repeated options and mixed families are not reached.",
 ["ecs-modifier.go", "edns0-modifier.go"],
 [("rebuild of the option list", "ecs-modifier.go, edns0-modifier.go")],
 (), ["query as received by the next resolver"])

prop("M03", "Padding follows block sizes, fits the client, and stays off plain transports",
 "A padded query's encoded length is a multiple of the query block size; a padded response's is a multiple of the response block size unless that would exceed the size the client announced, and padding alone never pushes it beyond that size. Messages are only padded when they are, or answer, a query with EDNS0; afterwards at most one padding option of the EDNS0 record is non-empty and none is added where one is present. Responses leaving over an unencrypted transport, and queries forwarded over one, carry none.",
 [I], "every query and response, every announced size",
 "Tests pad one message; the arithmetic at block boundaries and size limits is not explored.",
 ["padding.go", "dnslistener.go", "dohlistener.go", "dohclient.go", "dotclient.go"],
 [("block arithmetic", "padding.go padAnswer/padQuery"), ("removal on plain transports", "padding.go stripPadding, dnslistener.go listenHandler")],
 (), ["encoded message length", "options of the outgoing message"])

prop("M04", "DNS64 synthesises exactly the RFC 6052 address, and only when it should",
 "An IPv6 address synthesised from an IPv4 address and a permitted prefix embeds the address bits at the RFC 6052 positions, keeps the prefix bits and leaves every other bit zero. Synthesis happens only for IPv6-address queries without the DNSSEC-OK bit whose upstream answer succeeded and holds no IPv6-address record, and every synthesised record derives from one IPv4 record of the answer to the corresponding IPv4 query, once per configured prefix and with its TTL. Prefixes of any other length are rejected.",
 [I, C], "every IPv4 address, every prefix of every permitted length, every upstream behaviour",
 "Tests check a few address/prefix pairs; bit positions differ for each of the six lengths and an error in one is invisible in the others.",
 ["dns64.go"],
 [("embedding", "dns64.go synthesizeIPv6"), ("prefix validation", "dns64.go parseDNS64Prefixes"), ("decision", "dns64.go DNS64.Resolve")],
 (), ["AAAA records returned"])

prop("M05", "Response trimming only removes what it is meant to remove",
 "Minimising a response drops all authority and additional records and changes nothing else. Collapsing reduces the answer section of a successful response to its records of the queried type and class, in their original order and renamed to the queried name, and reports the configured code when none is left. Other responses, errors and dropped queries pass through.",
 [I, C], "every upstream response",
 "Tests use one response each.",
 ["response-minimize.go", "response-collapse.go"],
 [("filter loops", "response-minimize.go, response-collapse.go")],
 (), ["records of the response"])

prop("M06", "A client network never gets more than its quota per window",
 "Within one fixed time window at most the configured number of queries from one client network (by configured prefix length) reach the normal resolver, whatever the interleaving; every further query of that window goes to the limit resolver or is dropped. Queries within the quota are never rejected, and one network's traffic never counts against another's.",
 [S, H, C], "every interleaving of queries, every window, quota and client mix, with a wall clock that does not go backwards",
 "Tests send a few sequential queries from one address; concurrent updates of the shared counters and window changes are not covered.",
 ["rate-limiter.go"],
 [("counter per network under a lock", "rate-limiter.go RateLimiter.Resolve")],
 [("counters", "queries per network in the current window", "rate-limiter.go")],
 ["queries reaching the normal resolver"])

prop("M07", "Merged concurrent queries each get their own correct answer",
 "Queries are merged only if they agree on name (ignoring case), type, class, DNSSEC-OK and checking-disabled bits and client subnet (family, prefix length and address of the first subnet option); a merged query's answer comes from one upstream request made while it was waiting. Every caller receives a message of its own carrying its own transaction ID and question, or the shared error, and once the first caller has its answer later queries trigger a new one.",
 [S, I], "every interleaving of any number of identical and different queries",
 "Tests run two overlapping queries; key collisions and aliasing between the copies handed out are not checked.",
 ["request-dedup.go"],
 [("in-flight table under a lock", "request-dedup.go requestDedup.Resolve"), ("copy per caller", "request-dedup.go")],
 [("inflight", "requests currently running", "request-dedup.go")],
 ["message each caller receives", "number of upstream requests"])

prop("M08", "Locally generated answers mirror the query and never share records",
 "An answer produced without consulting an upstream (static answers, blocks, refusals, failures) carries the query's transaction ID and question, is marked as a response and has the configured response code. Static answer records are delivered under the queried name and in the configured order, template records as their template produces them (empty or unparsable ones are left out), and each answer has its own copy of the records, so later changes to one answer never show up in another.",
 [I, H], "every query and configuration, every history of earlier answers and modifications",
 "Tests look at one answer; aliasing only shows when a later element edits an earlier answer.",
 ["static.go", "static-template.go", "message.go", "drop.go"],
 [("reply construction", "message.go responseWithCode/ptr"), ("record copies", "static.go StaticResolver.Resolve, message.go copyRRs")],
 (), ["answers of successive queries"])

prop("L01", "Queries from clients outside the allowed networks are never resolved",
 "On every listener with allowed networks configured, a query reaches the resolver only if the client's address lies in one of them; other clients are refused or disconnected without any upstream activity. The address is that of the connecting peer, except that a DoH request from a configured trusted proxy is attributed to the last forwarded-for entry when that is a valid non-loopback address; an untrusted peer can never choose the address.",
 [I, C], "every peer address, every header combination, every list of networks, every listener type",
 "Tests check one allowed and one refused client; header spoofing and other listener types are sampled.",
 ["dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go", "dotlistener.go", "dtlslistener.go"],
 [("membership test", "dnslistener.go isAllowed"), ("guard before resolving", "dnslistener.go listenHandler, dohlistener.go parseAndRespond, doqlistener.go handleConnection"), ("proxy header handling", "dohlistener.go extractClientAddress")],
 (), ["calls to the resolver behind the listener"])

prop("L02", "Every listener answers each query at most once, correctly framed",
 "For each query a listener asks the resolver at most once and then sends at most one response: the resolver's answer, a server failure echoing the query's ID and question when the resolver failed, or nothing when the query was dropped. Queries without a question are never passed on. Over UDP and DTLS a response never exceeds the size the client announced (512 bytes when it announced less or nothing), being truncated and marked as such instead.",
 [I, F], "every query and every resolver outcome, every listener configuration including address-family specific ones",
 "Tests exercise the successful path; resolver errors, drops and oversize answers per listener are not all covered.",
 ["dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go"],
 [("handler", "dnslistener.go listenHandler"), ("truncation", "dnslistener.go listenHandler"), ("stream handler", "doqlistener.go handleStream"), ("HTTP handler", "dohlistener.go parseAndRespond")],
 (), ["messages written to the client"])

prop("L03", "Replayable early data never triggers a state-changing operation",
 "A request that arrives as QUIC early data reaches the resolver before the handshake completes only if its operation is a plain query or a notify; anything else waits for the handshake or is rejected. The clients likewise never send any other operation as early data. (Oblivious DoH is served over TCP only, where there is no early data.)",
 [I, S], "every opcode, every handshake state",
 "Tests cover one opcode each way.",
 ["doqlistener.go", "dohlistener.go", "doqclient.go", "dohclient.go", "message.go"],
 [("opcode test", "message.go isReplayableOpcode"), ("guards", "dohlistener.go parseAndRespond, doqlistener.go handleStream, doqclient.go awaitReplaySafe, dohclient.go buildGetRequest")],
 (), ["calls to the resolver", "HTTP method and stream use of the clients"])

prop("U01", "An upstream answer is accepted only if it answers the question asked",
 "A message received from an upstream server is handed back only if its question has the same name (ignoring case), type and class as the query sent; anything else is an error. The accepted answer carries the transaction ID of the caller's query.",
 [I, F], "every query and every byte sequence an upstream can send back",
 "Tests use well-behaved upstreams; forged or mixed-up responses are not enumerated.",
 ["message.go", "dnsclient.go", "dohclient.go", "doqclient.go", "odohclient.go", "pipeline.go"],
 [("question comparison", "message.go validateResponseQuestion"), ("call sites", "responseFromHTTP, decodeProxyResponse, DoQClient.Resolve, Pipeline")],
 (), ["answer or error returned by an upstream client"])

prop("U02", "Pipelined queries on one connection never swap answers",
 "Of the queries outstanding on one shared connection no two carry the same wire ID, and a response is delivered only to the outstanding query whose wire ID it carries and whose question it answers, with the caller's original ID restored. Every query ends exactly once, with a response or an error, including when the connection fails.",
 [S, F], "every interleaving of sends, receives, timeouts and connection failures",
 "Tests send a few pipelined queries; ID reuse, late responses and failures at each point are not enumerated.",
 ["pipeline.go"],
 [("in-flight table with fresh IDs", "pipeline.go inFlightQueue.add/get/delete/drain"), ("single completion", "pipeline.go request.markDone")],
 [("inFlightQueue", "outstanding queries by wire ID", "pipeline.go")],
 ["response each caller receives"])

prop("D01", "Only answers with a complete signature chain count as DNSSEC-secure",
 "The validator accepts an answer as secure only if every record set in its answer section is covered by a signature that names the right type and owner, comes from the zone that owns the name, is within its validity period and verifies under a key of that zone; the keys in turn are accepted only if a key matching an authenticated delegation record of that very zone, or a configured trust anchor, signs them. An answer is treated as provably insecure only on an authenticated proof that the delegation is unsigned, and never when another record set of the same answer fails validation.",
 [I, F], "every answer, every set of keys and signatures, every upstream behaviour",
 "Tests replay a dozen recorded chains; a missing check only shows on a forged answer that exercises it.",
 ["dnssec/validator.go", "dnssec/keystore.go"],
 [("RRset validation", "dnssec/validator.go validateRRset/verifyRRSIG"), ("chain", "dnssec/validator.go buildChainOfTrust/filterKeysByDS"), ("outcome", "dnssec/validator.go Validate")],
 [("key store", "authenticated keys", "dnssec/keystore.go")],
 ["result of validating an answer"])

prop("D02", "Denials of existence are accepted only with a matching authenticated proof",
 "A response without answer records (signatures aside) is accepted as secure only with authenticated NSEC or NSEC3 records that prove the denial: for a missing type a record at the name without that type (and without an alias), for a missing name records covering the name and the applicable wildcard below a proven closest encloser. A record covers a name only if the name lies strictly between its owner and its next name in canonical (or hash) order, with the last record of the zone wrapping around; a record from above a delegation proves nothing about names below it.",
 [I], "every query name and type, every set of denial records",
 "Tests cover a few recorded zones; interval edges, wrap-around, wildcards and opt-out combinations need inputs that were not recorded.",
 ["dnssec/denial.go", "dnssec/denial_existence.go", "dnssec/validator.go"],
 [("canonical order and interval tests", "dnssec/denial.go"), ("proof shapes", "dnssec/denial_existence.go")],
 (), ["result of validating a negative answer"])

prop("D03", "The validating resolver never passes a bogus answer as good",
 "When validation fails the client gets a server failure (or, in log-only mode, the answer without the authenticated mark); the authenticated-data mark is set only on answers that validated, and cleared when upstream set it on any other. Signature and denial records, and the EDNS0 record, are delivered only to clients that asked for them (or queried that type directly), and the caller's query is left as it was.",
 [I, C], "every answer and validation outcome, every client EDNS0 setting",
 "Tests cover the main outcomes with one client setting.",
 ["dnssec.go"],
 [("outcome handling", "dnssec.go DNSSECValidator.Resolve"), ("stripping", "dnssec.go stripDNSSEC/filterDNSSECRR")],
 (), ["response delivered to the client"])

prop("Z01", "No component modifies the query it was given",
 "Resolving a query through any group, modifier, router or upstream client leaves the caller's query message unchanged: its header, question, and every record and option it carries. Components that must alter a query work on a copy of their own.",
 [I, C], "every query and every component that forwards queries",
 "Tests rarely compare the query before and after; a modification in place only shows when a later retry, listener or cache uses the same message.",
 ["ecs-modifier.go", "edns0-modifier.go", "dnssec.go", "dns64.go", "replace.go", "dohclient.go", "doqclient.go", "cache.go", "dnsclient.go", "pipeline.go", "truncate-retry.go"],
 [("copy before modification", "Resolve of the listed components")],
 (), ["the caller's message after the call"])

prop("Z02", "No message content can crash the process",
 "For every query with a question and every response an upstream can deliver (any records, options, sections, sizes, or none at all), the listeners, groups, modifiers and clients return normally: no nil dereference, out-of-range access, failed conversion or division by zero.",
 [I, F], "every well-formed message in memory, every dropped (absent) response, every option list",
 "Fuzzing and tests sample messages; one unguarded access on a rare option or a missing response takes the whole server down.",
 ["cache.go", "padding.go", "doqlistener.go", "dns64.go", "ttl-modifier.go", "dnssec/validator.go", "dnssec.go", "blocklist.go", "route.go", "request-dedup.go", "response-blocklist-ip.go"],
 [("guards before access", "all message-handling functions")],
 (), ["absence of panics"])

prop("X01", "Sandboxed Lua scripts cannot reach the file system or load code",
 "Unless the sandbox is explicitly disabled, a script's environment offers only the base, table, string, math and coroutine libraries, and the base functions that load files or code are removed before any script code runs. This holds for every script instance that is created.",
 [C], "every configuration and every script instance",
 "Tests check a few forbidden names on one instance.",
 ["lua-script.go", "lua.go"],
 [("selective library loading and removal of functions", "lua-script.go openSandboxedLibs/NewScriptFromByteCode"), ("default on", "lua.go newScript")],
 (), ["globals visible to a script"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
