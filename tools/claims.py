not_applicable = {}
claims["R01"] = "Router.Resolve and route.match proved for all routes, queries and clocks; regular expressions, network containment and the calendar are uninterpreted; parsing of route settings is only covered by the bounded check."
claims["G01"] = "Resolve of the four fail-over groups and isSuccessResponse proved for any number of members and any sequence of outcomes; members are assumed to meet the resolver contract."
claims["G02"] = "Lock invariants and the step functions of the groups proved for every interleaving at lock granularity; the Go memory model below lock granularity is not modelled."
claims["C01"] = "Lookup of both backends, cacheAge, ageCachedAnswer and the blob accessors proved for all messages, ages and clocks within range; packing and unpacking of messages are assumed to round-trip."
claims["C02"] = "Key construction, blob key comparison, the list and Cache.Resolve proved, hash collisions included; the Redis key string is covered by the bounded check only."
claims["C03"] = "storeInCache, minTTL, Cache.Resolve and the prefetch goroutine proved for all responses and settings."
claims["C04"] = "The list operations keep a ghost recency order and the index in step, proved for any number of entries; all backend operations keep the lock invariant."
claims["C05"] = "Encode-then-decode proved through two lemma functions that only call the real encoder and decoder; the JSON file format is covered by the bounded check only."
claims["B01"] = "Bounded: the label tree is built from maps of maps and its construction is outside the contracts; every list of one or two rules over short names, and random longer lists, are compared with a direct reading of the rules."
claims["B02"] = "Blocklist.Resolve and MultiDB.Match proved for every verdict, option, query type and set of addresses; the lists are interfaces whose verdicts are arbitrary."
claims["B03"] = "Bounded for the trie itself (all prefix lengths, all single-bit neighbours, random sets, compared with net.IPNet.Contains); MultiIPDB.Match is proved."
claims["B04"] = "Both response blocklists proved for responses of any size, every list and mode; assumes the list in force gives one verdict per address or name while one response is handled; the text of service records is uninterpreted."
claims["B05"] = "ClientBlocklist.Resolve and MultiIPDB.Match proved for every query, address, option list and configuration."
claims["B06"] = "The five refresh loops, the reloads of the lists and both sources proved for every sequence of outcomes; each refresh loop is assumed to be the only writer of its list; reading files and HTTP bodies is uninterpreted."
claims["M01"] = "TTLModifier.Resolve, the six selection rules and the record iteration proved for responses of any size; the selection rule in the configuration is linked to these functions by a field contract; randomness is an arbitrary value in range."
claims["M02"] = "The client-subnet and EDNS0 edits proved for option lists of any length through lemma functions that only call the real constructors and the function they return; net.IP.Mask and CIDRMask are uninterpreted functions of their arguments, so the bit cut itself is covered by the bounded check."
claims["M05"] = "Both elements proved for responses of any size."
claims["M06"] = "RateLimiter.Resolve and its lock invariant proved for every interleaving at lock granularity, window and quota; assumes the wall clock does not go backwards and windows of at most 10^9 seconds."
claims["M07"] = "requestDedup.Resolve proved for every interleaving at lock and channel granularity; a panic in the resolver behind it is not modelled."
claims["M08"] = "Static and template answers, refusals, failures, name errors and reverse answers proved for any number of records and every query; the text of templates and the parsing of records are uninterpreted."
claims["M03"] = "The three padding functions proved for messages and option lists of any size, and where listeners and clients call them; the encoded length is the library's Len plus the padding bytes, its agreement with the bytes sent is covered by the bounded check."
claims["M04"] = "Embedding, prefix validation, record synthesis and DNS64.Resolve proved for every address, prefix and answer; net.ParseCIDR is uninterpreted."
claims["L01"] = "Every listener's path from a request to the resolver proved guarded by the network check, and the choice of the client address proved; network containment and address parsing are uninterpreted."
claims["L02"] = "Handlers of all listeners proved for every query and outcome; Truncate is assumed to make the message fit the size it is given."
claims["L03"] = "The opcode rule and every place that reads early data, opens a stream or picks the request method proved; the handshake and its channels are uninterpreted functions of the connection."
claims["U01"] = "The question comparison and Resolve of all six clients, the response decoding included, proved for every message an upstream can send."
claims["U02"] = "The in-flight table, request completion and the connection loop's goroutines proved for every interleaving at lock and channel granularity; that each request ends is covered by the bounded check only."
claims["Z01"] = "Resolve of every component and client proved to leave all messages that existed before the call unchanged, for every query and every behaviour of the resolvers behind it; the functions that edit a message are proved to change only the message they are given; the Lua element (a script may change what it wants) is left out, and the address probing of the fastest-TCP element is covered by the bounded check only."
claims["D03"] = "DNSSECValidator.Resolve and the stripping of records proved for every query, response and verdict of the validator; that the verdict is right is the business of the other two validation properties."
