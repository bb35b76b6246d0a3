package rdns

import (
	"net"

	"github.com/miekg/dns"
)

// The configured query modifications, applied to one query.

func vfECSAdd(addr net.IP, prefix4, prefix6 uint8, id string, q *dns.Msg, ci ClientInfo) {
	ECSModifierAdd(addr, prefix4, prefix6)(id, q, ci)
}

func vfECSAddIfMissing(addr net.IP, prefix4, prefix6 uint8, id string, q *dns.Msg, ci ClientInfo) {
	ECSModifierAddIfMissing(addr, prefix4, prefix6)(id, q, ci)
}

func vfECSPrivacy(prefix4, prefix6 uint8, id string, q *dns.Msg, ci ClientInfo) {
	ECSModifierPrivacy(prefix4, prefix6)(id, q, ci)
}

func vfEDNS0Delete(code uint16, q *dns.Msg, ci ClientInfo) {
	EDNS0ModifierDelete(code)(q, ci)
}

func vfEDNS0Add(code uint16, data []byte, q *dns.Msg, ci ClientInfo) {
	EDNS0ModifierAdd(code, data)(q, ci)
}
