package rdns

import (
	"net"

	"github.com/miekg/dns"
)

// One request handled by a listener of the given protocol.
func vfListen(id, protocol, addr string, r Resolver, allowedNet []*net.IPNet, w dns.ResponseWriter, req *dns.Msg) {
	listenHandler(id, protocol, addr, r, allowedNet)(w, req)
}
