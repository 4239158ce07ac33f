package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"

	"github.com/kgantsov/doq/pkg/cluster"
	discoveryv1 "k8s.io/api/discovery/v1"
	"k8s.io/client-go/rest"

	"vmc/core"
)

// C23: the real Cluster over the real SRV discovery, with the resolver and the API server
// replaced: every ordered set of peer names, and every history of leadership changes, address
// changes, lookup failures and API failures.

const (
	kNamespace = "default"
	kService   = "doq"
	kPort      = "8000"
)

// api is an API server holding endpoint slices.
type api struct {
	slices map[string]discoveryv1.EndpointSlice
	n      int // requests since the last reset
	faults int // how many of the next ones may fail
	hit    []string
	ch     *core.Choices
}

func (a *api) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	a.n++
	by := 0
	if a.faults > 0 {
		by = a.ch.Pick(4)
	}
	if by > 0 {
		a.faults--
		a.hit = append(a.hit, fmt.Sprintf("%s fails (%s)", r.Method, []string{"", "internal error", "connection refused", "done, but the connection breaks"}[by]))
	}
	switch by {
	case 1:
		return reply(r, 500, statusOf(500, "InternalError")), nil
	case 2:
		return nil, errors.New("connection refused")
	}
	code, out := a.handle(r, body)
	if by == 3 {
		return nil, errors.New("connection reset by peer")
	}
	return reply(r, code, out), nil
}

func reply(r *http.Request, code int, body []byte) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: r}
}

func statusOf(code int, reason string) []byte {
	st := "Failure"
	if code < 300 {
		st = "Success"
	}
	b, _ := json.Marshal(map[string]any{"kind": "Status", "apiVersion": "v1", "metadata": map[string]any{}, "status": st, "reason": reason, "message": reason, "code": code})
	return b
}

const slicesPath = "/apis/discovery.k8s.io/v1/namespaces/"

func (a *api) handle(r *http.Request, body []byte) (int, []byte) {
	rest, ok := strings.CutPrefix(r.URL.Path, slicesPath)
	if !ok {
		return 404, statusOf(404, "NotFound")
	}
	p := strings.Split(rest, "/")
	if len(p) < 2 || p[1] != "endpointslices" {
		return 404, statusOf(404, "NotFound")
	}
	ns, name := p[0], ""
	if len(p) > 2 {
		name = ns + "/" + p[2]
	}
	old, exists := a.slices[name]
	put := func(code int) (int, []byte) {
		var s discoveryv1.EndpointSlice
		if err := json.Unmarshal(body, &s); err != nil {
			return 400, statusOf(400, "BadRequest")
		}
		if s.Namespace != "" && s.Namespace != ns || len(s.Ports) == 0 && r.Method != "PATCH" {
			return 422, statusOf(422, "Invalid")
		}
		s.Namespace = ns
		a.slices[ns+"/"+s.Name] = s
		b, _ := json.Marshal(s)
		return code, b
	}
	switch {
	case name == "" && r.Method == "POST":
		var s discoveryv1.EndpointSlice
		json.Unmarshal(body, &s)
		if _, ok := a.slices[ns+"/"+s.Name]; ok {
			return 409, statusOf(409, "AlreadyExists")
		}
		return put(201)
	case name == "" && (r.Method == "GET" || r.Method == "DELETE"):
		l := discoveryv1.EndpointSliceList{}
		l.Kind, l.APIVersion = "EndpointSliceList", "discovery.k8s.io/v1"
		for _, k := range sortedKeys(a.slices) {
			if strings.HasPrefix(k, ns+"/") {
				l.Items = append(l.Items, a.slices[k])
				if r.Method == "DELETE" {
					delete(a.slices, k)
				}
			}
		}
		b, _ := json.Marshal(l)
		return 200, b
	case !exists:
		return 404, statusOf(404, "NotFound")
	case r.Method == "GET":
		b, _ := json.Marshal(old)
		return 200, b
	case r.Method == "DELETE":
		delete(a.slices, name)
		return 200, statusOf(200, "")
	case r.Method == "PUT" || r.Method == "PATCH":
		return put(200)
	}
	return 405, statusOf(405, "MethodNotAllowed")
}

func sortedKeys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// render is what a service routes to.
func render(s discoveryv1.EndpointSlice) string {
	var eps, ports []string
	for _, e := range s.Endpoints {
		h := "-"
		if e.Hostname != nil {
			h = *e.Hostname
		}
		ready := e.Conditions.Ready == nil || *e.Conditions.Ready
		eps = append(eps, fmt.Sprintf("%v host=%s ready=%v", e.Addresses, h, ready))
	}
	for _, p := range s.Ports {
		if p.Port != nil {
			ports = append(ports, fmt.Sprint(*p.Port))
		}
	}
	return fmt.Sprintf("service=%s type=%s endpoints=%v ports=%v", s.Labels["kubernetes.io/service-name"], s.AddressType, eps, ports)
}

func (a *api) view(service string) (out []string) {
	for _, k := range sortedKeys(a.slices) {
		if s := a.slices[k]; s.Labels["kubernetes.io/service-name"] == service {
			out = append(out, k+" "+render(s))
		}
	}
	return
}

func ownSlice(service, ip, host, port string) string {
	return fmt.Sprintf("%s/%s service=%s type=IPv4 endpoints=[[%s] host=%s ready=true] ports=[%s]", kNamespace, service, service, ip, host, port)
}

// resolver is the name service.
type resolver struct {
	host    string
	hostErr error
	srv     []*net.SRV
	srvErr  error
	ips     []string
	ipErr   error
	service string
	asked   string
}

func (r *resolver) discovery() *cluster.ServiceDiscoverySRV {
	d := cluster.NewServiceDiscoverySRV(kNamespace, r.service)
	setField(d, func(service, proto, name string) (string, []*net.SRV, error) {
		if service != "" || proto != "" || name != r.service+"-internal."+kNamespace+".svc.cluster.local" {
			r.asked = fmt.Sprintf("looked up %q %q %q", service, proto, name)
			return "", nil, errors.New("no such host")
		}
		return "", r.srv, r.srvErr
	})
	setField(d, func(host string) ([]string, error) {
		if host != r.host {
			r.asked = fmt.Sprintf("looked up the address of %q", host)
			return nil, errors.New("no such host")
		}
		return r.ips, r.ipErr
	})
	setField(d, func() (string, error) { return r.host, r.hostErr })
	return d
}

func newCluster(r *resolver, a *api, port string) *cluster.Cluster {
	c := cluster.NewCluster(r.discovery(), kNamespace, r.service, port)
	setField(c, func() (*rest.Config, error) {
		if a == nil {
			return nil, errors.New("not in a cluster")
		}
		return &rest.Config{Host: "http://kube", Transport: a, QPS: -1}, nil
	})
	return c
}

func failf(sig, f string, a ...any) *fail { return &fail{Sig: sig, What: fmt.Sprintf(f, a...)} }

var hostPool = []string{"doq-0", "doq-1", "doq-10", "doq-11", "doq", "doq-1-0", "0", "doq-1x", "q-1"}
var domains = []string{"", ".doq-internal.default.svc.cluster.local.", ".doq-1.doq.doq-internal", ".doq-1"}

// peerSets: one choice of self, peers, order, domain and port.
func peerSets(ch *core.Choices, th bool) *fail {
	n := 1 + ch.Pick(core.If(th, 4, 3))
	dom := domains[ch.Pick(len(domains))]
	port := []uint16{8000, 80, 12000, 65535}[ch.Pick(4)]
	left := append([]string{}, hostPool...)
	var names []string
	for i := 0; i < n; i++ {
		k := ch.Pick(len(left))
		names = append(names, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	self := ch.Pick(n + 1) // n: not listed
	r := &resolver{service: kService, ips: []string{"10.0.0.1"}}
	var want []string
	own := ""
	for i, x := range names {
		r.srv = append(r.srv, &net.SRV{Target: x + dom, Port: port})
		if i == self {
			own, r.host = fmt.Sprintf("%s%s:%d", x, dom, port), x
		} else {
			want = append(want, fmt.Sprintf("%s%s:%d", x, dom, port))
		}
	}
	if self == n {
		r.host = left[ch.Pick(len(left))]
	}
	c := newCluster(r, &api{slices: map[string]discoveryv1.EndpointSlice{}}, kPort)
	err := c.Init()
	desc := fmt.Sprintf("host name %s, discovered %v domain %q port %d", r.host, names, dom, port)
	if r.asked != "" {
		return failf("wrong-lookup", "%s: %s", desc, r.asked)
	}
	if self == n {
		if err == nil {
			return failf("self-missing", "%s: the own address is missing, yet Init succeeds with identity %q", desc, c.NodeID())
		}
		return nil
	}
	if err != nil {
		return failf("init-error", "%s: Init fails: %v", desc, err)
	}
	raft := names[self] + dom + ":12000"
	if c.NodeID() != own || c.RaftAddr() != raft {
		return failf("identity", "%s: identity %q raft %q, must be %q %q", desc, c.NodeID(), c.RaftAddr(), own, raft)
	}
	got := append([]string{}, c.Hosts()...)
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return failf("peers", "%s: peers %v, must be %v", desc, got, want)
	}
	return nil
}

// initFaults: every combination of what is missing when a node starts.
func initFaults(ch *core.Choices) *fail {
	r := &resolver{service: kService, host: "doq-1", ips: []string{"10.0.0.1"}}
	r.srv = []*net.SRV{{Target: "doq-0", Port: 8000}, {Target: "doq-1", Port: 8000}}
	bad := ""
	if ch.Pick(2) == 1 {
		r.hostErr, bad = errors.New("no host name"), bad+" host name"
	}
	switch ch.Pick(3) {
	case 1:
		r.ipErr, bad = errors.New("no address"), bad+" address"
	case 2:
		r.ips, bad = nil, bad+" address"
	}
	switch ch.Pick(3) {
	case 1:
		r.srvErr, bad = errors.New("no SRV record"), bad+" peers"
	case 2:
		r.srv, bad = nil, bad+" peers"
	}
	var a *api
	if ch.Pick(2) == 1 {
		bad += " kubernetes"
	} else {
		a = &api{slices: map[string]discoveryv1.EndpointSlice{}}
	}
	err := newCluster(r, a, kPort).Init()
	if (err != nil) != (bad != "") {
		return failf("init-error", "missing:%s: Init returns %v", core.If(bad == "", " nothing", bad), err)
	}
	if a != nil && a.n != 0 {
		return failf("early-publish", "a node that only starts sends %d requests to the API server", a.n)
	}
	return nil
}

func foreignSlice(service string) discoveryv1.EndpointSlice {
	yes, host, port, name := true, "doq-7", int32(9999), "http"
	s := discoveryv1.EndpointSlice{AddressType: discoveryv1.AddressTypeIPv4,
		Endpoints: []discoveryv1.Endpoint{{Addresses: []string{"10.7.7.7"}, Hostname: &host, Conditions: discoveryv1.EndpointConditions{Ready: &yes}}},
		Ports:     []discoveryv1.EndpointPort{{Name: &name, Port: &port}}}
	s.Name, s.Namespace, s.Labels = service, kNamespace, map[string]string{"kubernetes.io/service-name": service}
	return s
}

// histories: leadership changes with address changes and failures, then one clean change.
func histories(ch *core.Choices, depth, faults int) (ff *fail) {
	svc, port := kService, kPort
	if depth == 1 {
		svc, port = []string{kService, "other"}[ch.Pick(2)], []string{kPort, "81", "65535"}[ch.Pick(3)]
	}
	r := &resolver{service: svc, host: "doq-1", ips: []string{"10.0.0.1"}}
	r.srv = []*net.SRV{{Target: "doq-0", Port: 8000}, {Target: "doq-1", Port: 8000}}
	a := &api{slices: map[string]discoveryv1.EndpointSlice{}, ch: ch}
	bystander := foreignSlice("bystander")
	a.slices[kNamespace+"/bystander"] = bystander
	c := newCluster(r, a, port)
	if err := c.Init(); err != nil {
		return failf("init-error", "Init fails: %v", err)
	}
	var log []string
	defer func() {
		if ff != nil {
			ff.Log = append(log, ff.Log...)
		}
	}()
	say := func(f string, x ...any) { log = append(log, fmt.Sprintf(f, x...)) }
	addrs := []string{"10.0.0.1", "10.0.0.2"}
	known := ""
	for i := 0; i <= depth; i++ {
		before := a.view(svc)
		all := fmt.Sprint(a.slices)
		a.n, a.faults, a.hit = 0, 0, nil
		last := i == depth
		what := 0
		if !last {
			what = ch.Pick(6)
		}
		switch what {
		case 0: // becomes leader, the address known
			ip := addrs[0]
			if !last {
				ip = addrs[ch.Pick(2)]
				a.faults = faults
			}
			r.ips, r.ipErr = []string{ip, "10.9.9.9"}, nil
			known = ip
			c.LeaderChanged(true)
			say("becomes leader, address %s, %v", ip, a.hit)
			after := a.view(svc)
			own := ownSlice(svc, ip, "doq-1", port)
			if len(a.hit) == 0 && fmt.Sprint(after) != fmt.Sprint([]string{own}) {
				return failf("not-published", "after becoming leader the service has %v, must have %s", after, own)
			}
			for _, s := range after {
				old := false
				for _, b := range before {
					old = old || s == b
				}
				if s != own && !old {
					return failf("wrong-endpoint", "after becoming leader under an API fault the service has %v", after)
				}
			}
			if len(after) > 1 {
				return failf("two-endpoints", "after becoming leader the service has %v", after)
			}
		case 1: // becomes leader, the address unknown
			r.ips, r.ipErr = nil, nil
			if ch.Pick(2) == 1 {
				r.ipErr = errors.New("no such host")
			}
			say("becomes leader, address lookup: %v", core.If(r.ipErr == nil, "nothing", "error"))
			c.LeaderChanged(true)
			if fmt.Sprint(a.slices) != all || a.n != 0 && len(a.view(svc)) != len(before) {
				return failf("published-unknown", "with its address unknown the node changes the service from %v to %v", before, a.view(svc))
			}
		case 2: // loses leadership
			say("loses leadership")
			c.LeaderChanged(false)
			if fmt.Sprint(a.slices) != all {
				return failf("published-lost", "losing leadership changes the service from %v to %v", before, a.view(svc))
			}
		case 3:
			say("another node publishes itself")
			a.slices[kNamespace+"/"+svc] = foreignSlice(svc)
		case 4:
			say("the endpoint is deleted")
			delete(a.slices, kNamespace+"/"+svc)
		case 5: // publication asked for directly: the error tells
			if known == "" {
				known = "10.0.0.1"
			}
			a.faults = faults
			err := c.UpdateServiceEndpointSlice()
			say("publishes, %v", a.hit)
			after := a.view(svc)
			own := ownSlice(svc, known, "doq-1", port)
			is := fmt.Sprint(after) == fmt.Sprint([]string{own})
			if err == nil && !is {
				return failf("silent-failure", "publication reports success, the service has %v, must have %s", after, own)
			}
			if err != nil && len(a.hit) == 0 {
				return failf("publish-error", "publication fails without a fault: %v", err)
			}
		}
		if fmt.Sprint(a.slices[kNamespace+"/bystander"]) != fmt.Sprint(bystander) {
			return failf("bystander", "another service's endpoint changes")
		}
	}
	return nil
}

// badPorts: a port that is none is an error and publishes nothing.
func badPorts(ch *core.Choices) *fail {
	port := []string{"", "abc", ":8000", "80.5", "0x50", "99999999999", "8000 "}[ch.Pick(7)]
	r := &resolver{service: kService, host: "doq-1", ips: []string{"10.0.0.1"}, srv: []*net.SRV{{Target: "doq-1", Port: 8000}}}
	a := &api{slices: map[string]discoveryv1.EndpointSlice{}}
	if ch.Pick(2) == 1 {
		a.slices[kNamespace+"/"+kService] = foreignSlice(kService)
	}
	c := newCluster(r, a, port)
	if err := c.Init(); err != nil {
		return nil // refused even earlier
	}
	old := a.view(kService)
	if ch.Pick(2) == 1 {
		c.LeaderChanged(true)
	} else if err := c.UpdateServiceEndpointSlice(); err == nil {
		return failf("bad-port", "publication with port %q reports success", port)
	}
	if now := a.view(kService); len(now) > 0 && fmt.Sprint(now) != fmt.Sprint(old) {
		return failf("bad-port", "with port %q the service has %v", port, now)
	}
	return nil
}

func init() {
	core.RegisterItems("C23", func(th bool) (its []core.Item) {
		add := func(name string, f func(ch *core.Choices) *fail) {
			its = append(its, core.Item{Name: name, Run: func(r *core.ItemRun) { core.Enumerate(r, f) }})
		}
		add("what is missing at the start", initFaults)
		add("ports that are none", badPorts)
		add("peer sets", func(ch *core.Choices) *fail { return peerSets(ch, th) })
		for d := 1; d <= core.If(th, 4, 3); d++ {
			add(fmt.Sprintf("histories of %d changes", d), func(ch *core.Choices) *fail { return histories(ch, d, core.If(th && d < 4, 2, 1)) })
		}
		return
	})
	checks["C23"] = func(c *core.Ctx, pool *core.Pool) {
		c.Assumptions = []string{"the API server is a hand-written store of endpoint slices with Kubernetes' status codes; names and addresses come from a hand-written resolver with DNS shapes",
			"an address is an IPv4 address, as the code assumes"}
		c.Coverage["bounds"] = map[string]any{"peers": core.If(c.Thorough(), 4, 3), "changes": core.If(c.Thorough(), 4, 3), "host_names": hostPool, "domains": domains}
		core.RunItems(c, pool)
	}
}
