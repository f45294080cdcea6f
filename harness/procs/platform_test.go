package procs_test

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

// web serves over TLS with a certificate for a name.
func web(ca *vh.CA, name string, h http.HandlerFunc) (addr string, stop func()) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s := &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}
	cert := ca.IssueFor(&rsaKey.PublicKey, rsaKey, []string{name}, func(c *x509.Certificate) {
		if name == "capi.internal" {
			c.IPAddresses = nil
		}
	})
	go s.Serve(tls.NewListener(lis, &tls.Config{Certificates: []tls.Certificate{cert.TLS()}}))
	return lis.Addr().String(), func() { s.Close() }
}

// platform is what the proxy asks: the authority and the controller.
type platform struct {
	mu        sync.Mutex
	signer    *rsa.PrivateKey
	apps      map[string][]string // by token
	uaa, capi string
	uaaBroken bool
	bad       string
	capiCalls int
	stop      func()
}

func newPlatform(ca *vh.CA) *platform {
	p := &platform{signer: rsaKey, apps: map[string][]string{}}
	uaa, s1 := web(ca, "uaa", p.serveUAA)
	capi, s2 := web(ca, "capi.internal", p.serveCAPI)
	p.uaa, p.capi, p.stop = "https://"+uaa, "https://"+capi, func() { s1(); s2() }
	return p
}

func (p *platform) serveUAA(w http.ResponseWriter, r *http.Request) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r.URL.Path != "/token_keys" {
		p.bad = "the authority was asked for " + r.URL.String()
	}
	if p.uaaBroken {
		w.WriteHeader(503)
		return
	}
	der, err := x509.MarshalPKIXPublicKey(&p.signer.PublicKey)
	vh.Must(err)
	json.NewEncoder(w).Encode(map[string]interface{}{"keys": []map[string]string{{
		"kid": "key-1", "alg": "RS256", "value": string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))}}})
}

func (p *platform) serveCAPI(w http.ResponseWriter, r *http.Request) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.capiCalls++
	type res struct {
		Guid string `json:"guid"`
		Name string `json:"name"`
	}
	l := []res{}
	apps, ok := p.apps[r.Header.Get("Authorization")]
	if !ok {
		w.WriteHeader(401)
		return
	}
	switch r.URL.Path {
	case "/v3/apps":
		for _, a := range apps {
			l = append(l, res{a, "name-" + a})
		}
	case "/v3/service_instances":
	default:
		p.bad = "the controller was asked for " + r.URL.String()
	}
	json.NewEncoder(w).Encode(map[string]interface{}{"resources": l})
}

// token is one of a user, with the apps that the user may see.
func (p *platform) token(user string, admin bool, apps ...string) string {
	enc := base64.RawURLEncoding.EncodeToString
	scope := []string{"openid"}
	if admin {
		scope = append(scope, "logs.admin")
	}
	claims, _ := json.Marshal(map[string]interface{}{"exp": time.Now().Add(time.Hour).Unix(), "user_name": user, "scope": scope})
	s := enc([]byte(`{"alg":"RS256","kid":"key-1","typ":"JWT"}`)) + "." + enc(claims)
	d := sha256.Sum256([]byte(s))
	sig, err := rsa.SignPKCS1v15(rand.Reader, p.signer, crypto.SHA256, d[:])
	vh.Must(err)
	t := "bearer " + s + "." + enc(sig)
	p.mu.Lock()
	defer p.mu.Unlock()
	p.apps[t] = apps
	return t
}

// provider is the log provider that the nozzle reads from.
type provider struct {
	mu   sync.Mutex
	reqs []*loggregator_v2.EgressBatchRequest
	out  chan []*loggregator_v2.Envelope
	addr string
	stop func()
}

func newProvider(ca *vh.CA, name string) *provider {
	p := &provider{out: make(chan []*loggregator_v2.Envelope, 100)}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{
		Certificates: []tls.Certificate{ca.Issue([]string{name}).TLS()},
		ClientAuth:   tls.RequireAndVerifyClientCert,
		ClientCAs:    ca.Pool(),
	})))
	loggregator_v2.RegisterEgressServer(s, p)
	go s.Serve(lis)
	p.addr, p.stop = lis.Addr().String(), s.Stop
	return p
}

func (p *provider) Receiver(*loggregator_v2.EgressRequest, loggregator_v2.Egress_ReceiverServer) error {
	return fmt.Errorf("not for one at a time")
}

func (p *provider) BatchedReceiver(r *loggregator_v2.EgressBatchRequest, s loggregator_v2.Egress_BatchedReceiverServer) error {
	p.mu.Lock()
	p.reqs = append(p.reqs, r)
	p.mu.Unlock()
	for {
		select {
		case b := <-p.out:
			if err := s.Send(&loggregator_v2.EnvelopeBatch{Batch: b}); err != nil {
				return err
			}
		case <-s.Context().Done():
			return nil
		}
	}
}

func (p *provider) requests() []*loggregator_v2.EgressBatchRequest {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]*loggregator_v2.EgressBatchRequest{}, p.reqs...)
}

// ask asks over HTTP.
func ask(c *http.Client, u, token string) (int, string, error) {
	r, err := http.NewRequest("GET", u, nil)
	vh.Must(err)
	if token != "" {
		r.Header.Set("Authorization", token)
	}
	resp, err := c.Do(r)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, strings.TrimSpace(string(b)), err
}

// browser trusts the outer authority.
func browser() *http.Client {
	return &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, TLSClientConfig: &tls.Config{RootCAs: outer.Pool(), ServerName: "proxy"}}}
}

// proxyVars are the settings of an auth proxy.
func proxyVars(tmp string, p *platform, gateway string) vars {
	crt, key := outer.IssueFor(&rsaKey.PublicKey, rsaKey, []string{"proxy"}).Write(tmp, "external")
	return vars{
		"ADDR": "127.0.0.1:" + freePort(), "HEALTH_PORT": freePort(), "LOG_CACHE_GATEWAY_ADDR": gateway,
		"EXTERNAL_CERT": crt, "EXTERNAL_KEY": key, "PROXY_CA_PATH": outer.Write(tmp, "outer-ca"),
		"CAPI_ADDR": p.capi, "CAPI_CA_PATH": foreign.Write(tmp, "capi-ca"), "CAPI_COMMON_NAME": "capi.internal",
		"UAA_ADDR": p.uaa, "UAA_CA_PATH": foreign.Write(tmp, "uaa-ca"), "UAA_CLIENT_ID": "the-client", "UAA_CLIENT_SECRET": "s3cret-0f-the-client",
	}
}
