package tls_test

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	lctls "code.cloudfoundry.org/log-cache/internal/tls"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

var (
	caA, caB *vh.CA
	rsaKey   *rsa.PrivateKey
	ecKey    *ecdsa.PrivateKey
	lis      net.Listener
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_TLS_DIR") != "" {
		credentialsOrExit()
	}
	caA, caB = vh.NewCA("A"), vh.NewCA("B")
	var err error
	rsaKey, err = rsa.GenerateKey(rand.Reader, 2048)
	vh.Must(err)
	ecKey, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	vh.Must(err)
	lis, err = net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	// B is an authority of the machine.
	dir, err := os.MkdirTemp("", "verif-tls")
	vh.Must(err)
	vh.Must(os.Setenv("SSL_CERT_FILE", caB.Write(dir, "system")))
	vh.Must(os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none")))
	code := m.Run()
	os.RemoveAll(dir)
	os.Exit(code)
}

// pair connects two ends over loopback.
func pair() (a, b net.Conn) {
	ch := make(chan net.Conn)
	go func() {
		c, err := lis.Accept()
		vh.Must(err)
		ch <- c
	}()
	a, err := net.Dial("tcp", lis.Addr().String())
	vh.Must(err)
	b = <-ch
	d := time.Now().Add(20 * time.Second)
	a.SetDeadline(d)
	b.SetDeadline(d)
	return a, b
}

type peer struct {
	ca       string // A, B, self
	names    []string
	validity string // now, past, future
	usage    string // both, other
	rsa      bool
	min, max uint16
	suites   []uint16
}

var good = []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384}

var otherSuites = []uint16{
	tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA, tls.TLS_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_RSA_WITH_AES_128_CBC_SHA,
	tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256, tls.TLS_RSA_WITH_AES_256_GCM_SHA384,
	tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA,
}

var versions = []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}

func drawPeer(t *rapid.T, cn string) peer {
	mostly := func(label string, usual string, others ...string) string {
		if rapid.IntRange(0, 3).Draw(t, label+" unusual") > 0 {
			return usual
		}
		return rapid.SampledFrom(others).Draw(t, label)
	}
	p := peer{ca: mostly("ca", "A", "B", "self"), validity: mostly("validity", "now", "past", "future"), usage: mostly("usage", "both", "client")}
	switch mostly("names", "cn", "other", "several", "prefix", "wildcard") {
	case "cn":
		p.names = []string{cn}
	case "other":
		p.names = []string{"other"}
	case "several":
		p.names = []string{"other", cn, "third"}
	case "prefix":
		p.names = []string{cn + "x", "x" + cn, cn + ".example"}
	case "wildcard":
		p.names = []string{"*." + cn}
	}
	p.rsa = rapid.IntRange(0, 3).Draw(t, "key") > 0
	i := rapid.IntRange(0, 3).Draw(t, "min")
	p.min = versions[i]
	p.max = versions[rapid.IntRange(i, 3).Draw(t, "max")]
	if rapid.Bool().Draw(t, "suites") {
		p.suites = rapid.SliceOfNDistinct(rapid.SampledFrom(append(append([]uint16{}, good...), otherSuites...)), 1, 4, rapid.ID[uint16]).Draw(t, "suites")
	}
	return p
}

func (p peer) issue() vh.Pair {
	opts := []vh.LeafOpt{func(c *x509.Certificate) {
		now := time.Now()
		switch p.validity {
		case "past":
			c.NotBefore, c.NotAfter = now.Add(-48*time.Hour), now.Add(-24*time.Hour)
		case "future":
			c.NotBefore, c.NotAfter = now.Add(24*time.Hour), now.Add(48*time.Hour)
		}
		if p.usage == "client" {
			c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		}
		c.IPAddresses = nil
	}}
	ca := caA
	switch p.ca {
	case "B":
		ca = caB
	case "self":
		ca = vh.NewCA("A") // of the right name
	}
	if p.rsa {
		return ca.IssueFor(&rsaKey.PublicKey, rsaKey, p.names, opts...)
	}
	return ca.IssueFor(&ecKey.PublicKey, ecKey, p.names, opts...)
}

func has(l []uint16, x uint16) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// suiteOK tells whether the peer can do one of the approved suites.
func (p peer) suiteOK() bool {
	return len(p.suites) == 0 || has(p.suites, good[0]) || has(p.suites, good[1])
}

// protocolOK tells whether the versions and suites fit.
func (p peer) protocolOK() bool {
	if p.max == tls.VersionTLS13 {
		return true
	}
	return p.max == tls.VersionTLS12 && p.rsa && p.suiteOK()
}

func (p peer) certOK(cn string) bool {
	named := false
	for _, n := range p.names {
		named = named || n == cn
	}
	return p.ca == "A" && p.validity == "now" && p.usage == "both" && named
}

type own struct{ ca, cert, key string }

func writeOwn(dir string, useRSA bool) (own, vh.Pair) {
	p := peer{ca: "A", names: []string{"me"}, validity: "now", usage: "both", rsa: useRSA}.issue()
	c, k := p.Write(dir, "own")
	return own{caA.Write(dir, "ca"), c, k}, p
}

var cnGen = rapid.SampledFrom([]string{"log-cache", "doppler", "reverselogproxy", "logs.sys.example.com"})

// outcome of a handshake
type outcome struct {
	err     error
	state   tls.ConnectionState
	peerErr error
	peer    tls.ConnectionState
}

func TestC16_Client(t *testing.T) {
	vh.Check(t, vh.N(1200, 15000), "random server certificate, versions and suites against a client with the component's credentials; each case is non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			cn := cnGen.Draw(rt, "cn")
			srv := drawPeer(rt, cn)
			// Without a name of its own the credentials are for the host that is dialed.
			given, authority := cn, rapid.SampledFrom([]string{"127.0.0.1:8080", "other", cn}).Draw(rt, "authority")
			if rapid.IntRange(0, 5).Draw(rt, "no name") == 0 {
				given, authority = "", cn+":8080"
				c.Class("no name")
			}
			asks := rapid.Bool().Draw(rt, "asks for a certificate")
			viaGRPC := rapid.Bool().Draw(rt, "gRPC credentials")
			want := srv.certOK(cn) && srv.protocolOK() && (given != "" || viaGRPC)
			c.ClassIf(want, "accepted")
			c.NonTrivial(fmt.Sprintf("%s from %+v", cn, srv))
			dir, err := os.MkdirTemp("", "verif-tls")
			vh.Must(err)
			defer os.RemoveAll(dir)
			if rapid.IntRange(0, 2).Draw(rt, "replaced") == 0 {
				// What the files held before is of no account.
				p := caB.Issue([]string{"before"})
				cert, key := p.Write(dir, "own")
				if _, err := lctls.NewTLSCredentials(caB.Write(dir, "ca"), cert, key, given); err != nil {
					rt.Fatalf("credentials: %s", err)
				}
				c.Class("files replaced")
			}
			files, ownPair := writeOwn(dir, rapid.Bool().Draw(rt, "own RSA"))
			if rapid.IntRange(0, 3).Draw(rt, "chain") == 0 {
				// The component's certificate comes from an authority under A.
				sub := caA.Sub("under A")
				ownPair = sub.Issue([]string{"me"})
				ownPair.CertPEM = append(ownPair.CertPEM, sub.PEM...)
				files.cert, files.key = ownPair.Write(dir, "own")
				c.Class("chain")
			}
			if rapid.Bool().Draw(rt, "bundle") {
				// The authority may come among others.
				x := vh.NewCA("X")
				b := bytes.Join(rapid.Permutation([][]byte{mustRead(files.ca), x.PEM, []byte("# comment\n")}).Draw(rt, "bundle"), nil)
				vh.Must(os.WriteFile(files.ca, b, 0o600))
			}
			scfg := &tls.Config{Certificates: []tls.Certificate{srv.issue().TLS()}, MinVersion: srv.min, MaxVersion: srv.max, CipherSuites: srv.suites}
			if asks {
				scfg.ClientAuth, scfg.ClientCAs = tls.RequireAndVerifyClientCert, caA.Pool()
			}
			a, b := pair()
			defer a.Close()
			defer b.Close()
			type done struct {
				err   error
				state tls.ConnectionState
			}
			ch := make(chan done, 1)
			go func() {
				s := tls.Server(b, scfg)
				err := s.Handshake()
				if err == nil {
					_, err = s.Write([]byte("hi"))
				} else {
					b.Close()
				}
				ch <- done{err, s.ConnectionState()}
			}()
			var cerr error
			var got [2]byte
			read := func(conn net.Conn) {
				if n, err := conn.Read(got[:]); err != nil || string(got[:n]) != "hi" {
					cerr = fmt.Errorf("read %q: %v", got[:n], err)
				}
			}
			if viaGRPC {
				creds, err := lctls.NewTLSCredentials(files.ca, files.cert, files.key, given)
				if err != nil {
					rt.Fatalf("credentials: %s", err)
				}
				conn, _, err := creds.ClientHandshake(context.Background(), authority, a)
				if cerr = err; err == nil {
					read(conn)
				}
			} else {
				cfg, err := lctls.NewMutualTLSConfig(files.ca, files.cert, files.key, given)
				if err != nil {
					rt.Fatalf("config: %s", err)
				}
				conn := tls.Client(a, cfg)
				if cerr = conn.Handshake(); cerr == nil {
					read(conn)
				}
			}
			a.Close()
			d := <-ch
			if (cerr == nil) != want {
				rt.Fatalf("handshake error %v (server: %v), want it to succeed: %v", cerr, d.err, want)
			}
			if !want {
				return
			}
			if d.err != nil || d.state.Version < tls.VersionTLS12 || d.state.Version == tls.VersionTLS12 && !has(good, d.state.CipherSuite) {
				rt.Fatalf("server has error %v, version %x, suite %s", d.err, d.state.Version, tls.CipherSuiteName(d.state.CipherSuite))
			}
			if asks && (len(d.state.PeerCertificates) == 0 || !bytes.Equal(d.state.PeerCertificates[0].Raw, ownPair.TLS().Certificate[0])) {
				rt.Fatalf("the client showed another certificate than its own")
			}
		})
}

func TestC16_Server(t *testing.T) {
	vh.Check(t, vh.N(600, 8000), "random client versions and suites against a server with the component's credentials; each case is non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			cli := drawPeer(rt, "log-cache")
			useRSA := rapid.IntRange(0, 3).Draw(rt, "own RSA") > 0
			cli.rsa = useRSA // what the suites have to fit is the server's key
			want := cli.protocolOK()
			c.ClassIf(want, "accepted")
			c.NonTrivial(fmt.Sprintf("%x-%x %x rsa=%v", cli.min, cli.max, cli.suites, useRSA))
			dir, err := os.MkdirTemp("", "verif-tls")
			vh.Must(err)
			defer os.RemoveAll(dir)
			files, ownPair := writeOwn(dir, useRSA)
			cfg, err := lctls.NewMutualTLSConfig(files.ca, files.cert, files.key, "log-cache")
			if err != nil {
				rt.Fatalf("config: %s", err)
			}
			mine := peer{ca: "A", names: []string{"peer"}, validity: "now", usage: "both", rsa: true}.issue()
			a, b := pair()
			defer a.Close()
			defer b.Close()
			ch := make(chan error, 1)
			go func() {
				s := tls.Server(b, cfg)
				err := s.Handshake()
				if err == nil {
					_, err = s.Write([]byte("hi"))
				} else {
					b.Close()
				}
				ch <- err
			}()
			conn := tls.Client(a, &tls.Config{InsecureSkipVerify: true, MinVersion: cli.min, MaxVersion: cli.max, CipherSuites: cli.suites,
				Certificates: []tls.Certificate{mine.TLS()}})
			cerr := conn.Handshake()
			if cerr == nil {
				var got [2]byte
				_, cerr = conn.Read(got[:])
			}
			st := conn.ConnectionState()
			a.Close()
			serr := <-ch
			if (cerr == nil) != want {
				rt.Fatalf("handshake error %v (server: %v), want it to succeed: %v", cerr, serr, want)
			}
			if want && (st.Version < tls.VersionTLS12 || st.Version == tls.VersionTLS12 && !has(good, st.CipherSuite) ||
				!bytes.Equal(st.PeerCertificates[0].Raw, ownPair.TLS().Certificate[0])) {
				rt.Fatalf("version %x, suite %s", st.Version, tls.CipherSuiteName(st.CipherSuite))
			}
		})
}

func TestC16_Files(t *testing.T) {
	vh.Check(t, vh.N(300, 3000), "random fault of one of the files; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		dir, err := os.MkdirTemp("", "verif-tls")
		vh.Must(err)
		defer os.RemoveAll(dir)
		files, _ := writeOwn(dir, true)
		if rapid.Bool().Draw(rt, "used before") {
			_, err := lctls.NewTLSCredentials(files.ca, files.cert, files.key, "log-cache")
			if err != nil {
				rt.Fatalf("credentials: %s", err)
			}
		}
		which := rapid.SampledFrom([]string{"ca", "cert", "key"}).Draw(rt, "file")
		fault := rapid.SampledFrom([]string{"missing", "empty", "garbage", "cut", "directory", "mismatch", "swapped", "none"}).Draw(rt, "fault")
		p := map[string]*string{"ca": &files.ca, "cert": &files.cert, "key": &files.key}[which]
		b, err := os.ReadFile(*p)
		vh.Must(err)
		wantErr := true
		switch fault {
		case "missing":
			*p = filepath.Join(dir, "missing")
		case "empty":
			vh.Must(os.WriteFile(*p, nil, 0o600))
		case "garbage":
			vh.Must(os.WriteFile(*p, rapid.SliceOfN(rapid.Byte(), 1, 200).Draw(rt, "bytes"), 0o600))
		case "cut":
			vh.Must(os.WriteFile(*p, b[:rapid.IntRange(0, len(b)-40).Draw(rt, "length")], 0o600))
		case "directory":
			*p = dir
		case "mismatch":
			if which == "ca" {
				vh.Must(os.WriteFile(*p, mustRead(files.key), 0o600))
				break
			}
			other := vh.NewCA("A").Issue([]string{"me"})
			if which == "cert" {
				vh.Must(os.WriteFile(*p, other.CertPEM, 0o600))
			} else {
				vh.Must(os.WriteFile(*p, other.KeyPEM, 0o600))
			}
		case "swapped":
			if which == "ca" {
				vh.Must(os.WriteFile(*p, mustRead(files.key), 0o600))
				break
			}
			files.cert, files.key = files.key, files.cert
		case "none":
			wantErr = false
		}
		c.Class(fault)
		c.NonTrivial(which + " " + fault + fmt.Sprint(len(mustRead(*p))))
		if p := vh.Try(func() {
			cfg, err := lctls.NewMutualTLSConfig(files.ca, files.cert, files.key, "log-cache")
			if (err != nil) != wantErr || (cfg != nil) == wantErr {
				rt.Fatalf("%s %s: config %v, error %v", which, fault, cfg != nil, err)
			}
			creds, err := lctls.NewTLSCredentials(files.ca, files.cert, files.key, "log-cache")
			if (err != nil) != wantErr || (creds != nil) == wantErr {
				rt.Fatalf("%s %s: credentials %v, error %v", which, fault, creds != nil, err)
			}
		}); p != nil {
			rt.Fatalf("%s %s: %s", which, fault, p)
		}
	})
}

// credentialsOrExit is what the test binary does as a component: it has no
// way to go on without its credentials.
func credentialsOrExit() {
	dir := os.Getenv("VERIF_TLS_DIR")
	creds := lctls.TLS{CAPath: os.Getenv("VERIF_TLS_CA"), CertPath: filepath.Join(dir, "own.crt"), KeyPath: filepath.Join(dir, "own.key")}.Credentials(os.Getenv("VERIF_TLS_CN"))
	a, err := net.Dial("tcp", os.Getenv("VERIF_TLS_ADDR"))
	vh.Must(err)
	_, _, err = creds.ClientHandshake(context.Background(), "other", a)
	fmt.Printf("handshake: %v\n", err)
	os.Exit(0)
}

func TestC16_Component(t *testing.T) {
	vh.Check(t, vh.N(25, 200), "a process that makes its credentials from files and shakes hands, or ends for want of a file; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		dir, err := os.MkdirTemp("", "verif-tls")
		vh.Must(err)
		defer os.RemoveAll(dir)
		files, ownPair := writeOwn(dir, true)
		fault := rapid.SampledFrom([]string{"none", "none", "other name", "other authority", "no ca", "no cert", "no key", "no PEM"}).Draw(rt, "fault")
		cn := cnGen.Draw(rt, "cn")
		srv := peer{ca: "A", names: []string{cn}, validity: "now", usage: "both", rsa: true}
		files.cert, files.key = filepath.Join(dir, "own.crt"), filepath.Join(dir, "own.key")
		vh.Must(os.WriteFile(files.cert, ownPair.CertPEM, 0o600))
		vh.Must(os.WriteFile(files.key, ownPair.KeyPEM, 0o600))
		switch fault {
		case "other name":
			srv.names = []string{"not-" + cn}
		case "other authority":
			srv.ca = "B"
		case "no ca":
			vh.Must(os.Remove(files.ca))
		case "no cert":
			vh.Must(os.Remove(files.cert))
		case "no key":
			vh.Must(os.Remove(files.key))
		case "no PEM":
			vh.Must(os.WriteFile(files.ca, []byte("no PEM"), 0o600))
		}
		c.Class(fault)
		c.NonTrivial(fault + cn)
		l, err := net.Listen("tcp", "127.0.0.1:0")
		vh.Must(err)
		defer l.Close()
		shown := make(chan []byte, 1)
		go func() {
			b, err := l.Accept()
			if err != nil {
				return
			}
			defer b.Close()
			b.SetDeadline(time.Now().Add(20 * time.Second))
			s := tls.Server(b, &tls.Config{Certificates: []tls.Certificate{srv.issue().TLS()}, ClientAuth: tls.RequireAnyClientCert, MinVersion: tls.VersionTLS12, MaxVersion: tls.VersionTLS12})
			if s.Handshake() != nil {
				close(shown)
				return
			}
			shown <- s.ConnectionState().PeerCertificates[0].Raw
		}()
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_TLS_DIR="+dir, "VERIF_TLS_CA="+files.ca, "VERIF_TLS_CN="+cn, "VERIF_TLS_ADDR="+l.Addr().String())
		out, err := cmd.CombinedOutput()
		switch {
		case strings.Contains(string(out), "HARNESS-ERROR"):
			vh.Harness("%s", out)
		case strings.HasPrefix(fault, "no "):
			if err == nil || strings.Contains(string(out), "handshake:") {
				rt.Fatalf("%s: the component went on: %s", fault, out)
			}
		case strings.HasPrefix(fault, "other"):
			if err != nil || strings.Contains(string(out), "handshake: <nil>") || !strings.Contains(string(out), "handshake: ") {
				rt.Fatalf("%s: %v: %s", fault, err, out)
			}
		default:
			if err != nil || !strings.Contains(string(out), "handshake: <nil>") {
				rt.Fatalf("%v: %s", err, out)
			}
			if !bytes.Equal(<-shown, ownPair.TLS().Certificate[0]) {
				rt.Fatalf("the component showed another certificate than its own")
			}
		}
	})
}

func mustRead(p string) []byte {
	b, _ := os.ReadFile(p)
	return b
}
