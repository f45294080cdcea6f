package vh

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

// CA is a certificate authority of a test.
type CA struct {
	Cert *x509.Certificate
	key  *ecdsa.PrivateKey
	PEM  []byte
}

// NewCA makes an authority.
func NewCA(cn string) *CA { return newCA(cn, nil) }

// Sub makes an authority under this one.
func (ca *CA) Sub(cn string) *CA { return newCA(cn, ca) }

func newCA(cn string, parent *CA) *CA {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	Must(err)
	tpl := &x509.Certificate{
		SerialNumber:          big.NewInt(1),
		Subject:               pkix.Name{CommonName: cn},
		NotBefore:             time.Now().Add(-24 * time.Hour),
		NotAfter:              time.Now().Add(24 * time.Hour),
		IsCA:                  true,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	by, byKey := tpl, key
	if parent != nil {
		by, byKey = parent.Cert, parent.key
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, by, &key.PublicKey, byKey)
	Must(err)
	c, err := x509.ParseCertificate(der)
	Must(err)
	return &CA{Cert: c, key: key, PEM: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})}
}

// Pair is a certificate and its key in PEM.
type Pair struct{ CertPEM, KeyPEM []byte }

// LeafOpt changes what Issue signs.
type LeafOpt func(*x509.Certificate)

// Issue signs a certificate for names, for servers and clients.
func (ca *CA) Issue(names []string, opts ...LeafOpt) Pair {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	Must(err)
	return ca.IssueFor(&key.PublicKey, key, names, opts...)
}

// IssueFor signs a certificate for a key.
func (ca *CA) IssueFor(pub, priv interface{}, names []string, opts ...LeafOpt) Pair {
	sn, err := rand.Int(rand.Reader, big.NewInt(1<<60))
	Must(err)
	tpl := &x509.Certificate{
		SerialNumber: sn,
		Subject:      pkix.Name{CommonName: names[0]},
		DNSNames:     names,
		IPAddresses:  []net.IP{net.IPv4(127, 0, 0, 1)},
		NotBefore:    time.Now().Add(-24 * time.Hour),
		NotAfter:     time.Now().Add(24 * time.Hour),
		KeyUsage:     x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		ExtKeyUsage:  []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
	}
	for _, o := range opts {
		o(tpl)
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, ca.Cert, pub, ca.key)
	Must(err)
	kd, err := x509.MarshalPKCS8PrivateKey(priv)
	Must(err)
	return Pair{
		CertPEM: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}),
		KeyPEM:  pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kd}),
	}
}

// TLS is the pair as a tls.Certificate.
func (p Pair) TLS() tls.Certificate {
	c, err := tls.X509KeyPair(p.CertPEM, p.KeyPEM)
	Must(err)
	return c
}

// Write puts the pair in dir and returns the paths.
func (p Pair) Write(dir, name string) (cert, key string) {
	cert, key = filepath.Join(dir, name+".crt"), filepath.Join(dir, name+".key")
	Must(os.WriteFile(cert, p.CertPEM, 0o600))
	Must(os.WriteFile(key, p.KeyPEM, 0o600))
	return cert, key
}

// Write puts the authority's certificate in dir and returns the path.
func (ca *CA) Write(dir, name string) string {
	p := filepath.Join(dir, name+".crt")
	Must(os.WriteFile(p, ca.PEM, 0o600))
	return p
}

// Pool is a pool of this authority alone.
func (ca *CA) Pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(ca.Cert)
	return p
}
