package auth_test

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

var (
	rsaKeys []*rsa.PrivateKey
	rsaPEMs []string
	ecPEM   string
	keyOnce sync.Once
)

func keys() {
	keyOnce.Do(func() {
		for i := 0; i < 4; i++ {
			k, err := rsa.GenerateKey(rand.Reader, 2048)
			vh.Must(err)
			rsaKeys = append(rsaKeys, k)
			rsaPEMs = append(rsaPEMs, pkix(&k.PublicKey))
		}
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		vh.Must(err)
		ecPEM = pkix(&k.PublicKey)
	})
}

func pkix(k interface{}) string {
	der, err := x509.MarshalPKIXPublicKey(k)
	vh.Must(err)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
}

// body counts what is left open.
type body struct {
	io.Reader
	open *int64
	once sync.Once
}

func (b *body) Close() error {
	b.once.Do(func() { atomic.AddInt64(b.open, -1) })
	return nil
}

type listed struct {
	kid string
	key int // of rsaKeys, or -1 on for those that are no good
}

func (l listed) pem() string {
	switch l.key {
	case -1:
		return ""
	case -2:
		return "no PEM"
	case -3:
		return ecPEM
	case -4:
		return "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n"
	}
	return rsaPEMs[l.key]
}

// uaa is an authority as the client sees it.
type uaa struct {
	mu    sync.Mutex
	list  []listed
	fault string
	took  time.Duration
	calls int
	open  int64
	bad   string
}

func (u *uaa) Do(r *http.Request) (*http.Response, error) {
	u.mu.Lock()
	list, fault, took := u.list, u.fault, u.took
	u.calls++
	if r.Method != "GET" || r.URL.String() != "https://uaa.example:8443/token_keys" {
		u.bad = r.Method + " " + r.URL.String()
	}
	u.mu.Unlock()
	if took > 0 {
		time.Sleep(took)
	}
	if fault == "transport" {
		return nil, errors.New("no connection")
	}
	var doc struct {
		Keys []map[string]string `json:"keys"`
	}
	for _, l := range list {
		doc.Keys = append(doc.Keys, map[string]string{"kid": l.kid, "value": l.pem(), "alg": "RS256"})
	}
	b, _ := json.Marshal(doc)
	resp := &http.Response{StatusCode: 200, Status: "200 OK"}
	switch fault {
	case "status":
		resp.StatusCode, resp.Status = 503, "503 Unavailable"
	case "json":
		b = b[:len(b)-2]
	case "not json":
		b = []byte("<html>")
	}
	atomic.AddInt64(&u.open, 1)
	resp.Body = &body{Reader: bytes.NewReader(b), open: &u.open}
	return resp, nil
}

var b64 = base64.RawURLEncoding

func rs(k *rsa.PrivateKey, h crypto.Hash, in string) []byte {
	var d []byte
	switch h {
	case crypto.SHA384:
		x := sha512.Sum384([]byte(in))
		d = x[:]
	case crypto.SHA512:
		x := sha512.Sum512([]byte(in))
		d = x[:]
	default:
		x := sha256.Sum256([]byte(in))
		d = x[:]
	}
	s, err := rsa.SignPKCS1v15(rand.Reader, k, h, d)
	vh.Must(err)
	return s
}

// token is a generated token, and what is to be known of it.
type token struct {
	text  string
	about string
	// kid and key that signed it with RS256; key is -1 for a signature that no
	// key made.
	kid     string
	key     int
	form    string // "", or why it is refused before its signature is looked at
	claims  bool   // whether the claims can be read
	exp     int64
	expEdge bool
	admin   bool
}

const (
	formAlg       = "algorithm"
	formNoKid     = "no key ID"
	formMalformed = "malformed"
)

// signers is which keys were ever listed by an ID.
type signers map[string][]int

func (s signers) note(l []listed) []listed {
	for _, i := range l {
		if i.key >= 0 {
			s[i.kid] = append(s[i.kid], i.key)
		}
	}
	return l
}

func genToken(rt *rapid.T, now time.Time, kids []string, ever signers) token {
	t := token{kid: rapid.SampledFrom(kids).Draw(rt, "kid"), key: rapid.IntRange(0, len(rsaKeys)-1).Draw(rt, "key"), claims: true}
	if l := ever[t.kid]; len(l) > 0 && oneIn(rt, 2, "was listed") {
		t.key = rapid.SampledFrom(l).Draw(rt, "listed once")
	}
	head := map[string]interface{}{"alg": "RS256", "kid": t.kid, "typ": "JWT"}
	t.exp = now.Unix() + rapid.SampledFrom([]int64{-100000, -3600, -2, -1, 0, 1, 2, 60, 3600, 100000}).Draw(rt, "expires in")
	claims := map[string]interface{}{"exp": t.exp, "sub": "me"}
	scopes := []string{}
	for _, s := range []string{"openid", "doppler.firehose", "logs.admin", "cloud_controller.read", "doppler.firehose.x", "Logs.Admin", "logs", "logs.administrator", "logs.admin.read", "doppler", " logs.admin", "x.logs.admin"} {
		if oneIn(rt, 4, "scope") {
			scopes = append(scopes, s)
			t.admin = t.admin || s == "doppler.firehose" || s == "logs.admin"
		}
	}
	claims["scope"] = scopes
	t.about = fmt.Sprintf("signed by key %d for %q, expires %d, scopes %q", t.key, t.kid, t.exp-now.Unix(), scopes)
	payload := ""
	kind := rapid.SampledFrom([]string{
		"good", "good", "good", "good", "good", "good", "good", "good", "other algorithm", "none", "hmac", "no kid", "odd kid", "odd alg", "tampered", "tampered signature", "empty signature", "claims", "claims", "parts", "garbage", "base64", "header",
	}).Draw(rt, "kind")
	hash := crypto.SHA256
	switch kind {
	case "other algorithm":
		a := rapid.SampledFrom([]string{"RS384", "RS512", "rs256", "ES256", "PS256", "HS256", "RS256 ", ""}).Draw(rt, "algorithm")
		head["alg"] = a
		if a == "RS384" {
			hash = crypto.SHA384
		} else if a == "RS512" {
			hash = crypto.SHA512
		}
		t.form = formAlg
	case "no kid":
		delete(head, "kid")
		t.form = formNoKid
	case "odd kid":
		head["kid"] = rapid.SampledFrom([]interface{}{nil, 1, 1.5, true, []string{t.kid}, map[string]string{"kid": t.kid}}).Draw(rt, "odd kid")
		t.form = formNoKid
	case "odd alg":
		v := rapid.SampledFrom([]interface{}{nil, 256, true, []string{"RS256"}, map[string]string{"alg": "RS256"}}).Draw(rt, "odd alg")
		head["alg"] = v
		if rapid.Bool().Draw(rt, "no alg") {
			delete(head, "alg")
		}
		t.form = formMalformed
	case "none":
		head["alg"] = rapid.SampledFrom([]string{"none", "None", "NONE"}).Draw(rt, "none")
		t.form = formAlg
	case "hmac":
		head["alg"] = "HS256"
		t.form = formAlg
	case "claims":
		switch rapid.IntRange(0, 8).Draw(rt, "odd claims") {
		case 0:
			delete(claims, "exp")
			t.exp = 0
		case 1:
			claims["exp"] = "soon"
			t.claims = false
		case 2:
			claims["exp"] = fmt.Sprint(now.Unix() + 3600)
			t.claims = false
		case 3:
			claims["scope"] = "logs.admin"
			t.claims = false
		case 4:
			claims["scope"] = []interface{}{"logs.admin", 3}
			t.claims = false
		case 5:
			delete(claims, "scope")
			t.admin = false
		case 6:
			payload = rapid.SampledFrom([]string{"", "[]", "\"logs.admin\"", "3", "{", "not json"}).Draw(rt, "odd payload")
			t.claims = false
			if payload == "" {
				payload = " "
			}
		case 7:
			claims["exp"] = nil
			t.exp = 0
		default:
			claims["exp"] = float64(t.exp) + 0.25
			t.expEdge = true
		}
	}
	hb, err := json.Marshal(head)
	vh.Must(err)
	if payload == "" {
		pb, err := json.Marshal(claims)
		vh.Must(err)
		payload = string(pb)
	}
	h, p := b64.EncodeToString(hb), b64.EncodeToString([]byte(payload))
	var sig []byte
	switch {
	case kind == "none":
	case kind == "hmac":
		m := hmac.New(sha256.New, []byte(rsaPEMs[t.key]))
		m.Write([]byte(h + "." + p))
		sig = m.Sum(nil)
	default:
		sig = rs(rsaKeys[t.key], hash, h+"."+p)
	}
	switch kind {
	case "tampered":
		claims["scope"] = []string{"logs.admin", "doppler.firehose"}
		claims["exp"] = now.Unix() + 7200
		claims["forged"] = true
		pb, _ := json.Marshal(claims)
		p = b64.EncodeToString(pb)
		t.key = -1
	case "tampered signature":
		sig[rapid.IntRange(0, len(sig)-1).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		t.key = -1
	case "empty signature":
		sig = nil
		t.key = -1
	}
	s := b64.EncodeToString(sig)
	t.text = h + "." + p + "." + s
	switch kind {
	case "parts":
		t.text = rapid.SampledFrom([]string{h, h + "." + p, h + "." + p + "." + s + ".x", ".", "..", "...", h + "." + p + "." + s + "." + s + "." + s}).Draw(rt, "parts")
		// h.p. is an empty signature
		t.form = formMalformed
	case "garbage":
		t.text = rapid.String().Draw(rt, "garbage")
		t.form = formMalformed
	case "base64":
		t.text = rapid.SampledFrom([]string{"!" + t.text, h + ".!" + p + "." + s, h + "." + p + ".!" + s}).Draw(rt, "bad base64")
		t.form = formMalformed
	case "header":
		bad := rapid.SampledFrom([]string{"", "null", "[]", "3", "{", "not json", "\"RS256\"", "{\"alg\":}"}).Draw(rt, "bad header")
		t.text = b64.EncodeToString([]byte(bad)) + "." + p + "." + s
		t.form = formMalformed
	}
	if kind != "good" {
		t.about = kind + ", " + t.about
	}
	t.text = rapid.SampledFrom([]string{"", "bearer ", "Bearer ", "BEARER   ", "bearer\t"}).Draw(rt, "prefix") + t.text
	return t
}

// uaaModel is what the client ought to know.
type uaaModel struct {
	known map[string]int
	last  time.Time
	calls int
}

const refreshInterval = 30 * time.Second

// refresh is the model's; it returns whether an error is to be reported.
func (m *uaaModel) refresh(u *uaa, now time.Time, interval time.Duration) bool {
	if now.Before(m.last.Add(interval)) {
		return false
	}
	m.last = now
	m.calls++
	if u.fault != "" {
		return true
	}
	fresh := map[string]int{}
	for _, l := range u.list {
		if l.key < 0 {
			// what stood before it is known, and nothing forgotten
			for k, v := range fresh {
				m.known[k] = v
			}
			return true
		}
		fresh[l.kid] = l.key
	}
	m.known = fresh
	return false
}

func genList(rt *rapid.T, kids []string) []listed {
	var l []listed
	if oneIn(rt, 8, "empty list") {
		return l
	}
	for _, k := range kids {
		if rapid.IntRange(0, 2).Draw(rt, "listed") > 0 {
			l = append(l, listed{k, rapid.IntRange(0, len(rsaKeys)-1).Draw(rt, "listed key")})
		}
	}
	if len(l) > 0 && oneIn(rt, 6, "bad key") {
		l[rapid.IntRange(0, len(l)-1).Draw(rt, "bad entry")].key = rapid.IntRange(-4, -1).Draw(rt, "badness")
	}
	return l
}

func TestC36_Tokens(t *testing.T) {
	keys()
	vh.Check(t, vh.N(700, 20000), "the history has a token accepted and one refused for its signature or key, and a rotation", func(rt *rapid.T, c *vh.Case) {
		kids := []string{"key-1", "key-2", "", "é"}
		u := &uaa{}
		interval := refreshInterval
		var opts []auth.UAAOption
		if rapid.Bool().Draw(rt, "own interval") {
			interval = time.Duration(rapid.SampledFrom([]int64{0, 1, 5, 60}).Draw(rt, "interval")) * time.Second
			opts = append(opts, auth.WithMinimumRefreshInterval(interval))
		}
		m := &uaaModel{known: map[string]int{}}
		ever := signers{}
		var log []string
		note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		accepted, refused, rotated := false, false, false
		err := vh.Bubble(t, func() {
			cl := auth.NewUAAClient("https://uaa.example:8443", u, noMetrics{}, quiet, opts...)
			u.list = ever.note(genList(rt, kids))
			note("listed %v", u.list)
			fail := func(f string, a ...interface{}) {
				vh.Fail(f, a...)
			}
			for step := rapid.IntRange(2, 25).Draw(rt, "steps"); step > 0; step-- {
				switch rapid.IntRange(0, 9).Draw(rt, "step") {
				case 0:
					u.list = ever.note(genList(rt, kids))
					rotated = true
					note("listed %v", u.list)
				case 1:
					u.fault = rapid.SampledFrom([]string{"", "", "transport", "status", "json", "not json"}).Draw(rt, "fault")
					note("fault %q", u.fault)
				case 2, 3:
					d := time.Duration(rapid.SampledFrom([]int64{1, 500, 1000, 5000, 29999, 30000, 30001, 61000, 4000000}).Draw(rt, "millis")) * time.Millisecond
					time.Sleep(d)
					note("%s pass", d)
				case 4:
					wantErr := m.refresh(u, time.Now(), interval)
					err := cl.RefreshTokenKeys()
					note("refresh: %v", err)
					if (err != nil) != wantErr {
						fail("the refresh returned %v, want an error: %v", err, wantErr)
					}
				default:
					now := time.Now()
					tok := genToken(rt, now, kids, ever)
					note("token %s", tok.about)
					got, err := cl.Read(tok.text)
					synctest.Wait()
					note("  %v", err)
					ok, either := false, false
					switch tok.form {
					case formAlg, formNoKid:
						// refused for good: the keys are not asked for
					case formMalformed:
						if tok.text != "" {
							m.refresh(u, now, interval)
						}
					default:
						k, known := m.known[tok.kid]
						if !known {
							m.refresh(u, now, interval)
							k, known = m.known[tok.kid]
						}
						switch {
						case !known:
							refused = true
						case k != tok.key:
							refused = true
							m.refresh(u, now, interval)
						case tok.claims:
							ok = !now.After(time.Unix(tok.exp, 0))
							d := now.Sub(time.Unix(tok.exp, 0))
							either = d == 0 || tok.expEdge && d > 0 && d < time.Second
						}
					}
					if !either && (err == nil) != ok {
						fail("the token gave %v, want it accepted: %v; known are %v", err, ok, m.known)
					}
					if err != nil && got != (auth.Oauth2ClientContext{}) {
						fail("a refused token gave %v", got)
					}
					if err == nil {
						accepted = true
						if got.IsAdmin != tok.admin || got.Token != tok.text || !got.ExpiresAt.Equal(time.Unix(tok.exp, 0)) {
							fail("the token gave %v, want admin %v, until %v", got, tok.admin, time.Unix(tok.exp, 0))
						}
						c.ClassIf(tok.admin, "admin")
					}
					c.ClassIf(tok.form != "", "refused for "+tok.form)
					c.ClassIf(tok.form == "" && !tok.claims, "odd claims")
				}
				synctest.Wait()
				if u.calls != m.calls {
					fail("the authority was asked %d times, want %d", u.calls, m.calls)
				}
				if u.open != 0 {
					fail("%d responses of the authority are left open", u.open)
				}
				if u.bad != "" {
					fail("the authority was asked %s", u.bad)
				}
			}
		})
		if err != nil {
			rt.Fatalf("%s\nin the history\n%s", err, strings.Join(log, "\n"))
		}
		c.ClassIf(accepted, "accepted")
		c.If(accepted && refused && rotated, strings.Join(log, "; "))
	})
}

// TestC36_Concurrent: readers and refreshes at once. A listed key stays good
// throughout, and no other is.
func TestC36_Concurrent(t *testing.T) {
	keys()
	vh.Check(t, vh.N(25, 800), "each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		u := &uaa{took: time.Duration(rapid.IntRange(0, 300).Draw(rt, "latency")) * time.Microsecond}
		good, bad := rapid.IntRange(0, 1).Draw(rt, "good"), rapid.IntRange(2, 3).Draw(rt, "bad")
		other := 1 - good
		lists := [][]listed{{{"a", good}}, {{"b", other}, {"a", good}}, {{"a", good}, {"c", other}, {"d", other}}, {{"a", good}, {"b", -2}}, nil}
		u.list = lists[0]
		c.NonTrivial(fmt.Sprint(good, bad, u.took))
		cl := auth.NewUAAClient("https://uaa.example:8443", u, noMetrics{}, quiet, auth.WithMinimumRefreshInterval(0))
		if err := cl.RefreshTokenKeys(); err != nil {
			rt.Fatalf("the first refresh: %s", err)
		}
		sign := func(kid string, key int) string {
			in := b64.EncodeToString([]byte(fmt.Sprintf(`{"alg":"RS256","kid":%q}`, kid))) + "." + b64.EncodeToString([]byte(fmt.Sprintf(`{"exp":%d,"scope":[%q]}`, time.Now().Unix()+1000, kid)))
			return in + "." + b64.EncodeToString(rs(rsaKeys[key], crypto.SHA256, in))
		}
		yes, no := sign("a", good), []string{sign("a", bad), sign("b", bad), sign("e", good), sign("c", bad)}
		var mu sync.Mutex
		problem := ""
		report := func(s string) {
			mu.Lock()
			if problem == "" {
				problem = s
			}
			mu.Unlock()
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 12; i++ {
					switch (i + g) % 4 {
					case 0:
						cl.RefreshTokenKeys()
					case 1:
						u.mu.Lock()
						// never without the good key
						u.list = lists[i%4]
						u.mu.Unlock()
					case 2:
						if _, err := cl.Read(yes); err != nil {
							report(fmt.Sprintf("a token signed by a key that is listed throughout: %s", err))
						}
					default:
						if _, err := cl.Read(no[i%len(no)]); err == nil {
							report("a token that no listed key has signed was accepted")
						}
					}
				}
			}()
		}
		wg.Wait()
		for i := 0; atomic.LoadInt64(&u.open) != 0; i++ {
			if i > 2000 {
				rt.Fatalf("%d responses are left open", u.open)
			}
			time.Sleep(time.Millisecond)
		}
		if problem != "" {
			rt.Fatalf("%s", problem)
		}
	})
}
