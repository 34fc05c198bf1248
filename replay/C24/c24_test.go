package zzverif

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful"
)

func certFiles(t *testing.T) (cert, key string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"localhost"}}
	der, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	kb, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		t.Fatal(err)
	}
	d := t.TempDir()
	cert, key = filepath.Join(d, "cert.pem"), filepath.Join(d, "key.pem")
	os.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb}), 0600)
	return
}

// start serves TLS with the configuration and returns the address.
func start(t *testing.T, c *tls.Config) string {
	cert, key := certFiles(t)
	addr := make(chan string, 1)
	srv := &http.Server{Addr: "127.0.0.1:0", Handler: http.NotFoundHandler(), TLSConfig: c,
		BaseContext: func(l net.Listener) context.Context { addr <- l.Addr().String(); return context.Background() }}
	fail := make(chan error, 1)
	go func() { fail <- (*graceful.Server)(srv).ListenAndServeTLS(cert, key) }()
	select {
	case a := <-addr:
		return a
	case err := <-fail:
		failing(t, "ListenAndServeTLS with %+v: %v", c, err)
	case <-time.After(20 * time.Second):
		failing(t, "ListenAndServeTLS with %+v never listened", c)
	}
	return ""
}

func dial(addr string, c *tls.Config) (st tls.ConnectionState, err error) {
	c.InsecureSkipVerify = true
	conn, err := tls.DialWithDialer(&net.Dialer{Timeout: 10 * time.Second}, "tcp", addr, c)
	if err != nil {
		return st, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(10 * time.Second))
	if _, err = conn.Write([]byte("GET / HTTP/1.0\r\n\r\n")); err != nil {
		return st, err
	}
	if _, err = conn.Read(make([]byte, 1)); err != nil {
		return st, err
	}
	return conn.ConnectionState(), nil
}

// SessionTicketKey is an array, which the contracts do not compare.
func TestBoundedSessionTicketKey(t *testing.T) {
	for _, n := range []int{0, 1, 17, 31} {
		var k [32]byte
		k[n] = 7
		a := start(t, &tls.Config{SessionTicketKey: k})
		b := start(t, &tls.Config{SessionTicketKey: k})
		cache := tls.NewLRUClientSessionCache(4)
		cc := func() *tls.Config {
			return &tls.Config{ServerName: "localhost", ClientSessionCache: cache, MaxVersion: tls.VersionTLS12}
		}
		if _, err := dial(a, cc()); err != nil {
			failing(t, "TLS connection: %v", err)
		}
		st, err := dial(b, cc())
		if err != nil {
			failing(t, "TLS connection: %v", err)
		}
		if !st.DidResume {
			failing(t, "two servers with SessionTicketKey %v do not share their sessions", k)
		}
	}
}

func TestReplayTLS(t *testing.T) {
	// no configuration
	a := start(t, nil)
	st, err := dial(a, &tls.Config{NextProtos: []string{"h2", "http/1.1"}})
	if err != nil || st.NegotiatedProtocol != "http/1.1" {
		failing(t, "no TLSConfig: protocol %q, %v", st.NegotiatedProtocol, err)
	}
	// the configuration of the caller
	asked := 0
	c := &tls.Config{NextProtos: []string{"zz/1", "http/1.1"}, MinVersion: tls.VersionTLS13, GetConfigForClient: func(*tls.ClientHelloInfo) (*tls.Config, error) { asked++; return nil, nil }}
	a = start(t, c)
	st, err = dial(a, &tls.Config{NextProtos: []string{"http/1.1"}})
	if err != nil || st.NegotiatedProtocol != "http/1.1" || asked != 1 {
		failing(t, "TLSConfig with protocols %v: got %q, %v; GetConfigForClient called %d times", c.NextProtos, st.NegotiatedProtocol, err, asked)
	}
	if _, err := dial(a, &tls.Config{MaxVersion: tls.VersionTLS12}); err == nil {
		failing(t, "MinVersion TLS 1.3, but a TLS 1.2 connection was accepted")
	}
	if len(c.Certificates) != 0 || !reflect.DeepEqual(c.NextProtos, []string{"zz/1", "http/1.1"}) || c.MinVersion != tls.VersionTLS13 {
		failing(t, "the caller's configuration was changed: %+v", c)
	}
	c = &tls.Config{ClientAuth: tls.RequireAnyClientCert}
	a = start(t, c)
	if _, err := dial(a, &tls.Config{}); err == nil {
		failing(t, "ClientAuth RequireAnyClientCert, but a connection without a certificate was accepted")
	}
	if len(c.Certificates) != 0 || c.NextProtos != nil {
		failing(t, "the caller's configuration was changed: %+v", c)
	}
	a = start(t, &tls.Config{NextProtos: []string{}})
	if st, err := dial(a, &tls.Config{NextProtos: []string{"http/1.1"}}); err != nil || st.NegotiatedProtocol != "" {
		failing(t, "empty NextProtos: negotiated %q, %v", st.NegotiatedProtocol, err)
	}
	// files that do not exist
	srv := &graceful.Server{Addr: "127.0.0.1:0"}
	if err := srv.ListenAndServeTLS("/nonexistent/c", "/nonexistent/k"); err == nil {
		failing(t, "ListenAndServeTLS without certificate returned nil")
	}
	c = &tls.Config{Certificates: make([]tls.Certificate, 1, 3)}
	c.Certificates[0].Certificate = [][]byte{{1}}
	start(t, c)
	if len(c.Certificates) != 1 || len(c.Certificates[0].Certificate) != 1 || len(c.Certificates[0].Certificate[0]) != 1 {
		failing(t, "the caller's certificates were changed")
	}
}
