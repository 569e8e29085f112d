package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crypto "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	chaff "github.com/ryanolee/go-chaff"
	crand "github.com/ryanolee/go-chaff/rand"
)

type webRef struct {
	Form string   `json:"form"`
	Site string   `json:"site"`
	Path []string `json:"path"`
}

type webNode struct {
	Path []string `json:"path"`
	Node struct {
		K    string   `json:"k"`
		To   webRef   `json:"to"`
		Refs []webRef `json:"refs"`
	} `json:"node"`
}

// Servers on the loopback interface that log what they are asked for.
type web struct {
	hosts map[string]string // site -> host:port
	mu    sync.Mutex
	log   []any
	nodes map[string]webNode
	hook  func()                     // called for every request
	docs  map[string]json.RawMessage // additional documents, by url
}

var siteHosts = map[string]string{"a": "127.0.0.1", "b": "127.0.0.2", "s": "127.0.0.1", "t": "127.0.0.2"}

func siteScheme(site string) string {
	if site == "s" || site == "t" {
		return "https"
	}
	return "http"
}

func (w *web) url(site string, path []string) string {
	return siteScheme(site) + "://" + w.hosts[site] + "/" + strings.Join(path, "/")
}

func (w *web) text(r webRef) string {
	switch r.Form {
	case "abs":
		return w.url(r.Site, r.Path)
	case "net":
		return "//" + w.hosts[r.Site] + "/" + strings.Join(r.Path, "/")
	case "top":
		return "/" + strings.Join(r.Path, "/")
	}
	return strings.Join(r.Path, "/")
}

func (w *web) texts(rs []webRef) []string {
	out := []string{}
	for _, r := range rs {
		out = append(out, w.text(r))
	}
	return out
}

// A certificate for the loopback interface that the process trusts.
func certificate() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crypto.Reader)
	must(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("127.0.0.2")}}
	der, err := x509.CreateCertificate(crypto.Reader, tpl, tpl, &key.PublicKey, key)
	must(err)
	file := filepath.Join(scratch("tls"), "ca.pem")
	must(os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
	os.Setenv("SSL_CERT_FILE", file)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

var theWeb *web

func startWeb() *web {
	if theWeb != nil {
		return theWeb
	}
	for _, k := range []string{"HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy", "ALL_PROXY"} {
		os.Unsetenv(k)
	}
	w := &web{hosts: map[string]string{}, nodes: map[string]webNode{}, docs: map[string]json.RawMessage{}}
	cert := certificate()
	for site, ip := range siteHosts {
		l, err := net.Listen("tcp", ip+":0")
		must(err)
		w.hosts[site] = l.Addr().String()
		if siteScheme(site) == "https" {
			l = tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{cert}, NextProtos: []string{"http/1.1"}})
		}
		site := site
		srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { w.serve(site, rw, r) }), ErrorLog: log.New(io.Discard, "", 0)}
		go srv.Serve(l)
	}
	theWeb = w
	return w
}

func (w *web) load() {
	if len(w.nodes) > 0 {
		return
	}
	data, err := os.ReadFile(os.Getenv("VERIF_WORLD"))
	must(err)
	var in struct {
		Nodes []webNode `json:"nodes"`
	}
	must(json.Unmarshal(data, &in))
	for _, n := range in.Nodes {
		w.nodes[strings.Join(n.Path, "/")] = n
	}
}

func (w *web) serve(site string, rw http.ResponseWriter, r *http.Request) {
	path := strings.Split(strings.TrimPrefix(r.URL.Path, "/"), "/")
	at := append([]string{site}, path...)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.hook != nil {
		w.hook()
	}
	w.log = append(w.log, at)
	if d, ok := w.docs[w.url(site, path)]; ok {
		if len(d) == 0 {
			rw.WriteHeader(404)
			return
		}
		rw.Write(d)
		return
	}
	n, ok := w.nodes[strings.Join(at, "/")]
	if !ok {
		rw.WriteHeader(404)
		rw.Write(raw(markedSchema(at, nil)))
		return
	}
	switch n.Node.K {
	case "redirect":
		codes := []int{301, 302, 303, 307, 308}
		rw.Header().Set("Location", w.text(n.Node.To))
		rw.WriteHeader(codes[len(at[len(at)-1])%len(codes)])
		rw.Write(raw(markedSchema(at, nil)))
	case "broken":
		rw.Write([]byte(`{"type":`))
	case "error":
		rw.WriteHeader(500)
		rw.Write(raw(markedSchema(at, nil)))
	default:
		rw.Write(raw(markedSchema(n.Path, w.texts(n.Node.Refs))))
	}
}

func init() {
	runners["http"] = runner{"HttpPolicyTrace", func(c *Case) map[string]any {
		return map[string]any{"extra": c.Extra, "requests": []any{}, "marks": []any{}, "reported": false, "parse": "ok"}
	}, runHTTP}
}

func runHTTP(c *Case, seed int64, res *Result, tr map[string]any) {
	w := startWeb()
	w.load()
	var extra struct {
		Base     []string `json:"base"`
		Via      string   `json:"via"`
		Enabled  bool     `json:"enabled"`
		Insecure bool     `json:"insecure"`
		Allowed  []struct {
			Site string `json:"site"`
			Form string `json:"form"`
		} `json:"allowed"`
		Refs []webRef `json:"refs"`
	}
	must(json.Unmarshal(c.Extra, &extra))
	po := &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: extra.Enabled, AllowInsecure: extra.Insecure}}}
	for _, a := range extra.Allowed {
		h := w.hosts[a.Site]
		if a.Form == "url" {
			h = siteScheme(a.Site) + "://" + h + "/whatever"
		}
		switch a.Form { // other hosts
		case "tail":
			h = h[3:]
		case "longer":
			h += "0"
		case "wider":
			h = "x" + h
		}
		po.DocumentFetchOptions.HTTPFetchOptions.AllowedHosts = append(po.DocumentFetchOptions.HTTPFetchOptions.AllowedHosts, h)
	}
	if len(extra.Base) > 0 {
		po.RelativeTo = w.url(extra.Base[0], extra.Base[1:])
	}
	schema := markedSchema("root", w.texts(extra.Refs))
	if extra.Via == "allOf" {
		props := schema["properties"].(S)
		for k, v := range props {
			if k != "me" {
				props[k] = S{"allOf": []any{S{"type": "object"}, v}}
			}
		}
	}
	w.mu.Lock()
	w.log = nil
	w.mu.Unlock()
	gen, err := chaff.ParseSchema(raw(schema), po)
	if err != nil {
		tr["parse"] = "error"
		res.Errors = append(res.Errors, err.Error())
	} else if gen.Metadata.Errors.HasErrors() {
		tr["reported"] = true
		for k, e := range gen.Metadata.Errors.CollectErrors() {
			res.Errors = append(res.Errors, fmt.Sprintf("%s: %s", k, e))
		}
	}
	marks := map[string]any{}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < 3 && err == nil; i++ {
		data := raw(gen.Generate(&chaff.GeneratorOptions{Rand: crand.NewRandUtil(r.Int63())}))
		res.N++
		res.Raw = append(res.Raw, data)
		d, err := decodeJSON(data)
		must(err)
		marksOf(d, marks)
	}
	ms := []any{}
	for _, k := range sortedKeys(marks) {
		if marks[k] != "root" {
			ms = append(ms, marks[k])
		}
	}
	tr["marks"] = ms
	w.mu.Lock()
	defer w.mu.Unlock()
	tr["requests"] = append([]any{}, w.log...)
}
