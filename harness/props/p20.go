package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
)

// ---- certificates (made once per process, outside virtual time)

type pki struct {
	dir     string
	ca, ca2 *x509.Certificate
	key     *ecdsa.PrivateKey
	key2    *ecdsa.PrivateKey
	server  map[string]tls.Certificate // by kind
	pool    *x509.CertPool
}

var (
	thePKI  *pki
	pkiOnce sync.Once
)

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

func getPKI() *pki {
	pkiOnce.Do(func() {
		p := &pki{server: map[string]tls.Certificate{}}
		p.dir = must(os.MkdirTemp("", "verif-pki"))
		mkca := func(name string) (*x509.Certificate, *ecdsa.PrivateKey) {
			k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
			t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC),
				IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
			der := must(x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k))
			return must(x509.ParseCertificate(der)), k
		}
		p.ca, p.key = mkca("ca")
		p.ca2, p.key2 = mkca("other ca")
		p.pool = x509.NewCertPool()
		p.pool.AddCert(p.ca)
		serial := int64(10)
		leaf := func(ca *x509.Certificate, cak *ecdsa.PrivateKey, after time.Time, names ...string) ([]byte, *ecdsa.PrivateKey) {
			serial++
			k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
			t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: after, DNSNames: names,
				KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
			return must(x509.CreateCertificate(rand.Reader, t, ca, &k.PublicKey, cak)), k
		}
		late, early := time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
		srv := func(kind string, ca *x509.Certificate, cak *ecdsa.PrivateKey, after time.Time, names ...string) {
			der, k := leaf(ca, cak, after, names...)
			p.server[kind] = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
		}
		srv("good", p.ca, p.key, late, "b1", "b2", "b3")
		srv("untrusted", p.ca2, p.key2, late, "b1", "b2", "b3")
		srv("otherhost", p.ca, p.key, late, "kafka.internal")
		srv("expired", p.ca, p.key, early, "b1", "b2", "b3")
		w := func(name, typ string, der []byte) {
			if err := os.WriteFile(filepath.Join(p.dir, name), pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0o600); err != nil {
				panic(err)
			}
		}
		w("ca.pem", "CERTIFICATE", p.ca.Raw)
		w("ca2.pem", "CERTIFICATE", p.ca2.Raw)
		der, k := leaf(p.ca, p.key, late, "client")
		w("client.pem", "CERTIFICATE", der)
		w("client.key", "EC PRIVATE KEY", must(x509.MarshalECPrivateKey(k)))
		thePKI = p
	})
	return thePKI
}

type p20Op struct {
	Kind   string // do, kill, reset, wait, restart
	Broker int
	MS     int
}

type p20Case struct {
	Client   string
	Brokers  int
	SASL     string // "", ok, wrongpass, wronguser, mech, unsupported, failfrom
	Mech     string
	User     string
	Pass     string
	FailFrom int
	TLS      string // "", good, untrusted, otherhost, servername, expired, insecure, mutual, nocert, nofile, badca
	AsMap    bool
	Ops      []p20Op
	Faults   []kafka.Fault
	Seg      int
}

func genP20(d *pbt.D) any {
	c := p20Case{Client: pbt.Pick(d, "broker", "broker", "brokers", "producer", "simple", "consumer", "group"), Brokers: 1 + d.N(2), Mech: "PLAIN", AsMap: d.P(1, 2), Seg: d.W(4, 1)}
	c.SASL = []string{"ok", "", "wrongpass", "wronguser", "mech", "unsupported", "failfrom"}[d.W(10, 2, 2, 1, 1, 1, 2)]
	c.User, c.Pass = d.Name(12), d.Name(16)
	if d.P(1, 5) {
		c.User = pbt.Pick(d, "ü主", "a b", strings.Repeat("u", 300), "-")
		c.Pass = pbt.Pick(d, "", "pä\"ss", strings.Repeat("p", 1000), "\x01\xff")
	}
	if d.P(1, 10) {
		c.Mech = "plain"
	}
	c.FailFrom = 1 + d.N(4)
	if d.P(1, 3) {
		c.TLS = []string{"good", "untrusted", "otherhost", "servername", "expired", "insecure", "mutual", "nocert", "nofile", "badca"}[d.W(8, 3, 2, 2, 2, 2, 3, 1, 1, 1)]
	}
	for n := d.Int(1, 6); n > 0; n-- {
		o := p20Op{Kind: []string{"do", "kill", "reset", "wait", "restart"}[d.W(5, 3, 2, 1, 1)], Broker: 1 + d.N(c.Brokers), MS: pbt.Pick(d, 1, 50, 700, 5000)}
		c.Ops = append(c.Ops, o)
	}
	if d.P(1, 2) {
		for n := 1 + d.N(2); n > 0; n-- {
			f := kafka.Fault{API: pbt.Pick(d, kafka.SaslHandshake, kafka.SaslAuthenticate, kafka.SaslAuthenticate, kafka.ApiVersions, kafka.Metadata), Broker: -1, Skip: d.N(4),
				Kind: pbt.Pick(d, kafka.FClose, kafka.FCloseAft, kafka.FReset, kafka.FHang, kafka.FErr, kafka.FTrunc, kafka.FSwallow, kafka.FHalfHang, kafka.FWrongCor), Arg: d.N(1000), Code: pbt.Pick[int16](d, 58, 33, 34, 7, -1)}
			if f.API == kafka.Metadata || f.API == kafka.ApiVersions {
				if f.Kind == kafka.FErr || f.Kind == kafka.FWrongCor {
					f.Kind = kafka.FClose
				}
			}
			if c.TLS != "" && f.Kind == kafka.FReset {
				f.Kind = kafka.FClose
			}
			c.Faults = append(c.Faults, f)
		}
	}
	return c
}

func (c p20Case) String() string {
	s := fmt.Sprintf("%s client, %d brokers, SASL %q mechanism %s user %q password %q failfrom %d, TLS %q, map config %v, segmentation %d\n", c.Client, c.Brokers, c.SASL, c.Mech, c.User, c.Pass, c.FailFrom, c.TLS, c.AsMap, c.Seg)
	for _, f := range c.Faults {
		s += "  fault " + f.String() + "\n"
	}
	for _, o := range c.Ops {
		s += fmt.Sprintf("  %s broker %d, %d ms\n", o.Kind, o.Broker, o.MS)
	}
	return s
}

// accepted tells whether connections can succeed at all.
func (c p20Case) accepted() bool {
	switch c.SASL {
	case "wrongpass", "wronguser", "mech", "unsupported":
		return false
	}
	return !c.tlsRejected()
}

func (c p20Case) tlsRejected() bool {
	switch c.TLS {
	case "untrusted", "otherhost", "expired", "nocert", "nofile", "badca":
		return true
	}
	return false
}

type p20Driver struct {
	do    func() error // one unit of work that needs a connection
	close func()
}

func runP20(r *pbt.R, c p20Case, p *pki) {
	cl := kafka.New(c.Brokers, 3)
	cl.Seg = c.Seg
	cl.MinFetchDelay = 100 * time.Millisecond
	t := cl.AddTopic("secret-topic", 1, int32(c.Brokers))
	for i, pt := range t.Parts {
		store(pt, []logChunk{probeChunk(i)})
	}
	mech := c.Mech
	if c.SASL != "" {
		s := &kafka.SASL{Mechanism: c.Mech, User: c.User, Password: c.Pass}
		switch c.SASL {
		case "wrongpass":
			s.Password = c.Pass + "x"
		case "wronguser":
			s.User = c.User + "x"
		case "mech":
			s.Mechanism = "SCRAM-SHA-512"
		case "unsupported":
			mech = "SCRAM-SHA-256"
			s.Mechanism = mech
		case "failfrom":
			s.FailFrom, s.FailCode = c.FailFrom, 58
			cl.Latency = 100 * time.Millisecond // clients that try again at once: bounds the handshakes of a case
		}
		cl.SASL = s
	}
	raw := map[int][]byte{}
	var tlsc *healer.TLSConfig
	if c.TLS != "" {
		tlsc = &healer.TLSConfig{Cert: filepath.Join(p.dir, "client.pem"), Key: filepath.Join(p.dir, "client.key"), CA: filepath.Join(p.dir, "ca.pem")}
		kind := "good"
		scfg := &tls.Config{}
		switch c.TLS {
		case "untrusted", "otherhost", "expired":
			kind = c.TLS
		case "servername":
			kind = "otherhost"
			tlsc.ServerName = "kafka.internal"
		case "insecure":
			kind = "untrusted"
			tlsc.InsecureSkipVerify = true
		case "mutual":
			scfg.ClientAuth = tls.RequireAndVerifyClientCert
			scfg.ClientCAs = p.pool
		case "nocert":
			tlsc.Cert = ""
		case "nofile":
			tlsc.Key = filepath.Join(p.dir, "missing.key")
		case "badca":
			tlsc.CA = filepath.Join(p.dir, "ca2.pem")
		}
		scfg.Certificates = []tls.Certificate{p.server[kind]}
		for _, b := range cl.Brokers {
			b.TLS = func(n net.Conn) net.Conn { return tls.Server(n, scfg) }
		}
		cl.Tap = func(id int, b []byte) { cl.Lock(); raw[id] = append(raw[id], b...); cl.Unlock() }
	}
	cl.Faults = nil
	for i := range c.Faults {
		f := c.Faults[i]
		cl.Faults = append(cl.Faults, &f)
	}
	cl.Install()

	sasl := healer.SaslConfig{}
	if c.SASL != "" {
		sasl = healer.SaslConfig{Mechanism: mech, User: c.User, Password: c.Pass}
	}
	netc := map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 2000}
	mk := func(extra map[string]interface{}) map[string]interface{} {
		m := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "net": netc, "client.id": "me"}
		if c.SASL != "" {
			m["sasl"] = map[string]interface{}{"mechanism": mech, "user": c.User, "password": c.Pass}
		}
		if tlsc != nil {
			m["tls.enabled"] = true
			m["tls"] = map[string]interface{}{"cert": tlsc.Cert, "key": tlsc.Key, "ca": tlsc.CA, "insecure.skip.verify": tlsc.InsecureSkipVerify, "servername": tlsc.ServerName}
		}
		for k, v := range extra {
			m[k] = v
		}
		return m
	}
	bcfg := healer.DefaultBrokerConfig()
	bcfg.Net.ConnectTimeoutMS, bcfg.Net.TimeoutMS = 1000, 2000
	bcfg.Sasl, bcfg.TLSEnabled, bcfg.TLS = sasl, tlsc != nil, tlsc

	var dr p20Driver
	create := func() error {
		switch c.Client {
		case "broker":
			b, err := healer.NewBroker("b1:9092", 1, bcfg)
			if err != nil {
				return err
			}
			dr = p20Driver{func() error { _, e := b.RequestAndGet(healer.NewMetadataRequest("me", nil)); return e }, b.Close}
		case "brokers":
			bs, err := healer.NewBrokersWithConfig(cl.Bootstrap(), bcfg)
			if err != nil {
				return err
			}
			dr = p20Driver{func() error {
				_, e := bs.RequestOffsets("me", "secret-topic", -1, -1, 1)
				return e
			}, bs.Close}
		case "producer":
			var conf interface{} = mk(map[string]interface{}{"retry.backoff.ms": 100, "message.max.count": 1})
			if !c.AsMap {
				pc := healer.DefaultProducerConfig()
				pc.BootstrapServers, pc.Sasl, pc.TLSEnabled, pc.TLS, pc.Net, pc.MessageMaxCount = cl.Bootstrap(), sasl, tlsc != nil, tlsc, bcfg.Net, 1
				conf = pc
			}
			pr, err := healer.NewProducer("secret-topic", conf)
			if err != nil {
				return err
			}
			n := 0
			dr = p20Driver{func() error {
				n++
				return pr.AddMessage([]byte{byte(n)}, []byte("secret value"))
			}, pr.Close}
		case "simple", "consumer", "group":
			var conf interface{} = mk(map[string]interface{}{"group.id": "g", "from.beginning": true, "session.timeout.ms": 6000, "fetch.max.wait.ms": 300})
			if !c.AsMap {
				cc := healer.DefaultConsumerConfig()
				cc.BootstrapServers, cc.Sasl, cc.TLSEnabled, cc.TLS, cc.Net = cl.Bootstrap(), sasl, tlsc != nil, tlsc, bcfg.Net
				cc.GroupID, cc.FromBeginning, cc.SessionTimeoutMS, cc.FetchMaxWaitMS = "g", true, 6000, 300
				conf = cc
			}
			ch := make(chan *healer.FullMessage, 1000)
			var stop func()
			switch c.Client {
			case "simple":
				k, err := healer.NewSimpleConsumer("secret-topic", 0, conf)
				if err != nil {
					return err
				}
				go k.Consume(-2, ch)
				stop = k.Stop
			case "consumer":
				k, err := healer.NewConsumer(conf, "secret-topic")
				if err != nil {
					return err
				}
				go k.Consume(ch)
				stop = func() { k.AwaitClose(time.Minute) }
			case "group":
				k, err := healer.NewGroupConsumer("secret-topic", conf)
				if err != nil {
					return err
				}
				go k.Consume(ch)
				stop = k.Close
			}
			seen := map[string]bool{}
			n := 0
			dr = p20Driver{func() error {
				n++
				want := fmt.Sprint("probe", 1000+n)
				cl.Lock()
				store(t.Parts[0], []logChunk{probeChunk(1000 + n)})
				cl.Unlock()
				if !until(time.Minute, 50*time.Millisecond, func() bool {
					for len(ch) > 0 {
						if m := <-ch; m.Message != nil {
							seen[string(m.Message.Value)] = true
						}
					}
					return seen[want]
				}) {
					return fmt.Errorf("record %s not delivered within a minute", want)
				}
				return nil
			}, stop}
		}
		return nil
	}

	var err error
	created := false
	for try := 0; try < 6; try++ {
		if !guarded(r, "creating the client", 10*time.Minute, func() { err = create() }) {
			if c.Client == "producer" || c.SASL == "failfrom" || !c.accepted() {
				// it retries, judged by what it sends
				r.Class("creation keeps retrying")
			} else {
				r.Fail("hang:create", "creating the client did not end within 10 minutes")
			}
			break
		}
		if r.Failed() {
			return
		}
		if err == nil {
			created = true
			break
		}
		r.Class("creation failed")
		if cl.PendingFaults() == 0 && c.accepted() && c.SASL != "failfrom" && try > 2 {
			r.Fail("refused", "the client could not be created although its credentials and certificates are in order: %v", err)
			break
		}
	}
	if created && !c.accepted() {
		r.Fail("accepted", "the client was created although authentication or the certificate must be rejected (SASL %s, TLS %s)", c.SASL, c.TLS)
	}
	if created && !r.Failed() {
		for _, o := range c.Ops {
			switch o.Kind {
			case "do":
				var e error
				if !guarded(r, "a request", 10*time.Minute, func() { e = dr.do() }) && !r.Failed() {
					r.Fail("hang:request", "a request did not return within 10 minutes")
				}
				_ = e
			case "kill":
				cl.KillConns(int32(o.Broker), false)
			case "reset":
				cl.KillConns(int32(o.Broker), true)
			case "wait":
				time.Sleep(time.Duration(o.MS) * time.Millisecond)
			case "restart":
				cl.SetMode(int32(o.Broker), kafka.Refuse)
				cl.KillConns(int32(o.Broker), false)
				time.Sleep(time.Duration(o.MS) * time.Millisecond)
				cl.SetMode(int32(o.Broker), kafka.Up)
			}
			if r.Failed() {
				break
			}
		}
	}
	if created && !r.Failed() && c.SASL != "failfrom" {
		// everything is healthy again: work must succeed after a few tries
		cl.ClearFaults()
		var e error
		ok := false
		for i := 0; i < 5 && !ok; i++ {
			if !guarded(r, "a request", 10*time.Minute, func() { e = dr.do() }) {
				r.Fail("hang:request", "a request did not return within 10 minutes")
				break
			}
			ok = e == nil
			time.Sleep(300 * time.Millisecond)
		}
		if !ok && !r.Failed() {
			r.Fail("dead", "with all brokers healthy again the client does not work: %v", e)
		}
	}
	if created && !r.Failed() && c.SASL == "failfrom" && c.Client == "broker" {
		// connections made from now on are rejected: work must fail with an error
		cl.ClearFaults()
		cl.Lock()
		cl.SASL.FailFrom = 1
		cl.Unlock()
		for _, id := range cl.Order {
			cl.KillConns(id, false)
		}
		var e error
		for i := 0; i < 2; i++ {
			if !guarded(r, "a request", 10*time.Minute, func() { e = dr.do() }) {
				r.Fail("hang:request", "a request did not return within 10 minutes")
				break
			}
			if e == nil {
				r.Fail("unauth", "a request succeeded although authentication on the new connection was rejected")
			}
		}
	}
	if created && !r.Failed() {
		guarded(r, "close", 5*time.Minute, dr.close)
	}

	// what every connection carried
	type st struct{ hs, authed bool }
	conns := map[int]*st{}
	others, reconn := 0, map[string]int{}
	for _, e := range cl.Events() {
		s := conns[e.Conn]
		if s == nil {
			s = &st{}
			conns[e.Conn] = s
			reconn[fmt.Sprint(e.Broker)]++
		}
		switch e.H.API {
		case kafka.ApiVersions:
		case kafka.SaslHandshake:
			if c.SASL == "" {
				r.Fail("unasked", "SASL handshake although no SASL is configured")
			} else if m := e.Req.S("mechanism"); m != mech {
				r.Fail("mechanism", "handshake for %q, configured %q", m, mech)
			}
			s.hs = e.Done >= 0 && e.Resp.I("error_code") == 0
		case kafka.SaslAuthenticate:
			want := append(append([]byte{0}, c.User...), append([]byte{0}, c.Pass...)...)
			if c.SASL == "" {
				r.Fail("unasked", "SASL authentication although no SASL is configured")
			} else if !bytes.Equal(e.Req.B("auth_bytes"), want) {
				r.Fail("credentials", "authentication with %q, configured %q", e.Req.B("auth_bytes"), want)
			}
			if !s.hs {
				r.Fail("handshake", "authentication on a connection whose handshake did not succeed")
			}
			s.authed = s.hs && e.Done >= 0 && e.Resp.I("error_code") == 0
		default:
			others++
			if c.SASL != "" && !s.authed {
				r.Fail("unauthenticated", "request of api %d on connection %d before authentication succeeded", e.H.API, e.Conn)
			}
		}
	}
	if c.TLS != "" {
		if len(raw) == 0 && c.TLS != "nocert" && c.TLS != "nofile" {
			r.Fail("setup", "no connection was made")
		}
		if (c.TLS == "nocert" || c.TLS == "nofile") && len(raw) > 0 {
			r.Fail("notls", "bytes were sent although the TLS configuration is not usable")
		}
		for id, b := range raw {
			if s := notTLS(b); s != "" {
				r.Fail("clear", "connection %d: %s", id, s)
			}
			for _, w := range []string{"secret", "healer"} {
				if bytes.Contains(b, []byte(w)) {
					r.Fail("clear", "connection %d carries %q in clear text", id, w)
				}
			}
			if len(c.Pass) > 6 && bytes.Contains(b, []byte(c.Pass)) {
				r.Fail("clear", "connection %d carries the password in clear text", id)
			}
		}
		if c.tlsRejected() && len(cl.Events()) > 0 {
			r.Fail("untrusted", "%d requests were sent to a server that is not trusted", len(cl.Events()))
		}
		r.Class("TLS " + c.TLS)
	}
	r.Class("SASL " + c.SASL)
	r.Class(c.Client)
	for _, n := range reconn {
		if n > 1 {
			r.Class("several connections to one broker")
			break
		}
	}
	if others >= 2 && len(conns) >= 2 || !c.accepted() {
		r.NonTrivial()
	}
	noteHistory(r, cl)
}

// notTLS checks that the bytes are a sequence of TLS records.
func notTLS(b []byte) string {
	for off := 0; off < len(b); {
		if len(b)-off < 5 {
			return ""
		}
		if t := b[off]; t < 20 || t > 23 || b[off+1] != 3 {
			return fmt.Sprintf("the bytes at %d (% x) are no TLS record", off, clipBytes(b[off:], 12))
		}
		off += 5 + int(b[off+3])<<8 + int(b[off+4])
	}
	return ""
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P20",
		Level: "fault_enumeration",
		Rule: "case = one of 6 kinds of client x SASL (accepted, wrong user or password, mechanism not offered or not supported, rejected from the n-th connection on) x TLS (trusted, untrusted, other host, expired, name override, no verification, client certificate, unusable files) x faults during discovery, handshake and authentication x killed connections and broker restarts; " +
			"every connection's requests are checked for order, mechanism and credentials, TLS connections byte by byte; non-trivial = at least 2 connections and 2 requests beyond authentication, or a rejected client",
		Quick: 12000, Deep: 120000, Chunk: 60,
		Gen: genP20,
		Run: func(x any, r *pbt.R) {
			p := getPKI()
			bubble(r, func() { runP20(r, x.(p20Case), p) })
		},
		Desc: func(x any) string { return x.(p20Case).String() },
	})
}
