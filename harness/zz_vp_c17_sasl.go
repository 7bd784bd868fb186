package healer

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"os"
	"time"
)

// A broker with SASL: mechanism PLAIN in two spellings or one that healer does not know, user and password of 0..2 bytes of any value (4
// thorough); the connection is made, used, lost, made again; either time the API versions request, the handshake or the authentication
// meets any of: success, an error code (of SASL, or any unknown one), the connection closed, no answer in time, closed inside
// the answer.
func VP_C17_broker() {
	vpDelays(0)
	vpMapOrder(1)
	s := &vpSasl{mech: [...]string{"PLAIN", "plain", "SCRAM-SHA-256"}[vpChoose("mech", 3)]}
	plain := s.mech != "SCRAM-SHA-256"
	s.user, s.pw = vpS("user", vpMax(2, 4)), vpS("password", vpMax(2, 4))
	lose := false
	k := &vpCluster{nodes: []int32{1}, controller: 1, coord: 1, maxRead: 7}
	k.handle = func(q *vpReq) ([]byte, bool) { return nil, lose }
	at := uint16(0) // the API that meets a fault on the next connection
	kind, code := vpSaslFine, int16(0)
	s.fault = func(q *vpReq) (int, int16) {
		if q.api == at {
			return kind, code
		}
		return vpSaslFine, 0
	}
	next := func() {
		at = [...]uint16{0, 18, 17, 36}[vpChoose("at", 4)]
		if at > 0 {
			kind = 1 + vpChoose("kind", vpSaslKinds-1)
			if kind == vpSaslCode {
				code = vpSaslErr("code")
			}
		}
	}
	s.guard(k)
	k.install()
	cfg := vpBrokerCfg()
	cfg.Sasl.Mechanism, cfg.Sasl.User, cfg.Sasl.Password = s.mech, s.user, s.pw
	next()
	fine := plain && at == 0
	b, err := NewBroker(vpNodeAddr(1), 1, cfg)
	vpAssert((err == nil) == fine, "a broker is created exactly when authentication succeeds")
	if !fine {
		vpAssert(b == nil, "no broker without authentication")
		vpAssert(len(k.conns) == 1 && k.conns[0].closed, "a connection that is not authenticated is closed")
		vpReach("end")
		return
	}
	_, err = b.findCoordinator("c", "g")
	vpAssert(err == nil, "an authenticated connection is used")
	lose = true
	_, err = b.findCoordinator("c", "g")
	vpAssert(err != nil, "a lost connection is noticed")
	lose = false
	next()
	_, err = b.findCoordinator("c", "g")
	vpAssert((err == nil) == (at == 0), "a request is answered exactly when authentication succeeds")
	if at != 0 {
		vpAssert(len(k.conns) == 2 && k.conns[1].closed, "a connection that is not authenticated is closed")
	}
	at = 0
	_, err = b.findCoordinator("c", "g")
	vpAssert(err == nil, "a failed authentication is tried again")
	if len(k.conns) == 2 {
		vpAssert(s.auths == 2, "every connection is authenticated once")
	}
	vpReach("end")
}

// Every client of healer (SimpleProducer, Producer, SimpleConsumer, Consumer, GroupConsumer) on a cluster of two brokers that demands SASL, with one
// of the first five authentications (user and password of one byte of any value) refused, or its connection lost, and
// the leader's connection lost while it is in use: every connection any of them makes is authenticated first, and
// the work is done in the end.
func VP_C17_clients() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	s := &vpSasl{mech: "PLAIN", user: vpStr("user", 1), pw: vpStr("password", 1)}
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, coord: 2, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 2}}}}}
	client := vpChoose("client", 5)
	var st *vpStore
	var g *vpGroup
	pcfg := vpProducerCfg()
	pcfg.Sasl.Mechanism, pcfg.Sasl.User, pcfg.Sasl.Password = s.mech, s.user, s.pw
	ccfg := vpGroupCfg()
	ccfg.Sasl = pcfg.Sasl
	if client < 2 {
		st = vpNewStore(k)
	} else {
		g = vpNewGroup(k, 10, 1)
		g.session = 6 * time.Second
		g.give = []int32{0}
		if client < 4 {
			ccfg.GroupID = ""
			g.assigned[0] = true
		}
	}
	when := 1 + vpChoose("when", 6)
	kind := vpSaslFine
	if when <= 5 {
		kind = 1 + vpChoose("kind", 3)
	}
	n := 0
	s.fault = func(q *vpReq) (int, int16) {
		if q.api == 36 {
			n++
			if n == when {
				return kind, 58
			}
		}
		return vpSaslFine, 0
	}
	lose := false
	inner := k.handle
	k.handle = func(q *vpReq) ([]byte, bool) {
		if lose && q.node == 2 && q.api <= 1 {
			lose = false
			q.conn.onWrite = func(*vpConn, []byte) error { return errors.New("connection reset") }
			return nil, true
		}
		return inner(q)
	}
	s.guard(k)
	k.install()
	switch client {
	case 0:
		p, err := NewSimpleProducer(context.Background(), "t", 0, pcfg)
		if err != nil {
			vpAssert(kind != vpSaslFine, "a producer is created")
			p, err = NewSimpleProducer(context.Background(), "t", 0, pcfg)
			vpAssert(err == nil, "a producer is created the next time")
		}
		vpAssert(p.AddMessage(nil, []byte{0}) == nil, "a message is added")
		e0 := p.Flush()
		lose = true
		p.AddMessage(nil, []byte{1})
		e1 := p.Flush()
		vpAssert(e1 != nil, "a lost connection is reported")
		p.AddMessage(nil, []byte{2})
		e2 := p.Flush()
		vpAssert(e0 == nil && e2 == nil || kind != vpSaslFine, "messages are written")
		p.Close()
	case 1:
		p, err := NewProducer("t", pcfg)
		if err != nil {
			vpAssert(kind != vpSaslFine, "a producer is created")
			p, err = NewProducer("t", pcfg)
			vpAssert(err == nil, "a producer is created the next time")
		}
		for i := byte(0); i < 3; i++ {
			lose = i == 1
			err := p.AddMessage([]byte("k"), []byte{i})
			vpAssert(err == nil || kind != vpSaslFine, "a message is added")
			time.Sleep(time.Second)
			vpWaitIdle()
		}
		p.Close()
		vpAssert(len(st.recs[0]) == 2 || kind != vpSaslFine, "messages are written")
	case 2:
		c, err := NewSimpleConsumer("t", 0, ccfg)
		if err != nil {
			vpAssert(kind != vpSaslFine, "a consumer is created")
			c, err = NewSimpleConsumer("t", 0, ccfg)
			vpAssert(err == nil, "a consumer is created the next time")
		}
		lose = true
		ch, err := c.Consume(10, make(chan *FullMessage))
		vpAssert(err == nil, "consuming starts")
		g.take(ch, 2, true)
		c.Stop()
	case 3:
		c, err := NewConsumer(ccfg, "t")
		if err != nil {
			vpAssert(kind != vpSaslFine, "a consumer is created")
			c, err = NewConsumer(ccfg, "t")
			vpAssert(err == nil, "a consumer is created the next time")
		}
		lose = true
		ch, err := c.Consume(make(chan *FullMessage))
		vpAssert(err == nil, "consuming starts")
		g.take(ch, 2, true)
		c.AwaitClose(10 * time.Second)
	case 4:
		c, err := NewGroupConsumer("t", ccfg)
		if err != nil {
			vpAssert(kind != vpSaslFine, "a consumer is created")
			c, err = NewGroupConsumer("t", ccfg)
			vpAssert(err == nil, "a consumer is created the next time")
		}
		lose = true
		ch, err := c.Consume(make(chan *FullMessage))
		vpAssert(err == nil, "consuming starts")
		g.take(ch, 2, true)
		c.Close()
	}
	vpAssert(s.auths > 0, "connections are authenticated")
	vpReach("end")
}

// TLS demanded but not configured completely (no TLS section, or certificate, key or CA missing): no client (Broker,
// SimpleProducer, Producer, SimpleConsumer, Consumer, GroupConsumer) makes a connection in the clear.
func VP_C17_tls() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1}
	k.install()
	var t *TLSConfig
	if vpChoose("section", 2) == 1 {
		t = &TLSConfig{Cert: vpS("cert", 1), Key: vpS("key", 1), CA: vpS("ca", 1)}
		vpAssume(len(t.Cert)+len(t.Key)+len(t.CA) < 3)
	}
	err := vpTLSClient(t)
	vpAssert(err != nil, "TLS that is not configured is an error")
	vpAssert(len(k.dials) == 0, "no connection is made in the clear")
	vpReach("end")
}

// makes one of the six kinds of clients with this TLS configuration
func vpTLSClient(t *TLSConfig) error {
	bcfg := vpBrokerCfg()
	bcfg.TLSEnabled, bcfg.TLS = true, t
	pcfg := vpProducerCfg()
	pcfg.TLSEnabled, pcfg.TLS = true, t
	ccfg := vpGroupCfg()
	ccfg.TLSEnabled, ccfg.TLS = true, t
	var err error
	switch vpChoose("client", 6) {
	case 0:
		_, err = NewBroker(vpNodeAddr(1), 1, bcfg)
	case 1:
		_, err = NewSimpleProducer(context.Background(), "t", 0, pcfg)
	case 2:
		_, err = NewProducer("t", pcfg)
	case 3:
		_, err = NewSimpleConsumer("t", 0, ccfg)
	case 4:
		_, err = NewConsumer(ccfg, "t")
	case 5:
		_, err = NewGroupConsumer("t", ccfg)
	}
	return err
}

// TLS configured completely (certificate, key and server name with any letter, the server name or not, verification switched off or not): every client of healer dials with TLS, never in the clear, with exactly that certificate, server name and
// verification, trusting the authorities of the file and no others. When the key pair or the file cannot be loaded, nobody is dialled.
func VP_C17_tlsconfig() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1}
	k.install()
	l := vpStr("letters", 3)
	t := &TLSConfig{Cert: "c" + l[:1], Key: "k" + l[1:2], CA: "/etc/passwd", InsecureSkipVerify: vpBool("insecure")}
	if vpChoose("server", 2) == 1 {
		t.ServerName = "s" + l[2:]
	}
	bad := vpChoose("bad", 3)
	if bad == 1 {
		t.CA = "/nonexistent/ca"
	}
	want, _ := os.ReadFile("/etc/passwd")
	pools := map[*x509.CertPool]int{}
	vpKeyPairHook = func(cert, key string) (tls.Certificate, error) {
		vpAssert(cert == t.Cert && key == t.Key, "the key pair configured is loaded")
		if bad == 2 {
			return tls.Certificate{}, errors.New("no such file")
		}
		return tls.Certificate{Certificate: [][]byte{[]byte("pair")}}, nil
	}
	vpCAHook = func(p *x509.CertPool, pem []byte) {
		vpAssert(len(pem) == len(want) && string(pem) == string(want), "the authorities configured are loaded")
		pools[p]++
	}
	dials := 0
	vpTLSDialHook = func(addr string, c *tls.Config) error {
		dials++
		vpAssert(addr == vpNodeAddr(1), "the broker is dialled")
		vpAssert(c != nil && c.InsecureSkipVerify == t.InsecureSkipVerify, "certificates are verified unless that is switched off")
		vpAssert(c.ServerName == t.ServerName, "the server's name is the one configured")
		vpAssert(c.RootCAs != nil && pools[c.RootCAs] == 1, "the authorities configured are trusted")
		vpAssert(len(c.Certificates) == 1 && len(c.Certificates[0].Certificate) == 1 && string(c.Certificates[0].Certificate[0]) == "pair", "the certificate configured is shown")
		return errors.New("dial: connection refused")
	}
	err := vpTLSClient(t)
	vpAssert(err != nil, "a connection that fails is an error")
	vpAssert(len(k.dials) == 0, "no connection is made in the clear")
	vpAssert((dials > 0) == (bad == 0), "a connection is tried exactly if TLS can be configured")
	vpReach("end")
}
