package engine

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	mint "github.com/bifurcation/mint"
)

func init() {
	register("C21",
		Scenario{"tls", 6, func(s *Sim) { appExtensions(s, false) }},
		Scenario{"dtls", 4, func(s *Sim) { appExtensions(s, true) }},
	)
}

// appExt is an extension that only the applications know.
type appExt struct {
	typ  mint.ExtensionType
	data []byte
}

func (e *appExt) Type() mint.ExtensionType { return e.typ }
func (e *appExt) Marshal() ([]byte, error) { return e.data, nil }
func (e *appExt) Unmarshal(b []byte) (int, error) {
	e.data = append([]byte{}, b...)
	return len(b), nil
}

var appTypes = []mint.ExtensionType{0xff01, 0xff02, 0xffff, 0x0a0a, 0x1a1a, 0x1234, 21, 13172, 0xfe0d, 999}

// extCall is one call of an extension handler.
type extCall struct {
	send bool
	hs   mint.HandshakeType
	exts []mint.Extension // those of the application, in order
	err  bool
}

// extApp is both applications' extension handlers.
type extApp struct {
	s       *Sim
	types   []mint.ExtensionType
	size    map[string]int // by message and type
	refuse  string         // the call that fails: node role, direction, message
	nth     int
	drop    bool // the server answers nothing
	hrr     bool // the server adds to a retry
	slow    time.Duration
	tooBig  mint.HandshakeType
	calls   map[string][]extCall
	refused map[string]bool
	offered map[string]map[mint.ExtensionType]bool
}

type extEnd struct {
	a      *extApp
	client bool
}

// body is what the application puts in an extension of a message.
func (a *extApp) body(conn string, hs mint.HandshakeType, n int, t mint.ExtensionType) []byte {
	sz, ok := a.size[fmt.Sprint(hs, n, t)]
	if !ok {
		return nil
	}
	id := uint32(hash64([]byte(fmt.Sprint(conn, hs, n, t))))
	return append([]byte{}, Pattern(id, 0, sz)...)
}

func (e extEnd) enter(send bool, hs mint.HandshakeType) (string, int, error) {
	a, nd := e.a, node()
	if a.slow > 0 && a.s.OpP(1, 2) {
		a.s.K.Sleep(a.s.Dur("op", a.slow))
	}
	n := 0
	for _, c := range a.calls[nd] {
		if c.send == send && c.hs == hs {
			n++
		}
	}
	if a.refuse == fmt.Sprint(e.client, send, hs) && n == a.nth {
		a.s.K.Fault("handler-error")
		a.refused[nd] = true
		a.calls[nd] = append(a.calls[nd], extCall{send: send, hs: hs, err: true})
		return nd, n, errors.New("the application refuses")
	}
	return nd, n, nil
}

// ours picks the application's extensions out of a message's.
func (a *extApp) ours(el *mint.ExtensionList) []mint.Extension {
	var out []mint.Extension
	for _, x := range *el {
		for _, t := range a.types {
			if x.ExtensionType == t {
				out = append(out, mint.Extension{ExtensionType: t, ExtensionData: append([]byte{}, x.ExtensionData...)})
			}
		}
	}
	return out
}

func (e extEnd) Send(hs mint.HandshakeType, el *mint.ExtensionList) error {
	a := e.a
	nd, n, err := e.enter(true, hs)
	if err != nil {
		return err
	}
	if want := hs == mint.HandshakeTypeClientHello; want != e.client {
		a.s.Fail("wrong-message", "%s asks its application what to send in a message (%v) that it does not send", nd, hs)
		return nil
	}
	if before := a.ours(el); len(before) > 0 {
		a.s.Fail("left-over", "%s: a new message (%v) has the application's extensions before the application added them", nd, hs)
		return nil
	}
	if hs == mint.HandshakeTypeHelloRetryRequest {
		n = 0 // the same retry each time it is asked for
	}
	for _, t := range a.types {
		b := a.body(nd, hs, n, t)
		if b == nil || !e.client && (a.drop || !a.offered[nd][t]) {
			continue
		}
		if err := el.Add(&appExt{t, b}); err != nil {
			a.s.Fail("add-failed", "adding an extension of %d bytes to %v fails: %v", len(b), hs, err)
			return err
		}
	}
	a.calls[nd] = append(a.calls[nd], extCall{send: true, hs: hs, exts: a.ours(el)})
	return nil
}

func (e extEnd) Receive(hs mint.HandshakeType, el *mint.ExtensionList) error {
	a := e.a
	nd, _, err := e.enter(false, hs)
	if err != nil {
		return err
	}
	if want := hs == mint.HandshakeTypeClientHello; want == e.client {
		a.s.Fail("wrong-message", "%s shows its application a message (%v) that it cannot receive", nd, hs)
		return nil
	}
	got := a.ours(el)
	for _, x := range got {
		y := appExt{typ: x.ExtensionType}
		if ok, err := el.Find(&y); !ok || err != nil || !bytes.Equal(y.data, x.ExtensionData) {
			a.s.Fail("find-failed", "the application cannot find its extension %d of %v: %v %v", x.ExtensionType, hs, ok, err)
			return nil
		}
	}
	if hs == mint.HandshakeTypeClientHello {
		a.offered[nd] = map[mint.ExtensionType]bool{}
		for i, x := range *el {
			if x.ExtensionType == mint.ExtensionTypePreSharedKey && i != len(*el)-1 {
				a.s.Fail("psk-not-last", "the ClientHello's pre_shared_key extension is not its last")
			}
		}
		for _, x := range got {
			a.offered[nd][x.ExtensionType] = true
		}
	}
	if hs == mint.HandshakeTypeHelloRetryRequest {
		// an application must take its own away
		var rest mint.ExtensionList
	next:
		for _, x := range *el {
			for _, t := range a.types {
				if x.ExtensionType == t {
					continue next
				}
			}
			rest = append(rest, x)
		}
		*el = rest
	}
	a.calls[nd] = append(a.calls[nd], extCall{hs: hs, exts: got})
	return nil
}

func (s *Sim) newExtApp(cf *Conf, dtls bool) *extApp {
	a := &extApp{s: s, size: map[string]int{}, calls: map[string][]extCall{}, refused: map[string]bool{}, offered: map[string]map[mint.ExtensionType]bool{}}
	ts := shuffle(s, appTypes)
	a.types = ts[:1+s.CfgW(3, 2, 1, 1)]
	sz := func() int {
		switch s.CfgW(2, 4, 3, 2, 1) {
		case 0:
			return 0
		case 1:
			return 1 + s.Cfg(40)
		case 2:
			return 200 + s.Cfg(1200)
		case 3:
			return 1000 + s.Cfg(2000)
		}
		if dtls {
			return 1000 + s.Cfg(6000)
		}
		return 5000 + s.Cfg(11500)
	}
	for _, t := range a.types {
		if s.CfgP(5, 6) {
			a.size[fmt.Sprint(mint.HandshakeTypeClientHello, 0, t)] = sz()
			if s.CfgP(5, 6) {
				a.size[fmt.Sprint(mint.HandshakeTypeClientHello, 1, t)] = sz()
			}
		}
		if s.CfgP(2, 3) {
			a.size[fmt.Sprint(mint.HandshakeTypeServerHello, 0, t)] = sz()
		}
		if s.CfgP(2, 3) {
			a.size[fmt.Sprint(mint.HandshakeTypeEncryptedExtensions, 0, t)] = sz()
		}
	}
	a.hrr = s.CfgP(1, 2)
	if a.hrr {
		for _, t := range a.types {
			// whoever forgot the first hello must write the same again
			if _, ok := a.size[fmt.Sprint(mint.HandshakeTypeClientHello, 0, t)]; !ok {
				continue
			}
			if _, ok := a.size[fmt.Sprint(mint.HandshakeTypeClientHello, 1, t)]; ok && s.CfgP(2, 3) {
				n := sz()
				if dtls {
					n %= 40 // a retry that is never repeated has to fit in one datagram
				}
				a.size[fmt.Sprint(mint.HandshakeTypeHelloRetryRequest, 0, t)] = n
			}
		}
	}
	a.drop = s.CfgP(1, 8)
	if s.CfgP(1, 6) {
		a.slow = []time.Duration{10 * time.Millisecond, time.Second}[s.CfgW(2, 1)]
	}
	// who has a handler at all
	switch s.CfgW(7, 1) {
	case 0:
		cf.C.ExtensionHandler = extEnd{a, true}
		cf.S.ExtensionHandler = extEnd{a, false}
	case 1:
		cf.C.ExtensionHandler = extEnd{a, true}
	}
	if s.CfgP(1, 5) {
		// one of the calls fails
		hs := []mint.HandshakeType{mint.HandshakeTypeClientHello, mint.HandshakeTypeHelloRetryRequest, mint.HandshakeTypeServerHello, mint.HandshakeTypeEncryptedExtensions}[s.CfgW(3, 1, 2, 2)]
		send := s.CfgP(1, 2)
		a.refuse = fmt.Sprint(send == (hs == mint.HandshakeTypeClientHello), send, hs)
		a.nth = s.CfgW(3, 1)
		if hs != mint.HandshakeTypeClientHello {
			a.nth = 0
		}
		s.Param("refuse %s #%d", a.refuse, a.nth)
	} else if !dtls && s.CfgP(1, 12) {
		// more than the message can hold
		a.tooBig = []mint.HandshakeType{mint.HandshakeTypeClientHello, mint.HandshakeTypeServerHello, mint.HandshakeTypeEncryptedExtensions}[s.Cfg(3)]
		if a.tooBig != mint.HandshakeTypeClientHello {
			a.size[fmt.Sprint(mint.HandshakeTypeClientHello, 0, a.types[0])] = 1
			a.size[fmt.Sprint(mint.HandshakeTypeClientHello, 1, a.types[0])] = 1
			a.drop = false
		}
		for i := 0; i < 2; i++ {
			a.size[fmt.Sprint(a.tooBig, i, a.types[0])] = 65532 + s.Cfg(4)
		}
		s.Param("too big: %v", a.tooBig)
	}
	s.Param("extensions %v sizes %v drop=%v slow=%v server handler=%v", a.types, a.size, a.drop, a.slow, cf.S.ExtensionHandler != nil)
	return a
}

func sameExts(a, b []mint.Extension) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ExtensionType != b[i].ExtensionType || !bytes.Equal(a[i].ExtensionData, b[i].ExtensionData) {
			return false
		}
	}
	return true
}

func describeExts(a []mint.Extension) string {
	s := "["
	for _, x := range a {
		s += fmt.Sprintf("%d:%s ", x.ExtensionType, short(x.ExtensionData))
	}
	return s + "]"
}

// of lists what one end's handler did for one message.
func (a *extApp) of(nd string, send bool, hs mint.HandshakeType) [][]mint.Extension {
	var out [][]mint.Extension
	for _, c := range a.calls[nd] {
		if c.send == send && c.hs == hs && !c.err {
			out = append(out, c.exts)
		}
	}
	return out
}

// judge compares what the two handlers of a connection saw.
func (a *extApp) judge(c, v *Peer, server, both, retry, dtls bool) {
	s := a.s
	for _, m := range []struct {
		hs       mint.HandshakeType
		from, to string
	}{
		{mint.HandshakeTypeClientHello, c.Name, v.Name},
		{mint.HandshakeTypeHelloRetryRequest, v.Name, c.Name},
		{mint.HandshakeTypeServerHello, v.Name, c.Name},
		{mint.HandshakeTypeEncryptedExtensions, v.Name, c.Name},
	} {
		if !server {
			continue
		}
		sent, got := a.of(m.from, true, m.hs), a.of(m.to, false, m.hs)
		if m.hs == mint.HandshakeTypeHelloRetryRequest && len(sent) > 1 {
			sent = sent[:1] // asked for again after the second hello
		}
		if dtls && m.hs == mint.HandshakeTypeClientHello {
			// a server that keeps nothing between hellos may meet one again
			for i := range got {
				known := false
				for _, x := range sent {
					known = known || sameExts(x, got[i])
				}
				if !known {
					s.Fail("extension-changed", "message %v number %d: %s was shown %s, which %s never gave", m.hs, i, m.to, describeExts(got[i]), m.from)
					return
				}
			}
			if both && (len(got) == 0 || !sameExts(got[len(got)-1], sent[len(sent)-1])) {
				s.Fail("not-shown", "both ends completed, but the last hello %s was shown is not the one %s wrote last", m.to, m.from)
				return
			}
			continue
		}
		if len(got) > len(sent) {
			s.Fail("shown-twice", "%s showed its application %d messages of type %v of the %d that %s wrote", m.to, len(got), m.hs, len(sent), m.from)
			return
		}
		for i := range got {
			if !sameExts(sent[i], got[i]) {
				s.Fail("extension-changed", "message %v number %d: the application of %s gave %s, that of %s was shown %s", m.hs, i, m.from, describeExts(sent[i]), m.to, describeExts(got[i]))
				return
			}
		}
		if both {
			n := 1
			if m.hs == mint.HandshakeTypeClientHello && retry {
				n = 2
			}
			if m.hs == mint.HandshakeTypeHelloRetryRequest && !retry {
				n = 0
			}
			if len(got) != n || len(sent) != n {
				s.Fail("not-shown", "both ends completed, but the applications were asked about %d and shown %d messages of type %v (of %d)", len(sent), len(got), m.hs, n)
				return
			}
		}
	}
	if both && !server {
		// only the client has a handler: nothing may come of it
		if g := a.of(c.Name, false, mint.HandshakeTypeEncryptedExtensions); len(g) != 1 || len(g[0]) != 0 {
			s.Fail("not-shown", "the client's application was shown %d EncryptedExtensions", len(g))
		}
	}
}

func appExtensions(s *Sim, dtls bool) {
	s.Sched()
	nb := 50
	if dtls {
		nb = 100
	}
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 50, Resume: 50, Early: 50, Auth: 15, NB: nb, Tickets: 30, Cookie: 40})
	a := s.newExtApp(cf, dtls)
	server := cf.S.ExtensionHandler != nil
	n := 1 + s.CfgW(4, 1, 1)
	if cf.PSK != nil || cf.S.SendSessionTickets {
		n = 1
	}
	fresh := cf.E.Cookie && cf.S.NonBlocking && s.CfgP(1, 2) && (dtls || !cf.E.EarlyOffer)
	if dtls {
		// a hello in several datagrams needs a server that remembers the first
		for i := 0; i < 2; i++ {
			sum := 0
			for _, t := range a.types {
				sum += a.size[fmt.Sprint(mint.HandshakeTypeClientHello, i, t)]
			}
			fresh = fresh && sum < 400
		}
	}
	forget := func(p *Peer) {
		if fresh {
			s.K.Probe("fresh-conn")
			p.Conn = mint.NewConn(p.Tr, p.Cfg, false)
		}
	}
	lossy := dtls && s.CfgP(2, 3)
	if lossy {
		s.FaultEnd = s.Dur("fault", 3*time.Second)
	}
	e := cf.E
	// the outcome, once the run is over
	outcome := func(c, v *Peer) {
		cf.E = e
		for _, p := range []*Peer{c, v} {
			if a.refused[p.Name] {
				cf.E.OK, cf.E.Why = false, "the application of "+p.Name+" refuses an extension"
				if !p.HsRet || p.HsErr == mint.AlertNoAlert || p.HsErr == mint.AlertWouldBlock {
					s.Fail("refusal-ignored", "the extension handler of %s returned an error, but its handshake %s", p.Name, p.status())
				}
			}
		}
		for hs, p := range map[mint.HandshakeType]*Peer{mint.HandshakeTypeClientHello: c, mint.HandshakeTypeServerHello: v, mint.HandshakeTypeEncryptedExtensions: v} {
			if a.tooBig == hs && len(a.of(p.Name, true, hs)) > 0 {
				cf.E.OK, cf.E.Why = false, "the extensions do not fit in the message"
			}
		}
	}
	var done []func()
	for i := 0; i < n; i++ {
		name := ""
		if n > 1 {
			name = fmt.Sprintf("%d.", i)
		}
		if dtls {
			x := s.NewDSession(name, uint32(i+1), cf, s.DPol(lossy))
			x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(2, 0), s.dgramPlan(2, 0)
			if cf.E.EarlyOffer {
				x.Early = s.earlyWrites(600)
			}
			if !fresh && !cf.E.Cookie && s.CfgP(1, 4) {
				s.smallMTU(x)
			}
			x.HsBound += 5 * a.slow
			x.Start()
			x.S.OnRetry = forget
			done = append(done, func() {
				outcome(x.C, x.S)
				x.FinishHs()
				if !s.Failed() {
					a.judge(x.C, x.S, server, x.C.Done && x.S.Done, e.Cookie, dtls)
				}
				s.NonTriv = s.NonTriv || x.C.Done && x.S.Done || !cf.E.OK
			})
			continue
		}
		x := s.NewSession(name, uint32(i+1), cf, s.quickPol(), Judge{Stream: true, Hs: true, View: true})
		x.CPlan, x.SPlan = s.GenApp(AppGen{MaxOps: 2, Sleep: time.Second}), s.GenApp(AppGen{MaxOps: 2, Sleep: time.Second})
		if cf.E.EarlyOffer {
			x.Early = s.earlyWrites(3000)
		}
		x.Start()
		x.S.OnRetry = forget
		done = append(done, func() {
			outcome(x.C, x.S)
			x.Finish()
			if !s.Failed() {
				a.judge(x.C, x.S, server, x.C.Done && x.S.Done, e.Cookie, dtls)
			}
			s.NonTriv = s.NonTriv || x.C.Done && x.S.Done || !cf.E.OK
		})
	}
	s.K.Run(s.Failed)
	for _, f := range done {
		f()
		if s.Failed() {
			return
		}
	}
}
