package engine

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"time"

	mint "github.com/bifurcation/mint"
)

func init() {
	register("C23",
		Scenario{"streams", 10, func(s *Sim) { streams(s, false) }},
		Scenario{"streams-broken", 4, func(s *Sim) { streams(s, true) }},
		Scenario{"streams-spill", 3, spill},
		Scenario{"tap", 6, func(s *Sim) { taps(s, false) }},
		Scenario{"tap-broken", 5, func(s *Sim) { taps(s, true) }},
	)
}

// keyed is one key a layer was given.
type keyed struct {
	epoch   mint.Epoch
	factory mint.AEADFactory
	keys    map[string][]byte
}

// layerLog is what mint told one layer.
type layerLog struct {
	s     *Sim
	name  string
	dir   mint.Direction
	keyed []keyed
	epoch mint.Epoch
	busy  string
	calls int
	// the fault
	failOn  string
	failAt  int
	failErr error
	failed  bool
	failing func()
}

var errLayer = errors.New("the record layer failed")

// enter judges that one thread at a time uses the layer for what is not mere
// asking, and decides whether the call fails.
func (l *layerLog) enter(what string) error {
	if l.busy != "" {
		l.s.Fail("layer-entered-twice", "%s: %s is called while %s has not returned", l.name, what, l.busy)
	}
	l.busy = what
	l.s.K.Yield(what)
	if what == l.failOn {
		l.calls++
		if l.calls == l.failAt {
			l.failed = true
			l.s.K.Fault("layer-" + what)
			l.s.K.Logf("%s fails at %s", l.name, what)
			if l.failing != nil {
				l.failing()
			}
			return l.failErr
		}
	}
	return nil
}

func (l *layerLog) leave() { l.busy = "" }

func (l *layerLog) rekey(e mint.Epoch, f mint.AEADFactory, ks *mint.KeySet) {
	l.s.K.Logf("%s rekey %d", l.name, e)
	if e <= l.epoch {
		l.s.Fail("layer-epoch-order", "%s goes from epoch %d to epoch %d", l.name, l.epoch, e)
	}
	if ks == nil || len(ks.Keys) == 0 || f == nil {
		l.s.Fail("layer-no-keys", "%s gets no keys for epoch %d", l.name, e)
		return
	}
	k := keyed{e, f, map[string][]byte{}}
	for n, b := range ks.Keys {
		k.keys[n] = append([]byte{}, b...)
	}
	l.keyed = append(l.keyed, k)
	l.epoch = e
}

func (l *layerLog) at(e mint.Epoch) *keyed {
	for i := range l.keyed {
		if l.keyed[i].epoch == e {
			return &l.keyed[i]
		}
	}
	return nil
}

// pair judges the keys that the two ends of one direction were given.
func (s *Sim) pair(out, in *layerLog) bool {
	n := 0
	for _, k := range out.keyed {
		o := in.at(k.epoch)
		if o == nil {
			continue
		}
		n++
		if len(k.keys) != len(o.keys) {
			s.Fail("layer-keys-differ", "%s and %s get different sets of keys for epoch %d", out.name, in.name, k.epoch)
			return false
		}
		for w, b := range k.keys {
			if !bytes.Equal(b, o.keys[w]) {
				s.Fail("layer-keys-differ", "%s and %s get different values of %q for epoch %d", out.name, in.name, w, k.epoch)
				return false
			}
		}
		a, err1 := k.factory(k.keys["key"])
		b, err2 := o.factory(o.keys["key"])
		if err1 != nil || err2 != nil || a.NonceSize() != len(k.keys["iv"]) {
			s.Fail("layer-cipher", "%s, epoch %d: the cipher does not go with the keys: %v, %v", out.name, k.epoch, err1, err2)
			return false
		}
		box := a.Seal(nil, k.keys["iv"], []byte("hello"), nil)
		if m, err := b.Open(nil, o.keys["iv"], box, nil); err != nil || string(m) != "hello" {
			s.Fail("layer-cipher", "%s, epoch %d: what one end protects the other cannot read: %v", out.name, k.epoch, err)
			return false
		}
	}
	return true
}

// distinct judges that no key serves two purposes.
func (s *Sim) distinct(ls ...*layerLog) bool {
	seen := map[string]string{}
	for _, l := range ls {
		for _, k := range l.keyed {
			var names []string
			for w := range k.keys {
				names = append(names, w)
			}
			sort.Strings(names)
			for _, w := range names {
				id := fmt.Sprintf("%s epoch %d %s", l.name, k.epoch, w)
				if o, ok := seen[string(k.keys[w])]; ok {
					s.Fail("layer-keys-shared", "%s is also %s", id, o)
					return false
				}
				seen[string(k.keys[w])] = id
			}
		}
	}
	return true
}

// tap is mint's own record layer, watched.
type tap struct {
	*mint.DefaultRecordLayer
	*layerLog
}

func (t *tap) Lock()             { t.DefaultRecordLayer.Lock() }
func (t *tap) Unlock()           { t.DefaultRecordLayer.Unlock() }
func (t *tap) Epoch() mint.Epoch { return t.DefaultRecordLayer.Epoch() }

func (t *tap) Rekey(e mint.Epoch, f mint.AEADFactory, ks *mint.KeySet) error {
	defer t.leave()
	if err := t.enter("rekey"); err != nil {
		return err
	}
	t.rekey(e, f, ks)
	return t.DefaultRecordLayer.Rekey(e, f, ks)
}

func (t *tap) ResetClear(seq uint64) {
	defer t.leave()
	t.enter("reset")
	t.epoch = mint.EpochClear
	t.DefaultRecordLayer.ResetClear(seq)
}

func (t *tap) WriteRecord(pt *mint.TLSPlaintext) error {
	defer t.leave()
	if err := t.enter("write"); err != nil {
		return err
	}
	return t.DefaultRecordLayer.WriteRecord(pt)
}

func (t *tap) ReadRecord() (*mint.TLSPlaintext, error) {
	defer t.leave()
	if err := t.enter("read"); err != nil {
		return nil, err
	}
	return t.DefaultRecordLayer.ReadRecord()
}

func (t *tap) PeekRecordType(block bool) (mint.RecordType, error) {
	defer t.leave()
	if err := t.enter("peek"); err != nil {
		return 0, err
	}
	return t.DefaultRecordLayer.PeekRecordType(block)
}

type tapFactory struct {
	s       *Sim
	name    string
	in, out *tap
}

func (f *tapFactory) NewLayer(c io.ReadWriter, d mint.Direction) mint.RecordLayer {
	t := &tap{mint.NewRecordLayerTLS(c, d), &layerLog{s: f.s, dir: d}}
	if d == mint.DirectionRead {
		t.name, f.in = f.name+" in", t
	} else {
		t.name, f.out = f.name+" out", t
	}
	return t
}

// breakOne makes one layer fail at one call.
func (s *Sim) breakOne(logs []*layerLog) *layerLog {
	l := logs[s.Fault(len(logs))]
	l.failOn = []string{"rekey", "write"}[s.Fault(2)]
	if l.dir == mint.DirectionRead {
		l.failOn = []string{"rekey", "read", "peek"}[s.FaultW(3, 4, 1)]
	}
	l.failAt = 1 + s.Fault(4)
	if s.FaultP(1, 4) {
		l.failAt += s.Fault(12)
	}
	l.failErr = []error{errLayer, io.ErrUnexpectedEOF, &net.OpError{Op: "write", Net: "sim", Err: errLayer}}[s.Fault(3)]
	return l
}

// judgeBroken judges an endpoint whose layer failed.
func (s *Sim) judgeBroken(l *layerLog, p *Peer, wasDone bool) {
	if !l.failed || s.Failed() {
		return
	}
	s.NonTriv = true
	if wasDone {
		s.K.Probe("broken after completion")
		return
	}
	s.K.Probe("broken during the handshake: " + l.failOn)
	if p.Done {
		s.Fail("layer-failure-ignored", "%s completed although its record layer failed at %s", p.Name, l.failOn)
		return
	}
	if !p.HsRet {
		s.Fail("layer-failure-hidden", "%s never reports that its record layer failed at %s; %s", p.Name, l.failOn, s.K.Where())
		return
	}
}

func taps(s *Sim, broken bool) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Resume: 20, Early: 60, Auth: 30, NB: 50, Tickets: 50, Cookie: 25, BigCerts: s.CfgP(1, 4), Slow: s.CfgP(1, 8)})
	cl, sv := &tapFactory{s: s, name: "client"}, &tapFactory{s: s, name: "server"}
	cf.C.RecordLayer, cf.S.RecordLayer = cl, sv
	x := s.NewSession("", 1, cf, s.LinkPol(), Judge{Stream: !broken || !cf.E.EarlyOffer, Hs: !broken, View: true, KU: !broken})
	x.Quiet = broken
	g := AppGen{MaxOps: 4, KU: 30, Sleep: time.Second, Big: s.CfgP(1, 4)}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(3000)
	}
	x.Start()
	if cl.in == nil || cl.out == nil || sv.in == nil || sv.out == nil {
		s.Fail("layer-not-used", "the configured record layer is not asked for both directions")
		return
	}
	logs := []*layerLog{cl.in.layerLog, cl.out.layerLog, sv.in.layerLog, sv.out.layerLog}
	var l *layerLog
	var p *Peer
	wasDone := false
	if broken {
		l = s.breakOne(logs)
		p = x.C
		if l == logs[2] || l == logs[3] {
			p = x.S
		}
		// a server hands out tickets once it is connected, in the same call
		// and Write reports what goes wrong with early data
		l.failing = func() { wasDone = p.Done || p.Connected() || p.InWrite }
	}
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	x.Finish()
	if s.Failed() || !s.pair(logs[1], logs[2]) || !s.pair(logs[3], logs[0]) || !s.distinct(logs[1], logs[3]) {
		return
	}
	if broken {
		s.judgeBroken(l, p, wasDone)
		return
	}
	if x.C.Done && x.S.Done {
		for i, w := range []*layerLog{logs[1], logs[3]} {
			r := logs[2-2*i]
			if w.epoch != r.epoch {
				s.Fail("layer-epoch-differs", "%s is at epoch %d, %s at %d", w.name, w.epoch, r.name, r.epoch)
				return
			}
		}
	}
	s.NonTriv = x.C.Done && x.S.Done
}

// cryptoStream is one direction of the handshake streams of a QUIC connection: one
// ordered stream per epoch, each cut into frames that arrive in any order.
type cryptoStream struct {
	s    *Sim
	sent map[mint.Epoch][]byte
	have map[mint.Epoch]map[int][]byte // by offset
	got  map[mint.Epoch]int            // handed to the reader
	pol  *LinkPolicy
	done bool // the writing end is gone

	spill   int // so many bytes of the handshake epoch go out in the one before
	spilled int
	last    mint.Epoch // before the handshake epoch

	sentOnce int // where the next frame goes on, once it was sent
}

func (c *cryptoStream) send(e mint.Epoch, b []byte) {
	if e < mint.EpochHandshakeData {
		c.last = e
	}
	if e == mint.EpochHandshakeData && c.spilled < c.spill {
		n := min(len(b), c.spill-c.spilled)
		c.spilled += n
		c.s.K.Fault("bytes-in-earlier-epoch")
		c.send(c.last, b[:n])
		b = b[n:]
	}
	off := len(c.sent[e])
	c.sent[e] = append(c.sent[e], b...)
	for len(b) > 0 {
		n := len(b)
		if c.s.C.Prob("net", 1, 2) {
			n = 1 + c.s.C.Intn("net", len(b))
		}
		frame, at := append([]byte{}, b[:n]...), off
		b, off = b[n:], off+n
		for again := true; again; again = c.s.C.Prob("net", 1, 10) {
			d := time.Duration(0)
			if c.pol.MaxLat > 0 {
				d = time.Duration(c.s.C.Intn("net", int(c.pol.MaxLat)))
				c.s.K.Fault("frame-delayed")
			}
			if c.sentOnce == off {
				c.s.K.Fault("frame-repeated")
			}
			c.sentOnce = off
			c.s.K.At(d, "frame", func() {
				if c.have[e] == nil {
					c.have[e] = map[int][]byte{}
				}
				if len(c.have[e][at]) < len(frame) {
					c.have[e][at] = frame
				}
			})
		}
	}
}

// ready returns what can be read of an epoch.
func (c *cryptoStream) ready(e mint.Epoch) []byte {
	at := c.got[e]
	var b []byte
	for off, n := at, 0; ; off += n {
		n = 0
		for o, f := range c.have[e] {
			if o <= off && o+len(f) > off {
				b = append(b, f[off-o:]...)
				n = o + len(f) - off
			}
		}
		if n == 0 {
			return b
		}
	}
}

// quicLayer carries one direction of an endpoint's handshake.
type quicLayer struct {
	*layerLog
	end    *quicEnd
	c      *cryptoStream
	locked bool
}

func (l *quicLayer) Lock() {
	for l.locked {
		l.s.K.Block("layer lock", func() bool { return !l.locked })
	}
	l.locked = true
}
func (l *quicLayer) Unlock() {
	if !l.locked {
		l.s.Fail("layer-unlocked", "%s is unlocked twice", l.name)
	}
	l.locked = false
}
func (l *quicLayer) SetVersion(v uint16)       {}
func (l *quicLayer) SetLabel(string)           {}
func (l *quicLayer) DiscardReadKey(mint.Epoch) {}
func (l *quicLayer) Epoch() mint.Epoch         { return l.epoch }
func (l *quicLayer) ResetClear(seq uint64)     { l.enter("reset"); l.epoch = mint.EpochClear; l.leave() }
func (l *quicLayer) Rekey(e mint.Epoch, f mint.AEADFactory, ks *mint.KeySet) error {
	defer l.leave()
	if err := l.enter("rekey"); err != nil {
		return err
	}
	l.rekey(e, f, ks)
	return nil
}

func (l *quicLayer) WriteRecord(pt *mint.TLSPlaintext) error {
	defer l.leave()
	if err := l.enter("write"); err != nil {
		return err
	}
	if l.end.shut {
		return io.ErrClosedPipe
	}
	l.s.K.Logf("%s epoch %d %x", l.name, l.epoch, short(pt.Fragment()))
	l.c.send(l.epoch, pt.Fragment())
	return nil
}

// wait returns when there is something to read.
func (l *quicLayer) wait(block bool) ([]byte, error) {
	ok := func() bool { return l.c.ready(l.epoch) != nil || l.c.done || l.end.shut }
	if block && !l.end.NB {
		l.s.K.Block("layer", ok)
	}
	if b := l.c.ready(l.epoch); b != nil {
		return b, nil
	}
	if ok() {
		return nil, io.EOF
	}
	return nil, mint.AlertWouldBlock
}

func (l *quicLayer) ReadRecord() (*mint.TLSPlaintext, error) {
	defer l.leave()
	if err := l.enter("read"); err != nil {
		return nil, err
	}
	b, err := l.wait(true)
	if err != nil {
		return nil, err
	}
	if l.s.C.Prob("net", 1, 4) {
		b = b[:1+l.s.C.Intn("net", len(b))]
	}
	l.c.got[l.epoch] += len(b)
	return mint.NewTLSPlaintext(mint.RecordTypeHandshake, l.epoch, append([]byte{}, b...)), nil
}

func (l *quicLayer) PeekRecordType(block bool) (mint.RecordType, error) {
	defer l.leave()
	if err := l.enter("peek"); err != nil {
		return 0, err
	}
	if _, err := l.wait(block); err != nil {
		return 0, err
	}
	return mint.RecordTypeHandshake, nil
}

// quicEnd is an endpoint whose record layer is the application's.  It is its
// own transport, which is there for its addresses and to be closed.
type quicEnd struct {
	s       *Sim
	name    string
	NB      bool
	in, out *quicLayer
	shut    bool
}

func (e *quicEnd) NewLayer(c io.ReadWriter, d mint.Direction) mint.RecordLayer {
	if d == mint.DirectionRead {
		return e.in
	}
	return e.out
}

func (e *quicEnd) direct(what string) {
	e.s.Fail("layer-bypassed", "%s calls %s of the transport although a record layer was supplied", e.name, what)
}
func (e *quicEnd) Read(b []byte) (int, error)         { e.direct("Read"); return 0, io.EOF }
func (e *quicEnd) Write(b []byte) (int, error)        { e.direct("Write"); return 0, io.EOF }
func (e *quicEnd) Close() error                       { e.shut, e.out.c.done = true, true; return nil }
func (e *quicEnd) LocalAddr() net.Addr                { return addr(e.name) }
func (e *quicEnd) RemoteAddr() net.Addr               { return addr(e.name + "-peer") }
func (e *quicEnd) SetDeadline(t time.Time) error      { return nil }
func (e *quicEnd) SetReadDeadline(t time.Time) error  { return nil }
func (e *quicEnd) SetWriteDeadline(t time.Time) error { return nil }
func (e *quicEnd) Pending() bool                      { return e.Readable() }
func (e *quicEnd) Readable() bool {
	return e.shut || e.in.c.done || e.in.c.ready(e.in.epoch) != nil
}

// messages splits a handshake stream; rest is what is left.
func messages(b []byte) (ts []byte, rest int) {
	for len(b) >= 4 {
		n := 4 + int(b[1])<<16 + int(b[2])<<8 + int(b[3])
		if n > len(b) {
			break
		}
		ts, b = append(ts, b[0]), b[n:]
	}
	return ts, len(b)
}

// placed judges which messages were sent in which epoch.
func (s *Sim) placed(c2s bool, c *cryptoStream) bool {
	allowed := map[mint.Epoch][]byte{mint.EpochClear: {2}, mint.EpochHandshakeData: {8, 13, 11, 15, 20}, mint.EpochApplicationData: {4, 24}}
	if c2s {
		allowed = map[mint.Epoch][]byte{mint.EpochClear: {1}, mint.EpochEarlyData: {5}, mint.EpochHandshakeData: {11, 15, 20}, mint.EpochApplicationData: {24}}
	}
	for e := mint.Epoch(0); e < 40; e++ {
		b, ok := c.sent[e]
		if !ok {
			continue
		}
		ts, rest := messages(b)
		if rest != 0 {
			s.Fail("layer-epoch-split", "%s, epoch %d: the handshake stream ends inside a message", dir(c2s), e)
			return false
		}
		ok2 := allowed[min(e, mint.EpochApplicationData)]
		for _, t := range ts {
			if bytes.IndexByte(ok2, t) < 0 {
				s.Fail("layer-wrong-epoch", "%s, epoch %d: a message of type %d is sent in this epoch (%v)", dir(c2s), e, t, ts)
				return false
			}
		}
	}
	return true
}

// quicPair makes a client and a server over such streams.
func (s *Sim) quicPair(cf *Conf, pol *LinkPolicy) (*Session, []*cryptoStream, []*layerLog) {
	mk := func() *cryptoStream {
		return &cryptoStream{s: s, pol: pol, sentOnce: -1, sent: map[mint.Epoch][]byte{}, have: map[mint.Epoch]map[int][]byte{}, got: map[mint.Epoch]int{}}
	}
	c2s, s2c := mk(), mk()
	end := func(name string, nb bool, out, in *cryptoStream) *quicEnd {
		e := &quicEnd{s: s, name: name, NB: nb}
		e.out = &quicLayer{layerLog: &layerLog{s: s, name: name + " out", dir: mint.DirectionWrite}, end: e, c: out}
		e.in = &quicLayer{layerLog: &layerLog{s: s, name: name + " in", dir: mint.DirectionRead}, end: e, c: in}
		return e
	}
	ce, se := end("client", cf.C.NonBlocking, c2s, s2c), end("server", cf.S.NonBlocking, s2c, c2s)
	cf.C.RecordLayer, cf.S.RecordLayer = ce, se
	x := &Session{s: s, cf: cf, J: Judge{View: true}, NoApp: true}
	x.C = NewPeer(s, "client", cf.C, ce, true)
	x.S = NewPeer(s, "server", cf.S, se, false)
	x.C.other, x.S.other = x.S, x.C
	logs := []*layerLog{ce.in.layerLog, ce.out.layerLog, se.in.layerLog, se.out.layerLog}
	return x, []*cryptoStream{c2s, s2c}, logs
}

// streams runs two endpoints the way a QUIC stack does.
func streams(s *Sim, broken bool) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Resume: 20, Early: 60, Auth: 30, NB: 50, Tickets: 60, Cookie: 25, BigCerts: s.CfgP(1, 4), Slow: s.CfgP(1, 8)})
	x, out, logs := s.quicPair(cf, s.LinkPol())
	x.J.Hs = !broken
	var l *layerLog
	var p *Peer
	wasDone := false
	if broken {
		l = s.breakOne(logs)
		p = x.C
		if l == logs[2] || l == logs[3] {
			p = x.S
		}
		l.failing = func() { wasDone = p.Done || p.Connected() }
	}
	kus := 0
	for _, q := range []*Peer{x.C, x.S} {
		q := q
		n := 0
		if s.CfgP(1, 3) {
			n = 1 + s.Op(3)
		}
		q.Go("main", func() {
			q.Handshake()
			if !q.Done {
				q.Tr.Close()
				return
			}
			q.Go("updates", func() {
				for ; n > 0; n-- {
					s.K.Sleep(s.Dur("op", time.Second))
					if err := q.Conn.SendKeyUpdate(s.OpP(1, 2)); err != nil {
						if !broken {
							s.Fail("keyupdate-failed", "%s SendKeyUpdate: %v", q.Name, err)
						}
						return
					}
					kus++
				}
			})
			m, err := q.Read(make([]byte, 100), nil)
			s.K.Logf("%s Read -> %d, %v", q.Name, m, err)
			if m != 0 || err == nil {
				s.Fail("stream-invented", "%s reads %d bytes, %v, from a peer that wrote none", q.Name, m, err)
			}
			q.ReadErr = err
		})
	}
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	x.Finish()
	if s.Failed() || !s.pair(logs[1], logs[2]) || !s.pair(logs[3], logs[0]) || !s.distinct(logs[1], logs[3]) {
		return
	}
	if broken {
		s.judgeBroken(l, p, wasDone)
		if s.Failed() || wasDone || !l.failed {
			return
		}
		// what failed has failed
		for i := 0; i < 2; i++ {
			q := p
			t := q.Go("again", func() {
				if a := q.Conn.Handshake(); a == mint.AlertNoAlert && q.Connected() {
					s.Fail("layer-failure-forgotten", "%s completes although its record layer failed at %s", q.Name, l.failOn)
				}
			})
			s.K.Run(t.Finished)
			if !t.Finished() && !s.Failed() {
				s.Fail("layer-failure-hidden", "%s: Handshake does not return again: %s", q.Name, s.K.Where())
			}
		}
		return
	}
	if !x.C.Done || !x.S.Done {
		return
	}
	for i, q := range []*Peer{x.C, x.S} {
		if q.ReadErr != nil {
			s.Fail("read-error", "%s Read failed with %v although nothing ended", q.Name, q.ReadErr)
			return
		}
		c := out[i]
		if !s.placed(i == 0, c) {
			return
		}
		for e, b := range c.sent {
			if c.got[e] != len(b) {
				s.Fail("layer-left-over", "%s: %d of %d bytes of epoch %d were read", dir(i == 0), c.got[e], len(b), e)
				return
			}
		}
		if w, r := logs[1+2*i], logs[2-2*i]; w.epoch != r.epoch {
			s.Fail("layer-epoch-differs", "%s is at epoch %d, %s at %d", w.name, w.epoch, r.name, r.epoch)
			return
		}
	}
	if cf.S.SendSessionTickets && len(cf.CStore.Puts) != 1 {
		s.Fail("ticket-count", "the server issued a ticket, the client stored %d", len(cf.CStore.Puts))
		return
	}
	if kus > 0 {
		s.K.Probe("keyupdate")
	}
	s.NonTriv = true
	x.C.Tr.Close()
	x.S.Tr.Close()
	s.K.Run(nil)
	if s.CheckPanics() {
		return
	}
	for _, q := range []*Peer{x.C, x.S} {
		if q.ReadErr == nil {
			s.Fail("read-stuck", "%s: Read does not return after the connection closed; %s", q.Name, s.K.Where())
			return
		}
	}
}

// spill sends the first bytes of an end's protected messages in the epoch
// before, whose keys the other end must not mix with those of the next.
func spill(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Resume: 20, Early: 60, Auth: 30, NB: 50, Cookie: 25})
	s2c := s.CfgP(2, 3)
	x, out, logs := s.quicPair(cf, s.LinkPol())
	c, p := out[0], x.S
	if s2c {
		c, p = out[1], x.C
	}
	c.spill = []int{1 + s.Fault(5), 1 + s.Fault(40), 1 + s.Fault(3000)}[s.FaultW(3, 2, 1)]
	for _, q := range []*Peer{x.C, x.S} {
		q := q
		q.Go("main", func() {
			q.Handshake()
			if !q.Done {
				q.Tr.Close()
			}
		})
	}
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() {
		return
	}
	if c.spilled > 0 && p.Done {
		s.Fail("layer-epochs-mixed", "%s completed although %d bytes of the messages of epoch 2 were sent in epoch %d", p.Name, c.spilled, c.last)
		return
	}
	s.NonTriv = c.spilled > 0 && logs[0].epoch+logs[2].epoch > 0
}
