package ref

import (
	"bytes"
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/x509"
	"errors"
	"io"
	"net"
)

// PSK is a pre-shared key or a resumption ticket.
type PSK struct {
	ID, Key    []byte
	Suite      int
	Resumption bool
	Obfuscated uint32 // what to send as the ticket age
	ALPN       string
}

// Ticket is what a NewSessionTicket message carried.
type Ticket struct {
	Lifetime, AgeAdd uint32
	Nonce, ID        []byte
	Exts             Exts
	Key              []byte // the resumption key it stands for
	Suite            int
	ALPN             string
	MaxEarly         uint32
}

// Result is what an endpoint believes about a completed handshake.
type Result struct {
	Suite      int
	Group      int
	ALPN       string
	PSK        int // index, -1: none
	Early      bool
	EarlyData  []byte
	PeerCerts  []*x509.Certificate
	SNI        string
	Retried    bool
	PeerHello  *ClientHello
	ServerExts Exts
}

// Records says how an endpoint packs its bytes into records.
type Records struct {
	Frag func(n int) int // size of the next handshake fragment
	Pad  func() int
	CCS  bool
}

// Conn is one endpoint.
type Conn struct {
	rw     net.Conn
	Client bool
	in     *keys
	out    *keys
	raw    []byte
	hs     []byte
	app    []byte
	pend   []byte
	tr     []byte
	early  *keys // keys of rejected early data are never known; nil
	skip   bool  // discard records that do not open (rejected early data)
	skipHS bool  // discard protected records while waiting for a second hello
	hsDone bool

	Rec      Records
	Hook     func(c *Conn, name string, msg []byte) [][]byte
	HookTr   bool // the transcript follows what was really sent
	OnAlert  func(level, desc int)
	Res      Result
	Done     bool
	EOF      bool
	Tickets  []Ticket
	KUsRecv  int
	KUReq    int // requested updates received
	KUsSent  int
	Answer   bool // answer requested key updates (default on)
	InSeq    []string
	exporter []byte
	NSTExts  Exts // more extensions of tickets
	resume   []byte
	master   []byte
	suite    int

	CloseNotify bool
	SentHS      []byte   // all handshake bytes sent
	HSAt        int      // how much of it before the client's handshake keys
	GotMsgs     [][]byte // all handshake messages received
	MyShare     []byte   // the key_share extension of the server's hello
	PeerShare   []byte
	DH          []byte // the agreed secret
	Sch         *sched
	SentCert    []byte // the Certificate and CertificateVerify messages as sent
	SentCV      []byte
	GotCert     []byte
	GotCV       []byte
}

func New(rw net.Conn, client bool) *Conn {
	return &Conn{rw: rw, Client: client, Answer: true, Res: Result{PSK: -1}}
}

func (c *Conn) h() crypto.Hash { return suiteHash(c.suite) }

// SendRecord writes one record under the current keys.
func (c *Conn) SendRecord(t int, b []byte) error {
	pad := 0
	if c.Rec.Pad != nil && c.out != nil {
		pad = c.Rec.Pad()
		if len(b)+1+pad > 1<<14+1 {
			pad = 1<<14 - len(b)
		}
	}
	if pad < 0 {
		pad = 0
	}
	return c.SendPadded(t, b, pad)
}

func (c *Conn) SendPadded(t int, b []byte, pad int) error {
	if t == RTHandshake {
		c.SentHS = append(c.SentHS, b...)
	}
	if c.out == nil {
		ver := 0x0303
		if c.Client && len(c.tr) == 0 {
			ver = 0x0301
		}
		return c.SendRaw(cat([]byte{byte(t)}, u16(ver), V16(b)))
	}
	p := cat(b, []byte{byte(t)}, make([]byte, pad))
	return c.SendInner(p)
}

// SendInner protects an inner plaintext exactly as given.
func (c *Conn) SendInner(p []byte) error {
	k := c.out
	hdr := cat([]byte{RTApp, 3, 3}, u16(len(p)+16))
	ct := k.aead.Seal(nil, k.nonce(), p, hdr)
	k.seq++
	return c.SendRaw(cat(hdr, ct))
}

func (c *Conn) SendRaw(b []byte) error {
	_, err := c.rw.Write(b)
	return err
}

func (c *Conn) SendAlert(level, desc int) error {
	return c.SendRecord(RTAlert, []byte{byte(level), byte(desc)})
}

// Queue adds a handshake message to the flight.
func (c *Conn) Queue(name string, msg []byte) {
	out := [][]byte{msg}
	if c.Hook != nil {
		out = c.Hook(c, name, msg)
	}
	if !c.HookTr {
		c.tr = append(c.tr, msg...)
	}
	for _, m := range out {
		if c.HookTr {
			c.tr = append(c.tr, m...)
		}
		c.pend = append(c.pend, m...)
	}
}

// Flush sends what is queued.
func (c *Conn) Flush() error {
	for len(c.pend) > 0 {
		n := len(c.pend)
		if c.Rec.Frag != nil {
			n = c.Rec.Frag(n)
		}
		if n > 1<<14 {
			n = 1 << 14
		}
		if n < 1 {
			n = 1
		}
		if n > len(c.pend) {
			n = len(c.pend)
		}
		p := c.pend[:n]
		c.pend = c.pend[n:]
		if err := c.SendRecord(RTHandshake, p); err != nil {
			return err
		}
	}
	c.pend = nil
	return nil
}

func (c *Conn) fill(n int) error {
	buf := make([]byte, 8192)
	for len(c.raw) < n {
		m, err := c.rw.Read(buf)
		c.raw = append(c.raw, buf[:m]...)
		if err != nil {
			return err
		}
		if m == 0 {
			return io.ErrNoProgress
		}
	}
	return nil
}

// ReadRecord returns the next record's content.
func (c *Conn) ReadRecord() (int, []byte, error) {
	for {
		if err := c.fill(5); err != nil {
			return 0, nil, err
		}
		t, n := int(c.raw[0]), int(c.raw[3])<<8|int(c.raw[4])
		if n > 1<<14+256 || c.in == nil && n > 1<<14 {
			return 0, nil, fail(22, "record of %d bytes", n)
		}
		if err := c.fill(5 + n); err != nil {
			return 0, nil, err
		}
		hdr, body := c.raw[:5], c.raw[5:5+n]
		c.raw = append([]byte{}, c.raw[5+n:]...)
		if t == RTCCS {
			if c.hsDone || n != 1 || body[0] != 1 {
				return 0, nil, fail(AlertUnexpected, "change_cipher_spec")
			}
			continue
		}
		if c.in == nil {
			if c.skipHS && t == RTApp {
				continue
			}
			if t != RTHandshake && t != RTAlert {
				return 0, nil, fail(AlertUnexpected, "clear record type %d", t)
			}
			if n == 0 {
				return 0, nil, fail(AlertUnexpected, "empty record")
			}
			c.skipHS = false
			return t, body, nil
		}
		if t != RTApp {
			return 0, nil, fail(AlertUnexpected, "unprotected record type %d when keys are in place", t)
		}
		p, err := c.in.aead.Open(nil, c.in.nonce(), body, hdr)
		if err != nil {
			if c.skip {
				continue
			}
			return 0, nil, fail(AlertBadMAC, "record does not open (seq %d)", c.in.seq)
		}
		c.skip = false
		c.in.seq++
		if len(p) > 1<<14+1 {
			return 0, nil, fail(22, "inner plaintext of %d bytes", len(p))
		}
		i := len(p) - 1
		for i >= 0 && p[i] == 0 {
			i--
		}
		if i < 0 {
			return 0, nil, fail(AlertUnexpected, "no content type")
		}
		t, p = int(p[i]), p[:i]
		if t != RTApp && (t != RTHandshake && t != RTAlert || len(p) == 0) {
			return 0, nil, fail(AlertUnexpected, "protected record type %d of %d bytes", t, len(p))
		}
		return t, p, nil
	}
}

func (c *Conn) alert(p []byte) error {
	if len(p) != 2 {
		return fail(AlertDecode, "alert of %d bytes", len(p))
	}
	if c.OnAlert != nil {
		c.OnAlert(int(p[0]), int(p[1]))
	}
	if p[1] == AlertClose {
		c.CloseNotify = true
		return io.EOF
	}
	return PeerAlert{int(p[0]), int(p[1])}
}

func (c *Conn) splitMsg() (int, []byte, bool) {
	if len(c.hs) < 4 {
		return 0, nil, false
	}
	n := 4 + int(c.hs[1])<<16 + int(c.hs[2])<<8 + int(c.hs[3])
	if len(c.hs) < n {
		return 0, nil, false
	}
	m := c.hs[:n:n]
	c.hs = c.hs[n:]
	c.GotMsgs = append(c.GotMsgs, m)
	return int(m[0]), m, true
}

// ReadMsg returns the next handshake message, not yet in the transcript.
func (c *Conn) ReadMsg() (int, []byte, error) {
	for {
		if t, m, ok := c.splitMsg(); ok {
			return t, m, nil
		}
		if len(c.hs) >= 4 && (int(c.hs[1])<<16+int(c.hs[2])<<8+int(c.hs[3])) > 1<<18 {
			return 0, nil, fail(AlertIllegal, "huge handshake message")
		}
		t, p, err := c.ReadRecord()
		if err != nil {
			return 0, nil, err
		}
		switch t {
		case RTAlert:
			return 0, nil, c.alert(p)
		case RTHandshake:
			c.hs = append(c.hs, p...)
		default:
			return 0, nil, fail(AlertUnexpected, "application data in the handshake")
		}
	}
}

func (c *Conn) expect(want int) ([]byte, error) {
	t, m, err := c.ReadMsg()
	if err != nil {
		return nil, err
	}
	if t != want {
		return nil, fail(AlertUnexpected, "message %d where %d was due", t, want)
	}
	return m, nil
}

func (c *Conn) boundary() error {
	if len(c.hs) != 0 {
		return fail(AlertUnexpected, "%d handshake bytes across a key change", len(c.hs))
	}
	return nil
}

func (c *Conn) setIn(k *keys) error {
	if err := c.boundary(); err != nil {
		return err
	}
	c.in = k
	return nil
}

func (c *Conn) setOut(k *keys) error {
	if err := c.Flush(); err != nil {
		return err
	}
	c.out = k
	return nil
}

func (c *Conn) finished(secret []byte) []byte {
	h := c.h()
	return hm(h, expandLabel(h, secret, "finished", nil, h.Size()), hsum(h, c.tr))
}

// report ends a failed handshake with the alert it calls for.
func (c *Conn) report(err error) error {
	var e *Err
	if errors.As(err, &e) {
		c.pend = nil
		c.SendAlert(2, e.Alert)
	}
	return err
}

// Export computes an exporter value (RFC 8446, 7.5).
func (c *Conn) Export(label string, ctx []byte, n int) []byte {
	h := c.h()
	s := derive(h, c.exporter, label, nil)
	return expandLabel(h, s, "exporter", hsum(h, ctx), n)
}

// Write sends application data.
func (c *Conn) Write(b []byte) error {
	for {
		n := len(b)
		if n > 1<<14 {
			n = 1 << 14
		}
		if err := c.SendRecord(RTApp, b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(b) == 0 {
			return nil
		}
	}
}

// KeyUpdate updates the sending keys.
func (c *Conn) KeyUpdate(request bool) error {
	r := byte(0)
	if request {
		r = 1
	}
	c.pend = append(c.pend, Msg(HTKeyUpdate, []byte{r})...)
	if err := c.Flush(); err != nil {
		return err
	}
	c.KUsSent++
	c.out = c.out.next()
	return nil
}

// Read deals with one record, unless application data is left over; it
// returns 0 bytes if the record was not application data.
func (c *Conn) Read(b []byte) (int, error) {
	if len(c.app) == 0 {
		if c.EOF {
			return 0, io.EOF
		}
		t, p, err := c.ReadRecord()
		if err != nil {
			return 0, c.report(err)
		}
		switch t {
		case RTApp:
			if len(c.hs) > 0 {
				return 0, c.report(fail(AlertUnexpected, "application data inside a handshake message"))
			}
			c.app = p
		case RTAlert:
			err := c.alert(p)
			if err == io.EOF {
				c.EOF = true
			}
			return 0, err
		case RTHandshake:
			c.hs = append(c.hs, p...)
			for {
				mt, m, ok := c.splitMsg()
				if !ok {
					break
				}
				if err := c.post(mt, m); err != nil {
					return 0, c.report(err)
				}
			}
		}
	}
	n := copy(b, c.app)
	c.app = c.app[n:]
	return n, nil
}

func (c *Conn) post(t int, m []byte) error {
	switch {
	case t == HTKeyUpdate:
		if len(m) != 5 || m[4] > 1 {
			return fail(AlertDecode, "bad key update")
		}
		if err := c.setIn(c.in.next()); err != nil {
			return err
		}
		c.KUsRecv++
		if m[4] == 1 {
			c.KUReq++
			if c.Answer {
				return c.KeyUpdate(false)
			}
		}
		return nil
	case t == HTTicket && c.Client:
		r := &rd{b: m[4:]}
		k := Ticket{Suite: c.suite, ALPN: c.Res.ALPN}
		k.Lifetime, k.AgeAdd = r.u32(), r.u32()
		k.Nonce, k.ID = r.v8(), r.v16()
		ex := r.v16()
		if r.done() != nil || len(k.ID) == 0 {
			return fail(AlertDecode, "bad ticket")
		}
		var err error
		if k.Exts, err = parseExts(ex); err != nil {
			return fail(AlertDecode, "bad ticket extensions")
		}
		if d, ok := k.Exts.Find(ExtEarly); ok {
			if len(d) != 4 {
				return fail(AlertDecode, "bad ticket early data")
			}
			k.MaxEarly = uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3])
		}
		k.Key = expandLabel(c.h(), c.resume, "resumption", k.Nonce, c.h().Size())
		c.Tickets = append(c.Tickets, k)
		return nil
	}
	return fail(AlertUnexpected, "message %d after the handshake", t)
}

// SendTicket issues a ticket and returns it.
func (c *Conn) SendTicket(lifetime, ageAdd uint32, nonce, id []byte, maxEarly int) (Ticket, error) {
	k := Ticket{Suite: c.suite, ALPN: c.Res.ALPN, Lifetime: lifetime, AgeAdd: ageAdd, Nonce: nonce, ID: id}
	var ex Exts
	if maxEarly >= 0 {
		ex = Exts{{ExtEarly, u32(uint32(maxEarly))}}
	}
	ex = append(ex, c.NSTExts...)
	k.Key = expandLabel(c.h(), c.resume, "resumption", nonce, c.h().Size())
	m := Msg(HTTicket, cat(u32(lifetime), u32(ageAdd), V8(nonce), V16(id), ex.Bytes()))
	out := [][]byte{m}
	if c.Hook != nil {
		out = c.Hook(c, "NST", m)
	}
	for _, x := range out {
		c.pend = append(c.pend, x...)
	}
	return k, c.Flush()
}

// Close sends close_notify.
func (c *Conn) Close() error { return c.SendAlert(1, AlertClose) }

// InBuffered reports bytes read from the transport and not yet delivered.
func (c *Conn) InBuffered() int { return len(c.app) }

type sched struct {
	hsC, hsS, apC, apS []byte
	hs                 []byte
}

// secrets runs the key schedule up to the handshake secrets.
func (c *Conn) secrets(psk, dh []byte) *sched {
	h := c.h()
	es := extract(h, nil, psk)
	s := &sched{}
	s.hs = extract(h, derive(h, es, "derived", nil), dh)
	s.hsC = derive(h, s.hs, "c hs traffic", c.tr)
	s.hsS = derive(h, s.hs, "s hs traffic", c.tr)
	c.DH, c.Sch = dh, s
	return s
}

// app runs it to the application secrets; the transcript ends with the
// server's Finished.
func (c *Conn) appSecrets(s *sched) {
	h := c.h()
	c.master = extract(h, derive(h, s.hs, "derived", nil), nil)
	s.apC = derive(h, c.master, "c ap traffic", c.tr)
	s.apS = derive(h, c.master, "s ap traffic", c.tr)
	c.exporter = derive(h, c.master, "exp master", c.tr)
}

// SendAhead sends application data under the application keys before its
// turn; false if there are no keys yet.
func (c *Conn) SendAhead(b []byte) bool {
	if c.Sch == nil || c.suite == 0 {
		return false
	}
	tr, out := c.tr, c.out
	k := c.Sch.apC
	if !c.Client {
		c.tr = cat(c.tr, c.FinNow())
		c.appSecrets(c.Sch)
		c.tr = tr
		k = c.Sch.apS
	}
	if len(k) == 0 {
		return false
	}
	c.out = newKeys(c.suite, k)
	c.SendRecord(RTApp, b)
	c.out = out
	return true
}

func binder(p *PSK, prefix, truncated []byte) []byte {
	h := suiteHash(p.Suite)
	es := extract(h, nil, p.Key)
	l := "ext binder"
	if p.Resumption {
		l = "res binder"
	}
	bk := derive(h, es, l, nil)
	fk := expandLabel(h, bk, "finished", nil, h.Size())
	return hm(h, fk, hsum(h, cat(prefix, truncated)))
}

func earlySecret(p *PSK, hello []byte) []byte {
	h := suiteHash(p.Suite)
	return derive(h, extract(h, nil, p.Key), "c e traffic", hello)
}

func certMsg(context []byte, chain [][]byte) []byte {
	var l []byte
	for _, c := range chain {
		l = cat(l, V24(c), V16(nil))
	}
	return Msg(HTCert, cat(V8(context), V24(l)))
}

func parseCert(m []byte) ([]*x509.Certificate, error) {
	r := &rd{b: m[4:]}
	ctx := r.v8()
	l := r.v24()
	if r.done() != nil || len(ctx) != 0 {
		return nil, fail(AlertDecode, "bad certificate message")
	}
	var out []*x509.Certificate
	q := &rd{b: l}
	for len(q.b) > 0 && !q.bad {
		der, ex := q.v24(), q.v16()
		if q.bad {
			break
		}
		if _, err := parseExts(ex); err != nil {
			return nil, fail(AlertDecode, "bad certificate extensions")
		}
		x, err := x509.ParseCertificate(der)
		if err != nil {
			return nil, fail(AlertBadCert, "certificate: %v", err)
		}
		out = append(out, x)
	}
	if q.bad {
		return nil, fail(AlertDecode, "bad certificate list")
	}
	return out, nil
}

func parseCV(m []byte) (int, []byte, error) {
	r := &rd{b: m[4:]}
	s := r.u16()
	sig := r.v16()
	if r.done() != nil {
		return 0, nil, fail(AlertDecode, "bad certificate verify")
	}
	return s, sig, nil
}

func equal(a, b []byte) bool { return hmac.Equal(a, b) }

func randBytes(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

func has(x []int, v int) bool {
	for _, y := range x {
		if y == v {
			return true
		}
	}
	return false
}

func parseU16s(b []byte) []int {
	var o []int
	for i := 0; i+1 < len(b); i += 2 {
		o = append(o, int(b[i])<<8|int(b[i+1]))
	}
	return o
}

func alpnBytes(p []string) []byte {
	var l []byte
	for _, x := range p {
		l = append(l, V8([]byte(x))...)
	}
	return V16(l)
}

func parseALPN(b []byte) ([]string, error) {
	r := &rd{b: b}
	l := r.v16()
	if r.done() != nil || len(l) == 0 {
		return nil, fail(AlertDecode, "bad ALPN")
	}
	var o []string
	q := &rd{b: l}
	for len(q.b) > 0 && !q.bad {
		x := q.v8()
		if len(x) == 0 {
			q.bad = true
		}
		o = append(o, string(x))
	}
	if q.bad {
		return nil, fail(AlertDecode, "bad ALPN list")
	}
	return o, nil
}

var errNoKey = errors.New("ref: no key")
var _ = bytes.Equal
