package engine

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"

	mint "github.com/bifurcation/mint"
)

// Op is one application operation of a writer.
type Op struct {
	Kind string // write, keyupdate, sleep
	N    int
	Req  bool
	D    time.Duration
}

// AppPlan is what an application does after the handshake.
type AppPlan struct {
	Ops    []Op
	ReadSz int  // 0: random
	Single bool // one thread polls and writes (non-blocking only)
}

// AppGen says what plans may contain.
type AppGen struct {
	MaxOps   int
	KU       int  // per cent of operations that update keys
	Big      bool // large writes, around the record limit
	Sleep    time.Duration
	NoWrites bool
}

func (s *Sim) writeSize(g AppGen) int {
	if !g.Big {
		switch s.OpW(3, 2, 1) {
		case 1:
			return 1 + s.Op(1400)
		case 2:
			return 1 + s.Op(5000)
		}
		return 1 + s.Op(16)
	}
	switch s.OpW(4, 3, 1, 3, 3, 2) {
	case 1:
		return 1 + s.Op(1400)
	case 2:
		return 0
	case 3:
		return 16384 - 40 + s.Op(80)
	case 4:
		return 1 + s.Op(20000)
	case 5:
		return 32768 - 60 + s.Op(30000)
	}
	return 1 + s.Op(16)
}

func (s *Sim) GenApp(g AppGen) AppPlan {
	p := AppPlan{}
	n := 1 + s.Op(g.MaxOps)
	for i := 0; i < n; i++ {
		switch {
		case g.KU > 0 && s.OpP(g.KU, 100):
			p.Ops = append(p.Ops, Op{Kind: "keyupdate", Req: s.OpP(1, 2)})
		case g.Sleep > 0 && s.OpP(1, 4):
			p.Ops = append(p.Ops, Op{Kind: "sleep", D: s.Dur("op", g.Sleep)})
		case g.NoWrites:
		default:
			p.Ops = append(p.Ops, Op{Kind: "write", N: s.writeSize(g)})
		}
	}
	p.ReadSz = []int{70000, 0, 1, 16384, 1024}[s.OpW(3, 3, 1, 1, 1)]
	p.Single = s.OpP(1, 3)
	return p
}

// Judge selects the oracles that are in force.
type Judge struct {
	Stream bool // prefix, completeness, no refused writes
	Hs     bool // compatible ends complete, incompatible ones fail visibly
	View   bool // both ends agree, with the model too
	KU     bool // key updates work
	Panic  bool
}

// Session is one honest TLS connection from hello to the end.
type Session struct {
	s               *Sim
	cf              *Conf
	J               Judge
	stubbornReads   int // errors after which the application reads on
	C, S            *Peer
	CT, ST          *Conn
	Pol             *LinkPolicy
	CPlan           AppPlan
	SPlan           AppPlan
	Early           [][]byte
	tag             uint32
	name            string
	after           func(p *Peer) // called by each peer's task once its handshake returned
	OnRead          func(p *Peer, b []byte)
	Quiet           bool // hostile: transport errors and refused writes are legitimate
	NoApp           bool
	early           []byte // early bytes handed to Write
	patient         bool   // time-outs of Read pass
	timeouts        int
	beforeRead      func(p *Peer)
	onWriteErr      func(p *Peer, err error)
	concurrentEarly bool // early data comes from another thread than the handshake
}

// Pol draws a transport policy.
func (s *Sim) LinkPol() *LinkPolicy {
	return &LinkPolicy{
		Seg:    s.CfgW(3, 4, 1, 2),
		MaxLat: []time.Duration{0, 20 * time.Millisecond, 2 * time.Second}[s.CfgW(1, 3, 1)],
		Chunk:  s.CfgW(3, 3, 1),
	}
}

// Sched draws the scheduling regime of a run.
func (s *Sim) Sched() {
	s.K.PreemptGap = []int{0, 20, 200, 3000}[s.CfgW(2, 1, 2, 2)]
}

func (s *Sim) NewSession(name string, tag uint32, cf *Conf, pol *LinkPolicy, j Judge) *Session {
	x := &Session{s: s, cf: cf, J: j, Pol: pol, tag: tag, name: name}
	x.CT, x.ST = NewStream(s, name+"c", name+"s", cf.C.NonBlocking, cf.S.NonBlocking, pol)
	return x
}

// Start creates the endpoints and their tasks.
func (x *Session) Start() {
	x.C = NewPeer(x.s, x.name+"c", x.cf.C, x.CT, true)
	x.S = NewPeer(x.s, x.name+"s", x.cf.S, x.ST, false)
	x.C.other, x.S.other = x.S, x.C
	x.C.patID, x.S.patID = x.tag*2+1, x.tag*2+2
	x.C.Go("hs", func() { x.client() })
	x.S.Go("hs", func() { x.server() })
}

// earlyWrites draws what a client sends as early data.
func (s *Sim) earlyWrites(max int) [][]byte {
	var w [][]byte
	n := 1 + s.Op(3)
	off := 0
	for i := 0; i < n; i++ {
		sz := 1 + s.Op(40)
		switch s.OpW(3, 2, 1) {
		case 1:
			sz = 1 + s.Op(1500)
		case 2:
			sz = 1 + s.Op(max)
		}
		w = append(w, Pattern(0, off, sz))
		off += sz
	}
	return w
}

func (x *Session) writeEarly() {
	c := x.C
	for _, b := range x.Early {
		b = c.next(len(b))
		if !c.Conn.Writable() {
			if x.J.Stream && !x.Quiet {
				x.s.Fail("early-unwritable", "client offered early data but is not writable")
			}
			return
		}
		x.early = append(x.early, b...)
		c.InWrite = true
		n, err := c.Conn.Write(b)
		c.InWrite = false
		x.s.K.Logf("%s early write %d -> %d %v", c.Name, len(b), n, err)
		if err != nil || n != len(b) {
			if x.J.Stream && !x.Quiet {
				x.s.Fail("early-write-refused", "early Write(%d bytes) -> %d, %v", len(b), n, err)
			}
			return
		}
	}
}

func (x *Session) client() {
	c := x.C
	if x.cf.E.EarlyOffer && len(x.Early) > 0 {
		var a mint.Alert
		if c.NB {
			a = c.Conn.Handshake()
			c.noteState()
		} else {
			a = c.Conn.HandshakeSetup()
		}
		if a != mint.AlertNoAlert {
			c.finishHs(a)
			c.HsRet = true
			x.afterHs(c)
			return
		}
		if x.concurrentEarly {
			c.Go("early", x.writeEarly)
		} else {
			x.writeEarly()
		}
	}
	c.Handshake()
	x.afterHs(c)
}

func (x *Session) server() {
	x.S.Handshake()
	x.afterHs(x.S)
}

func (x *Session) afterHs(p *Peer) {
	if x.after != nil {
		x.after(p)
	}
	if !p.Done {
		// the application gives up, as it must
		p.Tr.Close()
		p.ReadDone, p.WriteDone = true, true
		return
	}
	if x.NoApp {
		return
	}
	plan := x.SPlan
	if p.Client {
		plan = x.CPlan
	}
	if p.NB && plan.Single {
		x.single(p, plan)
		return
	}
	p.Go("read", func() { x.reader(p, plan) })
	p.Go("write", func() {
		for _, o := range plan.Ops {
			if !x.do(p, o) {
				break
			}
		}
		p.WriteDone = true
	})
}

// next returns the next n bytes of the peer's stream.
func (p *Peer) next(n int) []byte {
	b := Pattern(p.patID, p.pos, n)
	p.pos += n
	return b
}

func (x *Session) do(p *Peer, o Op) bool {
	k := x.s.K
	switch o.Kind {
	case "write":
		b := p.next(o.N)
		p.Attempt = append(p.Attempt, b...)
		p.InWrite = true
		n, err := p.Conn.Write(b)
		p.InWrite = false
		k.Logf("%s Write(%d) -> %d %v", p.Name, o.N, n, err)
		if n < 0 || n > len(b) {
			x.s.Fail("write-count", "%s Write(%d bytes) -> %d", p.Name, len(b), n)
			return false
		}
		p.Accepted = append(p.Accepted, b[:n]...)
		if err == nil && n != len(b) {
			if x.J.Stream {
				x.s.Fail("write-short", "%s Write(%d bytes) -> %d without an error", p.Name, len(b), n)
			}
			return false
		}
		if err != nil {
			p.WriteErr = err
			if x.J.Stream && !x.Quiet {
				x.s.Fail("write-refused", "%s Write(%d bytes) -> %d, %v", p.Name, len(b), n, err)
			}
			if x.onWriteErr != nil {
				x.onWriteErr(p, err)
			}
			return false
		}
	case "keyupdate":
		err := p.Conn.SendKeyUpdate(o.Req)
		k.Logf("%s SendKeyUpdate(%v) -> %v", p.Name, o.Req, err)
		k.Probe("keyupdate")
		if err != nil {
			if (x.J.KU || x.J.Stream) && !x.Quiet {
				x.s.Fail("keyupdate-failed", "%s SendKeyUpdate(%v): %v", p.Name, o.Req, err)
			}
			return false
		}
		p.KUs++
		if o.Req {
			p.KUReqs++
		}
	case "sleep":
		k.Sleep(o.D)
	}
	return true
}

// expected is the stream the peer of p is meant to deliver, as far as known.
func (x *Session) expected(p *Peer) []byte {
	if !p.Client && len(x.early) > 0 {
		// reading side is the server
		if x.cf.E.Early {
			return append(append([]byte{}, x.early...), p.other.Attempt...)
		}
	}
	return p.other.Attempt
}

func (x *Session) accepted(p *Peer) []byte {
	if !p.Client && len(x.early) > 0 && x.cf.E.Early {
		return append(append([]byte{}, x.early...), p.other.Accepted...)
	}
	return p.other.Accepted
}

// gotBytes judges what a Read returned.
func (x *Session) gotBytes(p *Peer, b []byte) bool {
	if len(b) == 0 {
		return true
	}
	off := len(p.Got)
	p.Got = append(p.Got, b...)
	if x.OnRead != nil {
		x.OnRead(p, b)
	}
	if !x.J.Stream {
		return true
	}
	e := x.expected(p)
	if off+len(b) > len(e) {
		x.s.Fail("stream-invented", "%s read %d bytes at offset %d but its peer wrote only %d", p.Name, len(b), off, len(e))
		return false
	}
	if !bytes.Equal(e[off:off+len(b)], b) {
		i := 0
		for e[off+i] == b[i] {
			i++
		}
		at := bytes.Index(e, b[i:min(len(b), i+12)])
		x.s.Fail("stream-wrong", "%s read wrong bytes at offset %d (they match offset %d of what was written)", p.Name, off+i, at)
		return false
	}
	return true
}

func (x *Session) bufSize(plan AppPlan, avail int) int {
	n := plan.ReadSz
	if n == 0 {
		n = 1 + x.s.C.Intn("poll", 20000)
	}
	if n < 600 && avail > n*100 {
		n = avail/100 + 1
	}
	return n
}

func (x *Session) readDone(p *Peer) bool {
	return p.other.WriteDone && p.WriteDone && len(p.Got) >= len(x.accepted(p)) && !p.kuPending()
}

func (p *Peer) kuPending() bool { return false }

func (x *Session) reader(p *Peer, plan AppPlan) {
	for {
		buf := make([]byte, x.bufSize(plan, len(x.accepted(p))-len(p.Got)))
		if x.beforeRead != nil {
			x.beforeRead(p)
		}
		n, err := p.Read(buf, nil)
		if n < 0 || n > len(buf) {
			x.s.Fail("read-count", "%s Read(%d) -> %d", p.Name, len(buf), n)
			break
		}
		if !x.gotBytes(p, buf[:n]) {
			break
		}
		if err != nil && x.patient && isTimeout(err) && x.timeouts < 2000 {
			x.timeouts++
			x.s.K.Logf("%s read timed out", p.Name)
			continue
		}
		if x.readsOn(p, err) {
			continue
		}
		if err != nil {
			p.ReadErr = err
			x.s.K.Logf("%s read error %v", p.Name, err)
			break
		}
	}
	p.ReadDone = true
}

// readsOn reports whether the application tries again after an error.
func (x *Session) readsOn(p *Peer, err error) bool {
	if err == nil || err == io.EOF || p.closed() || x.stubbornReads == 0 {
		return false
	}
	x.stubbornReads--
	x.s.K.Logf("%s read error %v, tries again", p.Name, err)
	return true
}

// single drives a non-blocking endpoint from one thread.
func (x *Session) single(p *Peer, plan AppPlan) {
	ops := plan.Ops
	for {
		if len(ops) > 0 && x.s.C.Intn("poll", 2) == 0 {
			o := ops[0]
			ops = ops[1:]
			if !x.do(p, o) {
				ops = nil
			}
			if len(ops) == 0 {
				p.WriteDone = true
			}
			continue
		}
		buf := make([]byte, x.bufSize(plan, len(x.accepted(p))-len(p.Got)))
		n, err := p.Conn.Read(buf)
		if n < 0 || n > len(buf) {
			x.s.Fail("read-count", "%s Read(%d) -> %d", p.Name, len(buf), n)
			break
		}
		if !x.gotBytes(p, buf[:n]) {
			break
		}
		if n == 0 && err == mint.AlertWouldBlock {
			if len(ops) == 0 {
				p.waitInput("read", nil)
			} else if !p.Tr.Readable() {
				x.s.K.Yield("poll")
			}
			continue
		}
		if err != nil && x.patient && isTimeout(err) {
			x.timeouts++
			continue
		}
		if x.readsOn(p, err) {
			continue
		}
		if err != nil {
			p.ReadErr = err
			x.s.K.Logf("%s read error %v", p.Name, err)
			break
		}
	}
	p.ReadDone = true
	p.WriteDone = true
}

// Finish judges a session whose network has become quiet.
func (x *Session) Finish() {
	s, e := x.s, x.cf.E
	if s.Failed() {
		return
	}
	if s.CheckPanics() {
		return
	}
	both := x.C.Done && x.S.Done
	if x.J.Hs {
		x.judgeHs()
	}
	if x.J.View {
		for _, p := range []*Peer{x.C, x.S} {
			if p.Done && !s.CheckView(p, e) {
				return
			}
		}
		if both {
			x.agree()
			if x.ST != nil {
				s.checkDH(clearHs(x.ST.Out.Wire), e)
			}
		}
	}
	if both && !x.NoApp {
		x.judgeStream()
	}
}

// clearHs is what the records carry of handshake messages in the clear.
func clearHs(recs [][]byte) (b []byte) {
	for _, r := range recs {
		if len(r) > 5 && r[0] == 22 {
			b = append(b, r[5:]...)
		}
	}
	return b
}

func (x *Session) judgeHs() {
	s, e := x.s, x.cf.E
	for _, p := range []*Peer{x.C, x.S} {
		if e.OK && !p.Done {
			if p.HsRet {
				s.Fail("handshake-error", "%s failed with %v although the configurations are compatible and the network is faithful (peer: %v)", p.Name, p.HsErr, p.other.status())
			} else {
				s.Fail("handshake-stuck", "%s never completes although the configurations are compatible and every byte arrived (state %v; peer: %v; waiting: %s)", p.Name, p.Conn.ConnectionState().HandshakeState, p.other.status(), s.K.Where())
			}
			return
		}
		if !e.OK && p.Done {
			s.Fail("handshake-incompatible", "%s completed although: %s", p.Name, e.Why)
			return
		}
	}
	if !e.OK && !x.C.HsRet && !x.S.HsRet {
		s.Fail("handshake-silent", "incompatible (%s) but neither end reports an error; %s", e.Why, s.K.Where())
	}
}

func (p *Peer) status() string {
	if p.Done {
		return "completed"
	}
	if p.HsRet {
		return fmt.Sprintf("failed with %v", p.HsErr)
	}
	return "in state " + p.stateName()
}

func (x *Session) judgeStream() {
	s := x.s
	for _, p := range []*Peer{x.C, x.S} {
		if x.Quiet {
			continue
		}
		if !p.WriteDone && (x.J.Stream || x.J.KU) {
			s.Fail("writer-stuck", "%s never finishes writing: %s", p.Name, s.K.Where())
			return
		}
		if p.ReadDone && p.ReadErr != nil && p.ReadErr != io.EOF && (x.J.Stream || x.J.KU) {
			s.Fail("read-error", "%s Read failed with %v on a faithful network after %d of %d bytes", p.Name, p.ReadErr, len(p.Got), len(x.accepted(p)))
			return
		}
		if p.ReadDone && p.ReadErr == io.EOF && !p.other.closed() && (x.J.Stream || x.J.KU) {
			s.Fail("read-eof", "%s Read reports the end although its peer did not close, after %d of %d bytes", p.Name, len(p.Got), len(x.accepted(p)))
			return
		}
		if x.J.Stream {
			if want := x.accepted(p); len(p.Got) != len(want) {
				s.Fail("stream-lost", "%s read %d bytes of the %d that were accepted and delivered; %s", p.Name, len(p.Got), len(want), s.K.Where())
				return
			}
		}
	}
}

func (p *Peer) closed() bool {
	switch t := p.Tr.(type) {
	case *Conn:
		return t.closed
	case *DConn:
		return t.closed
	}
	return false
}

// agree compares the two ends and their exporters.
func (x *Session) agree() { x.s.agree(x.C, x.S) }

// agree compares what both ends of a completed handshake believe.
func (s *Sim) agree(cl, sv *Peer) {
	a, b := cl.Conn.ConnectionState(), sv.Conn.ConnectionState()
	if a.CipherSuite.Suite != b.CipherSuite.Suite || a.NextProto != b.NextProto || a.UsingPSK != b.UsingPSK || a.UsingEarlyData != b.UsingEarlyData {
		s.Fail("disagree", "client sees suite=%v alpn=%q psk=%v early=%v, server suite=%v alpn=%q psk=%v early=%v",
			a.CipherSuite.Suite, a.NextProto, a.UsingPSK, a.UsingEarlyData, b.CipherSuite.Suite, b.NextProto, b.UsingPSK, b.UsingEarlyData)
		return
	}
	s.exporters(cl, sv)
}

var exporterLabels = []string{"EXPORTER-one", "EXPORTER-two", "EXPORTER-one ", "EXPERIMENTAL", strings.Repeat("EXPORTER-long ", 17)}
var exporterCtx = [][]byte{nil, {0}, {1, 2, 3}, Pattern(5, 0, 64), Pattern(5, 0, 65), Pattern(6, 0, 300)}

// exporters checks that both ends export the same values and that different
// labels, contexts and lengths differ.  It returns the values.
func (s *Sim) exporters(cl, sv *Peer) map[string][]byte {
	out := map[string][]byte{}
	seen := map[string]string{}
	n := 6
	for i := 0; i < n; i++ {
		l := exporterLabels[(i+s.Op(4))%len(exporterLabels)]
		c := exporterCtx[s.Op(len(exporterCtx))]
		ln := []int{32, 16, 48, 1 + s.Op(100), 254 + s.Op(4), 1 + s.Op(2500)}[s.OpW(3, 2, 2, 3, 1, 1)]
		id := fmt.Sprintf("%s|%x|%d", l, hash64(c), len(c))
		ev1, err1 := cl.Conn.ComputeExporter(l, c, ln)
		ev2, err2 := sv.Conn.ComputeExporter(l, c, ln)
		if err1 != nil || err2 != nil {
			s.Fail("exporter-error", "ComputeExporter: client %v, server %v", err1, err2)
			return out
		}
		if len(ev1) != ln || !bytes.Equal(ev1, ev2) {
			s.Fail("exporter-differs", "exporter %q/%d bytes of context/%d: client %s server %s", l, len(c), ln, short(ev1), short(ev2))
			return out
		}
		if ln >= 16 {
			key := string(ev1[:16])
			if o, ok := seen[key]; ok && o != id {
				s.Fail("exporter-collision", "exporter values for %s and %s are equal", o, id)
				return out
			}
			seen[key] = id
		}
		out[fmt.Sprintf("%s|%d", id, ln)] = ev1
	}
	return out
}
