package engine

import (
	"bytes"
	"encoding/binary"
	"time"
)

// drec is one record of a datagram.
type drec struct {
	typ   byte
	epoch int
	body  []byte
}

// drecords splits a datagram into its records; nil if it is not made of
// whole records.
func drecords(p []byte) []drec {
	var out []drec
	for len(p) > 0 {
		if len(p) < 13 {
			return nil
		}
		n := int(p[11])<<8 | int(p[12])
		if len(p) < 13+n {
			return nil
		}
		out = append(out, drec{p[0], int(p[3])<<8 | int(p[4]), p[13 : 13+n]})
		p = p[13+n:]
	}
	return out
}

// secrecyDTLS searches everything sent over datagrams, lost or not.
func secrecyDTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, Incompat: s.CfgP(1, 5), PSK: 40, Resume: 20, Early: 50, Auth: 30, NB: 100, Tickets: 50, Cookie: 30, BigCerts: s.CfgP(1, 3)})
	s.K.StmtLimit = 60000000
	w := s.WatchSeals()
	pol := s.DPol(s.CfgP(3, 4))
	s.FaultEnd = s.Dur("fault", 6*time.Second)
	x := s.NewDSession("", 1, cf, pol)
	x.Hostile = true
	x.threads = s.CfgP(1, 3)
	x.GenEarly()
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(5, 20), s.dgramPlan(5, 20)
	if s.CfgP(1, 3) {
		x.intrude(nil, s.FaultEnd+time.Second)
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() {
		return
	}
	secrets := append(append(append([][]byte{}, x.C.Msgs...), x.S.Msgs...), x.early...)
	ww := s.secretsOf(cf, w, secrets...)
	for _, h := range []*DHalf{x.CT.Out, x.ST.Out} {
		for _, p := range h.Sent {
			if !ww.Scan(h.c2s, p) {
				return
			}
		}
		retried := false
		if h.c2s {
			for _, p := range x.ST.Out.Sent {
				retried = retried || isDtlsHRR(p)
			}
		}
		if !s.clearDgrams(h, retried) {
			return
		}
	}
	s.NonTriv = x.C.Done || x.S.Done
}

// clearDgrams judges the order of clear and protected records of one
// direction of a datagram connection.  A client that sent early data has no
// keys again once it is told to start over.
func (s *Sim) clearDgrams(h *DHalf, retried bool) bool {
	prot := 0
	hello2 := false
	for i, p := range h.Sent {
		rs := drecords(p)
		if rs == nil {
			s.Fail("datagram-malformed", "datagram %d %s (%d bytes) does not consist of whole records", i, dir(h.c2s), len(p))
			return false
		}
		for _, r := range rs {
			switch {
			case r.epoch > 0:
				if r.typ != 23 {
					s.Fail("protected-type", "datagram %d %s has a protected record of type %d", i, dir(h.c2s), r.typ)
					return false
				}
				prot++
			case r.typ == 22:
				want := byte(2)
				if h.c2s {
					want = 1
				}
				if len(r.body) < 12 || r.body[0] != want {
					s.Fail("clear-message", "datagram %d %s carries handshake data in the clear that is no hello (%x)", i, dir(h.c2s), r.body[:min(12, len(r.body))])
					return false
				}
				if h.c2s && retried && !hello2 && r.body[4]|r.body[5] != 0 {
					hello2 = true
					prot = 0
				}
			case r.typ == 23:
				s.Fail("clear-application-data", "datagram %d %s carries application data in the clear", i, dir(h.c2s))
				return false
			case prot > 0 && !(retried && !hello2 && r.typ == 21):
				s.Fail("clear-after-keys", "datagram %d %s has a record of type %d in the clear after %d protected records", i, dir(h.c2s), r.typ, prot)
				return false
			}
		}
	}
	return true
}

func isDtlsHRR(d []byte) bool {
	h := [4]byte{0xCF, 0x21, 0xAD, 0x74}
	return len(d) > 40 && d[0] == 22 && d[13] == 2 && bytes.Equal(d[27:31], h[:])
}

// tamperDTLS: an attacker in the path of a datagram handshake.
func tamperDTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, Incompat: s.CfgP(1, 5), PSK: 40, Resume: 20, Early: 40, Auth: 25, NB: 100, Tickets: 20, Cookie: 25, BigCerts: s.CfgP(1, 4)})
	pol := &DPolicy{MinLat: []time.Duration{time.Millisecond, 30 * time.Millisecond}[s.Cfg(2)]}
	var old [][]byte
	if s.CfgP(1, 4) {
		// an earlier connection that the attacker recorded
		y := s.NewDSession("0", 9, cf, &DPolicy{MinLat: time.Millisecond})
		y.Hostile, y.NoApp = true, true
		y.Start()
		s.K.Run(s.Failed)
		if s.Failed() || s.K.Panicked() != nil {
			return
		}
		old = append(append(old, y.CT.Out.Sent...), y.ST.Out.Sent...)
		cf.E = Predict(cf.C, cf.S)
	}
	s.FaultEnd = s.K.Now() + 3*time.Second
	x := s.NewDSession("", 1, cf, pol)
	x.Hostile = true
	x.GenEarly()
	if s.CfgP(1, 2) {
		x.NoApp = true
	}
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(2, 0), s.dgramPlan(2, 0)
	if s.CfgP(1, 4) {
		s.smallMTU(x)
	}
	a := &dmitm{s: s, x: x, old: old, left: 1 + s.Fault(5), rate: []int{30, 15, 60, 100}[s.Fault(4)]}
	a.tap(x.CT.Out, x.ST.Out)
	a.tap(x.ST.Out, x.CT.Out)
	if s.FaultP(1, 3) {
		a.always, a.left = true, 0
		a.toC, a.seqno = s.FaultP(1, 2), s.Fault(2)
		a.changed = map[string][]byte{}
		s.Param("changes message %d to the %s whenever it passes", a.seqno, map[bool]string{true: "client", false: "server"}[a.toC])
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	for _, p := range []*Peer{x.C, x.S} {
		if p.Done && len(a.changed) > 0 && !a.genuine {
			s.Fail("tampering-missed", "%s completed although handshake message %d %s never passed unchanged", p.Name, a.seqno, dir(!a.toC))
			return
		}
		if p.Done && !s.CheckView(p, cf.E) {
			return
		}
	}
	if x.C.Done && x.S.Done {
		s.agree(x.C, x.S)
		if s.Failed() {
			return
		}
		for _, p := range []*Peer{x.C, x.S} {
			for _, m := range p.GotMsgs {
				if !x.judgeMsg(p, m) {
					return
				}
			}
		}
	}
	s.NonTriv = a.edits > 0
	s.K.Probe(map[bool]string{true: "completed", false: "not-completed"}[x.C.Done || x.S.Done])
}

// dmitm is an attacker in the path of a DTLS connection.
type dmitm struct {
	s     *Sim
	x     *DSession
	old   [][]byte
	left  int
	rate  int
	edits int
	seq   uint64

	// one message that never passes unchanged
	always, toC, genuine bool
	seqno                int
	changed              map[string][]byte
}

// persist changes a datagram with the message chosen.
func (a *dmitm) persist(h *DHalf, p []byte) bool {
	if !a.always || h.c2s == a.toC {
		return false
	}
	whole := wholeClear(p)
	if !whole {
		for _, r := range drecords(p) {
			if r.typ == 22 && r.epoch == 0 && len(r.body) > 12 && int(r.body[4])<<8|int(r.body[5]) == a.seqno {
				a.genuine = true
			}
		}
		return false
	}
	if int(p[17])<<8|int(p[18]) != a.seqno {
		return false
	}
	msg := append(append([]byte{}, p[13:17]...), p[25:]...)
	e := a.changed[string(msg)]
	if e == nil {
		e = a.s.editHello(msg)
		if e == nil || bytes.Equal(e, msg) {
			a.genuine = true
			return false
		}
		a.changed[string(msg)] = e
		a.edits++
		a.s.K.Fault("wire-edit-hello-always")
	}
	d := a.drecord(22, 0, dmsg(e[0], a.seqno, e[4:]))
	copy(d[5:11], p[5:11])
	h.Deliver(d, a.x.Pol.MinLat, false)
	return true
}

// wholeClear says whether a datagram is one clear record with one whole
// handshake message.
func wholeClear(q []byte) bool {
	return len(q) > 25 && q[0] == 22 && q[3]|q[4] == 0 && len(q) == 13+(int(q[11])<<8|int(q[12])) &&
		q[19]|q[20]|q[21] == 0 && len(q) == 25+int(q[14])<<16+int(q[15])<<8+int(q[16])
}

func (a *dmitm) tap(h, rev *DHalf) {
	next := h.Tap
	h.Tap = func(idx int, p []byte) bool {
		s := a.s
		if a.persist(h, p) {
			return true
		}
		if a.left > 0 && s.K.Now() < s.FaultEnd && s.FaultP(a.rate, 100) {
			a.left--
			a.edits++
			if a.edit(h, rev, p) {
				return true
			}
		}
		return next != nil && next(idx, p)
	}
}

// drecord makes a clear record with a number of its own.
func (a *dmitm) drecord(typ byte, epoch uint64, body []byte) []byte {
	a.seq++
	b := make([]byte, 13+len(body))
	b[0], b[1], b[2] = typ, 0xfe, 0xfd
	binary.BigEndian.PutUint64(b[3:], epoch<<48|(1<<30+a.seq))
	binary.BigEndian.PutUint16(b[11:], uint16(len(body)))
	copy(b[13:], body)
	return b
}

// dmsg makes one unfragmented handshake message.
func dmsg(typ byte, seq int, body []byte) []byte {
	n := len(body)
	return append([]byte{typ, byte(n >> 16), byte(n >> 8), byte(n), byte(seq >> 8), byte(seq), 0, 0, 0, byte(n >> 16), byte(n >> 8), byte(n)}, body...)
}

// edit may replace a datagram; it reports whether it did.
func (a *dmitm) edit(h, rev *DHalf, p []byte) bool {
	s := a.s
	lat := a.x.Pol.MinLat
	put := func(b []byte) { h.Deliver(b, lat, false) }
	log := func(f string) {
		s.K.Fault("wire-" + f)
		s.K.Logf("attacker: %s on a datagram %s, type %d, epoch %d, %d bytes", f, dir(h.c2s), p[0], p[4], len(p))
	}
	q := append([]byte{}, p...)
	clear := len(q) > 25 && q[0] == 22 && q[3]|q[4] == 0
	whole := wholeClear(q)
	if whole && s.FaultP(3, 5) {
		msg := append(append([]byte{}, q[13:17]...), q[25:]...)
		if e := s.editHello(msg); e != nil {
			log("edit-hello")
			d := a.drecord(22, 0, dmsg(e[0], int(q[17])<<8|int(q[18]), e[4:]))
			copy(d[5:11], q[5:11])
			put(d)
			return s.FaultP(3, 4) // or the genuine one follows
		}
	}
	switch s.Fault(13) {
	case 0:
		log("flip")
		for n := 1 + s.Fault(3); n > 0; n-- {
			i := s.Fault(len(q))
			if s.FaultP(2, 3) && len(q) > 13 {
				i = 13 + s.Fault(len(q)-13)
			}
			q[i] ^= 1 << s.Fault(8)
		}
		put(q)
		return true
	case 1:
		log("drop")
		return true
	case 2:
		log("duplicate")
		put(q)
	case 3:
		log("delay")
		h.Deliver(q, lat+s.Dur("fault", 500*time.Millisecond), true)
		return true
	case 4:
		log("truncate")
		put(q[:s.Fault(len(q))])
		return true
	case 5:
		log("inject-alert")
		put(a.drecord(21, uint64(s.Fault(2)*s.Fault(4)), []byte{[]byte{1, 2}[s.Fault(2)], []byte{0, 10, 40, 90, 255, 254, 253}[s.Fault(7)]}))
	case 6:
		log("replay")
		if n := len(h.Sent); n > 0 {
			put(append([]byte{}, h.Sent[s.Fault(n)]...))
		}
	case 7:
		log("reflect")
		if n := len(rev.Sent); n > 0 {
			put(append([]byte{}, rev.Sent[s.Fault(n)]...))
		}
	case 8:
		if n := len(a.old); n > 0 {
			log("foreign")
			put(append([]byte{}, a.old[s.Fault(n)]...))
			return s.FaultP(1, 2)
		}
	case 9:
		log("inject-handshake")
		m := s.forgedMessage()
		put(a.drecord(22, 0, dmsg(m[0], s.Fault(6), m[4:])))
	case 10: // a fragment that overlaps the genuine one with other contents
		if whole && len(q) > 60 {
			log("forge-fragment")
			body := q[25:]
			from := s.Fault(len(body) - 1)
			to := from + 1 + s.Fault(len(body)-from)
			f := append([]byte{}, q[13:25]...)
			n := to - from
			f[6], f[7], f[8] = byte(from>>16), byte(from>>8), byte(from)
			f[9], f[10], f[11] = byte(n>>16), byte(n>>8), byte(n)
			f = append(f, body[from:to]...)
			f[12+s.Fault(n)] ^= 1 << s.Fault(8)
			put(a.drecord(22, 0, f))
		}
	case 11: // acknowledge what did not arrive
		log("forge-ack")
		var b []byte
		for n := 1 + s.Fault(4); n > 0; n-- {
			b = append(b, 0, byte(s.Fault(4)), 0, 0, 0, 0, 0, byte(s.Fault(12)))
		}
		d := a.drecord([]byte{25, 26}[s.Fault(2)], 0, append(u16b(len(b)), b...))
		put(d)
		return s.FaultP(1, 2)
	case 12:
		log("relabel")
		switch s.Fault(3) {
		case 0:
			q[0] = []byte{20, 21, 22, 23, 25, 26}[s.Fault(6)]
		case 1:
			q[4] = byte(s.Fault(5))
		case 2:
			if clear {
				q[18] = byte(s.Fault(4)) // message number
			}
		}
		put(q)
		return true
	}
	return false
}

// kuDTLS updates keys from both ends and several threads over a network that
// loses and reorders, then behaves.
func kuDTLS(s *Sim, long bool) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 30, Auth: 5, NB: 100, Tickets: 20, Cookie: 5})
	s.K.StmtLimit = 60000000
	pol := s.DPol(s.CfgP(3, 4))
	if long {
		pol = s.quickDPol()
	}
	x := s.NewDSession("", 1, cf, pol)
	x.threads = s.CfgP(1, 2)
	x.Phases = true
	ku := []int{20, 50, 80}[s.Cfg(3)]
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(8, ku), s.dgramPlan(8, ku)
	if long {
		// epochs that do not fit into a byte; one update at a time
		x.threads = false
		x.Quiet += time.Minute
		s.K.StepLimit = 3000000
		var ops []Op
		for n := 256 + s.Op(30); n > 0; n-- {
			ops = append(ops, Op{Kind: "keyupdate", Req: s.OpP(1, 4)}, Op{Kind: "sleep", D: 80*time.Millisecond + s.Dur("op", 50*time.Millisecond)})
			if s.OpP(1, 8) {
				ops = append(ops, Op{Kind: "write", N: 9 + s.Op(100)})
			}
		}
		if s.CfgP(1, 2) {
			x.CPlan.Ops = append(x.CPlan.Ops, ops...)
		} else {
			x.SPlan.Ops = append(x.SPlan.Ops, ops...)
		}
	}
	extra := []AppPlan{{Ops: s.dgramPlan(4, 100)}, {Ops: s.dgramPlan(4, 100)}}
	both := s.CfgW(3, 1, 1)
	var first [2]int
	var at [2]int
	settled := false
	x.bothDone = func() {
		d := s.Dur("fault", 5*time.Second)
		s.FaultEnd = s.K.Now() + d
		for i := range pol.Partitions {
			pol.Partitions[i][0] += s.K.Now()
			pol.Partitions[i][1] += s.K.Now()
		}
		for i, p := range []*Peer{x.C, x.S} {
			p, ops := p, extra[i].Ops
			if both == 0 || both == 1 && p.Client || !x.threads {
				continue
			}
			p.Go("updates", func() {
				for _, o := range ops {
					s.K.Yield("between")
					if !x.do(p, o) {
						return
					}
				}
			})
		}
		if long {
			d += time.Minute
		}
		s.K.At(d+10*time.Second, "settled", func() {
			settled = true
			first = [2]int{len(x.C.Msgs), len(x.S.Msgs)}
			at = [2]int{len(x.CT.Out.Sent), len(x.ST.Out.Sent)}
			for _, p := range []*Peer{x.C, x.S} {
				for n := 1 + s.Op(3); n > 0; n-- {
					p.More = append(p.More, Op{Kind: "write", N: 9 + s.Op(200)})
				}
			}
		})
	}
	x.Start()
	s.K.Run(s.Failed)
	x.FinishHs()
	if s.Failed() || !x.C.Done || !x.S.Done {
		return
	}
	if !settled {
		s.Fail("not-settled", "the run ended early: %s", s.K.Where())
		return
	}
	for i, p := range []*Peer{x.C, x.S} {
		for j := first[i]; j < len(p.Msgs); j++ {
			if n := p.other.countMsg(p.Msgs[j]); n != 1 {
				s.Fail("message-lost", "%s read message %d of %s %d times; it was sent after the faults had stopped and %d+%d key updates", p.other.Name, j+1, p.Name, n, x.C.KUs, x.S.KUs)
				return
			}
		}
		// it sent its own updates and one answer per request
		want, got := 3+p.KUs+p.other.KUReqs, 0
		for _, d := range p.Tr.(*DConn).Out.Sent[at[i]:] {
			for _, r := range drecords(d) {
				got = max(got, r.epoch)
			}
		}
		if got != want {
			s.Fail("keyupdate-epoch", "%s was to make %d key updates of its own and %d answers, but ends in epoch %d", p.Name, p.KUs, p.other.KUReqs, got)
			return
		}
	}
	s.NonTriv = x.C.KUs+x.S.KUs > 0
}
