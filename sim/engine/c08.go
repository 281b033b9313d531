package engine

import (
	"encoding/binary"
	"time"
)

func init() {
	register("C08",
		Scenario{"clean", 4, dgramClean},
		Scenario{"storm", 16, dgramStorm},
		Scenario{"hundreds", 1, hundreds},
	)
}

// dgramPlan is what an application sends over datagrams.
func (s *Sim) dgramPlan(max, ku int) []Op {
	var ops []Op
	for n := 1 + s.Op(max); n > 0; n-- {
		switch {
		case ku > 0 && s.OpP(ku, 100):
			ops = append(ops, Op{Kind: "keyupdate", Req: s.OpP(1, 2)})
		case s.OpP(1, 3):
			ops = append(ops, Op{Kind: "sleep", D: s.Dur("op", 400*time.Millisecond)})
		default:
			ops = append(ops, Op{Kind: "write", N: 9 + []int{s.Op(30), s.Op(1400), s.Op(14900)}[s.OpW(3, 2, 1)]})
		}
	}
	return ops
}

// dgramClean: without faults each message arrives exactly once.
func dgramClean(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 25, Early: 0, Auth: 20, NB: 60, Tickets: 30, Cookie: 10, BigCerts: true})
	x := s.NewDSession("", 1, cf, s.DPol(false))
	x.threads = s.CfgP(1, 3)
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(8, 15), s.dgramPlan(8, 15)
	x.Start()
	s.K.Run(s.Failed)
	x.FinishHs()
	if s.Failed() || !x.C.Done || !x.S.Done {
		return
	}
	for _, p := range []*Peer{x.C, x.S} {
		for i, m := range p.Msgs {
			n := p.other.countMsg(m)
			if n != 1 {
				what := "lost"
				if n > 1 {
					what = "repeated"
				}
				s.Fail("message-"+what, "%s read message %d of %d from %s %d times although the network delivered every datagram once", p.other.Name, i+1, len(p.Msgs), p.Name, n)
				return
			}
		}
	}
	s.NonTriv = len(x.C.Msgs)+len(x.S.Msgs) > 0
}

func dgramStorm(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 25, Early: 0, Auth: 20, NB: 70, Tickets: 20, Cookie: 5})
	pol := s.DPol(true)
	pol.Corrupt = []int{0, 100, 400}[s.CfgW(1, 2, 1)]
	pol.Truncate = []int{0, 50, 200}[s.CfgW(2, 2, 1)]
	x := s.NewDSession("", 1, cf, pol)
	x.threads = s.CfgP(1, 3)
	x.Phases = true
	// A blocking endpoint has no timers, so nothing it loses comes back.
	ku := 0
	if cf.C.NonBlocking && cf.S.NonBlocking {
		ku = []int{0, 15}[s.Cfg(2)]
	}
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(10, ku), s.dgramPlan(10, ku)
	var y *DSession
	if s.CfgP(1, 3) {
		// another connection, whose datagrams end up here too
		x.NoView = true
		y = s.NewDSession("y", 2, cf, &DPolicy{MinLat: time.Millisecond})
		y.CPlan.Ops, y.SPlan.Ops = s.dgramPlan(4, 0), s.dgramPlan(4, 0)
	}
	inj := s.FaultP(2, 3)
	var first [2]int // each end's messages of the last phase start here
	settled := false
	x.bothDone = func() {
		d := s.Dur("fault", 5*time.Second)
		s.FaultEnd = s.K.Now() + d
		for i := range pol.Partitions {
			pol.Partitions[i][0] += s.K.Now()
			pol.Partitions[i][1] += s.K.Now()
		}
		if inj {
			x.intrude(y, d)
		}
		// Delayed datagrams and retransmissions settle, then all is well.
		s.K.At(d+8*time.Second, "settled", func() {
			settled = true
			first = [2]int{len(x.C.Msgs), len(x.S.Msgs)}
			for _, p := range []*Peer{x.C, x.S} {
				for n := 1 + s.Op(3); n > 0; n-- {
					p.More = append(p.More, Op{Kind: "write", N: 9 + s.Op(200)})
				}
			}
		})
	}
	x.Start()
	if y != nil {
		y.Start()
	}
	s.K.Run(s.Failed)
	x.FinishHs()
	if s.Failed() || !x.C.Done || !x.S.Done {
		return
	}
	if !settled {
		s.Fail("not-settled", "the run ended early: %s", s.K.Where())
		return
	}
	for i, p := range []*Peer{x.C, x.S} {
		arr := p.other.Tr.(*DConn).In.got
		out := p.Tr.(*DConn).Out.Sent
		for j, m := range p.Msgs {
			n, max := p.other.countMsg(m), 0
			for k := p.MsgAt[j][0]; k < p.MsgAt[j][1]; k++ {
				if len(out[k]) == len(m)+30 {
					max += arr[hash64(out[k])]
				}
			}
			if n > max {
				s.Fail("message-repeated", "%s read message %d of %s %d times, its datagram arrived unaltered %d times", p.other.Name, j+1, p.Name, n, max)
				return
			}
			if j >= first[i] && n != 1 {
				s.Fail("message-lost", "%s read message %d of %s %d times; it was sent after the faults had stopped (faults until %v)", p.other.Name, j+1, p.Name, n, s.FaultEnd)
				return
			}
		}
	}
	n := 0
	for _, c := range s.K.Faults {
		n += c
	}
	s.NonTriv = n > 0
}

// intrude puts datagrams on the network that neither end sent, or not then
// and there.
func (x *DSession) intrude(y *DSession, d time.Duration) {
	s := x.s
	for n := 1 + s.Fault(12); n > 0; n-- {
		s.K.At(s.Dur("fault", d), "intrude", func() { x.intruder(y) })
	}
}

func (x *DSession) intruder(y *DSession) {
	s := x.s
	to := []*DHalf{x.CT.Out, x.ST.Out}[s.Fault(2)]
	rev := x.CT.Out
	if to == rev {
		rev = x.ST.Out
	}
	pick := func(h *DHalf) []byte {
		if len(h.Sent) == 0 {
			return nil
		}
		if s.FaultP(1, 2) { // recent
			n := len(h.Sent) - 1 - s.Fault(3)
			if n >= 0 {
				return h.Sent[n]
			}
		}
		return h.Sent[s.Fault(len(h.Sent))]
	}
	send := func(kind string, d []byte) {
		if len(d) == 0 {
			return
		}
		s.K.Fault("intruder-" + kind)
		s.K.Logf("intruder: %s, %d bytes", kind, len(d))
		to.Deliver(append([]byte{}, d...), 0, true)
	}
	rnd := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(s.Fault(256))
		}
		return b
	}
	record := func(typ byte, epoch, seq uint64, body []byte) []byte {
		b := make([]byte, 13+len(body))
		b[0], b[1], b[2] = typ, 0xfe, 0xfd
		binary.BigEndian.PutUint64(b[3:], epoch<<48|seq)
		binary.BigEndian.PutUint16(b[11:], uint16(len(body)))
		copy(b[13:], body)
		return b
	}
	switch s.Fault(11) {
	case 0:
		send("replay", pick(to))
	case 1:
		send("reflect", pick(rev))
	case 2:
		if y != nil {
			send("foreign", pick([]*DHalf{y.CT.Out, y.ST.Out}[s.Fault(2)]))
		}
	case 3:
		send("noise", rnd(1+s.Fault(60)))
	case 4: // several records in one datagram
		a, b := pick(to), pick(to)
		if a == nil || b == nil || len(a)+len(b) > 16000 {
			return
		}
		to.got[hash64(a)]++
		to.got[hash64(b)]++
		send("splice", append(append([]byte{}, a...), b...))
	case 5: // the start of one record, then another
		a, b := pick(to), pick(to)
		if len(a) < 14 || b == nil {
			return
		}
		to.got[hash64(b)]++
		send("cut-splice", append(append([]byte{}, a[:13+s.Fault(len(a)-13)]...), b...))
	case 6: // a clear record of any kind
		typ := []byte{20, 21, 22, 23, 24, 25, 26, 0, 255}[s.Fault(9)]
		body := [][]byte{{1, 0}, {2, 40}, {2, 10}, {1}, {}, rnd(s.Fault(40)),
			{24, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 1},
			{0, 3, 0, 0, 0, 0, 0, 1}}[s.Fault(8)]
		send("clear-record", record(typ, 0, uint64(s.Fault(1<<20)), body))
	case 7: // a made-up protected record
		typ := []byte{23, 23, 21, 22, 26}[s.Fault(5)]
		send("forged-record", record(typ, uint64(s.Fault(8)), uint64(s.Fault(64)), rnd(s.Fault(80))))
	case 8: // a genuine record renumbered
		a := pick(to)
		if len(a) < 14 {
			return
		}
		a = append([]byte{}, a...)
		if s.FaultP(1, 2) {
			a[4] = byte(s.Fault(8))
		} else {
			a[10] ^= byte(1 + s.Fault(255))
		}
		send("renumbered", a)
	case 9: // a genuine record relabelled
		a := pick(to)
		if len(a) < 14 {
			return
		}
		a = append([]byte{}, a...)
		a[0] = []byte{20, 21, 22, 23, 26}[s.Fault(5)]
		send("relabelled", a)
	case 10: // a record whose length is wrong
		a := pick(to)
		if len(a) < 14 {
			return
		}
		a = append([]byte{}, a...)
		binary.BigEndian.PutUint16(a[11:], uint16(s.Fault(1<<16)))
		send("wrong-length", a)
	}
}
