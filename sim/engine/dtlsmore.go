package engine

import (
	"encoding/binary"
	"time"

	mint "github.com/bifurcation/mint"
)

// volume writes many small messages under the same keys.
func (s *Sim) volume() int {
	n := 260 + s.Op(600)
	if s.OpP(1, 8) {
		n = 3000 + s.Op(3000)
	}
	if s.OpP(1, 150) || s.Thorough && s.OpP(1, 30) {
		n = 65536 + 300
	}
	return n
}

func noncesVolume(s *Sim) {
	s.K.StepLimit, s.K.StmtLimit = 5000000, 500000000
	w := s.WatchSeals()
	n := [2]int{s.volume(), 0}
	if s.OpP(1, 3) {
		n[1] = s.volume()
	}
	again := s.OpP(1, 4)
	burst := func(p *Peer, n int) {
		p.Go("burst", func() {
			b := []byte{1, 2, 3}
			for i := 0; i < n; i++ {
				if _, err := p.Conn.Write(b); err != nil {
					return
				}
				if again && i == n/2 {
					p.Conn.SendKeyUpdate(true)
				}
			}
		})
	}
	after := func(p *Peer) {
		if !p.Done {
			return
		}
		if p.Client {
			burst(p, n[0])
		} else {
			burst(p, n[1])
		}
	}
	if s.CfgP(1, 2) {
		cf := s.GenConf(Gen{PSK: 40, NB: 40})
		x := s.NewSession("", 1, cf, &LinkPolicy{}, Judge{})
		x.Quiet = true
		x.after = after
		x.Start()
	} else {
		cf := s.GenConf(Gen{DTLS: true, PSK: 40, NB: 100})
		x := s.NewDSession("", 1, cf, &DPolicy{MinLat: time.Millisecond})
		x.Hostile, x.NoApp = true, true
		x.after = after
		x.Start()
	}
	s.K.Run(s.Failed)
	if !s.Failed() {
		s.CheckPanics()
	}
	s.NonTriv = w.Seals > 256
}

// burst writes n small messages that say which they are.
func (s *Sim) burst(p *Peer, n int, sent *int) {
	p.Go("burst", func() {
		for i := 0; i < n; i++ {
			b := make([]byte, 8)
			binary.BigEndian.PutUint32(b, p.patID)
			binary.BigEndian.PutUint32(b[4:], uint32(i))
			if k, err := p.Conn.Write(b); err != nil || k != len(b) {
				s.Fail("write-refused", "%s Write(%d bytes) -> %d, %v", p.Name, len(b), k, err)
				return
			}
			*sent++
			if i%500 == 499 {
				s.K.Sleep(time.Millisecond)
			}
		}
	})
}

// hundreds: many messages under the same keys, over a network that delivers
// them all, each once and in order.
func hundreds(s *Sim) {
	s.K.StepLimit, s.K.StmtLimit = 5000000, 500000000
	n := [2]int{s.volume(), 0}
	if s.OpP(1, 3) {
		n[1] = s.volume()
	}
	cf := s.GenConf(Gen{DTLS: true, PSK: 40, NB: 60})
	x := s.NewDSession("", 1, cf, &DPolicy{MinLat: time.Millisecond})
	x.Hostile, x.NoApp = true, true
	var sent [2]int
	x.bothDone = func() {
		s.burst(x.C, n[0], &sent[0])
		s.burst(x.S, n[1], &sent[1])
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() {
		return
	}
	s.CheckPanics()
	if s.Failed() || !x.C.Done || !x.S.Done {
		return
	}
	for i, p := range []*Peer{x.C, x.S} {
		got := make([]int, n[i])
		for _, m := range p.other.GotMsgs {
			if len(m) != 8 || binary.BigEndian.Uint32(m) != p.patID || int(binary.BigEndian.Uint32(m[4:])) >= sent[i] {
				s.Fail("foreign-message", "%s read %x, which %s did not write", p.other.Name, m[:min(len(m), 16)], p.Name)
				return
			}
			got[binary.BigEndian.Uint32(m[4:])]++
		}
		for j, k := range got {
			if k != 1 {
				s.Fail("message-lost", "%s read message %d of %d from %s %d times although the network delivered every datagram once", p.other.Name, j+1, n[i], p.Name, k)
				return
			}
		}
	}
	s.NonTriv = sent[0] > 256
}

// thousandsTLS: the same over a stream.
func thousandsTLS(s *Sim) {
	s.K.StepLimit, s.K.StmtLimit = 5000000, 500000000
	n := [2]int{s.volume(), 0}
	if s.OpP(1, 3) {
		n[1] = s.volume()
	}
	cf := s.GenConf(Gen{PSK: 40, NB: 30})
	x := s.NewSession("", 1, cf, &LinkPolicy{}, Judge{})
	x.Quiet, x.NoApp = true, true
	var sent [2]int
	x.after = func(p *Peer) {
		if !p.Done {
			return
		}
		p.Go("read", func() { x.reader(p, AppPlan{ReadSz: []int{70000, 4096, 0}[s.Cfg(3)]}) })
		if p.Client {
			s.burst(p, n[0], &sent[0])
		} else {
			s.burst(p, n[1], &sent[1])
		}
	}
	x.Start()
	s.K.Run(s.Failed)
	if s.Failed() {
		return
	}
	s.CheckPanics()
	if s.Failed() || !x.C.Done || !x.S.Done {
		return
	}
	for i, p := range []*Peer{x.C, x.S} {
		g := p.other.Got
		for j := 0; j < sent[i] || j*8 < len(g); j++ {
			if j*8+8 > len(g) || binary.BigEndian.Uint32(g[j*8:]) != p.patID || int(binary.BigEndian.Uint32(g[j*8+4:])) != j || j >= sent[i] {
				s.Fail("stream-wrong", "%s read %d bytes; %s wrote %d messages of 8 bytes, and message %d is not in its place", p.other.Name, len(g), p.Name, sent[i], j+1)
				return
			}
		}
	}
	s.NonTriv = sent[0] > 256
}

// noncesDTLS: retransmission, acknowledgement, retries, early data, updates
// and several writers over a network that loses and reorders.
func noncesDTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 40, Early: 50, Auth: 20, NB: 100, Tickets: 30, Cookie: 25, BigCerts: s.CfgP(1, 5)})
	s.K.StmtLimit = 60000000 // every record of a much repeated flight is acknowledged
	w := s.WatchSeals()
	pol := s.DPol(true)
	s.FaultEnd = s.Dur("fault", 6*time.Second)
	x := s.NewDSession("", 1, cf, pol)
	x.Hostile = true
	x.threads = s.CfgP(1, 2)
	x.GenEarly()
	x.concurrentEarly = s.CfgP(1, 2)
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(6, 30), s.dgramPlan(6, 30)
	more := s.CfgW(2, 1, 1)
	plans := [][]Op{s.dgramPlan(4, 50), s.dgramPlan(4, 50)}
	x.after = func(p *Peer) {
		if !p.Done || more == 0 || more == 1 && p.Client {
			return
		}
		for _, ops := range plans {
			ops := ops
			p.Go("writer", func() {
				for _, o := range ops {
					s.K.Yield("between")
					switch o.Kind {
					case "write":
						p.Conn.Write(Pattern(1000, 0, o.N))
					case "keyupdate":
						p.Conn.SendKeyUpdate(o.Req)
					case "sleep":
						s.K.Sleep(o.D)
					}
				}
			})
		}
	}
	x.Start()
	s.K.Run(s.Failed)
	if !s.Failed() {
		s.CheckPanics()
	}
	s.NonTriv = w.Seals > 4
}

var _ = mint.AlertNoAlert
