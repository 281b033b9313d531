package engine

import (
	"encoding/binary"
	"time"

	mint "github.com/bifurcation/mint"
)

func init() {
	register("C07",
		Scenario{"recover", 10, recoverDTLS},
	)
}

func recoverDTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 30, Early: 25, Auth: 25, NB: 100, Tickets: 30, Cookie: 25, BigCerts: true})
	pol := s.DPol(true)
	s.FaultEnd = s.Dur("fault", 10*time.Second)
	x := s.NewDSession("", 1, cf, pol)
	g := AppGen{MaxOps: 2, Sleep: time.Second}
	x.CPlan, x.SPlan = s.GenApp(g), s.GenApp(g)
	x.GenEarly()
	if s.CfgP(1, 4) {
		s.smallMTU(x)
	}
	if s.CfgP(1, 5) {
		s.stalls(x)
	}
	x.Start()
	s.K.Run(s.Failed)
	x.FinishHs()
	n := 0
	for _, f := range []string{"drop", "duplicate", "reorder", "partition-drop", "targeted-drop", "refragment"} {
		n += s.K.Faults[f]
	}
	s.NonTriv = n > 0 && x.C.Done && x.S.Done
}

// GenEarly gives the client early data to send.
func (x *DSession) GenEarly() {
	if !x.cf.E.EarlyOffer {
		return
	}
	for n := 1 + x.s.Cfg(4); n > 0; n-- {
		x.Early = append(x.Early, make([]byte, []int{8 + x.s.Op(40), 1000, 4000}[x.s.OpW(4, 2, 1)]))
	}
}

// stalls makes both ends stop being polled now and then, for longer than
// their timers take.
func (s *Sim) stalls(x *DSession) {
	if s.FaultEnd < 8*time.Second {
		s.FaultEnd = 8 * time.Second
	}
	for i := 0; i < 3; i++ {
		at, d := s.Dur("fault", 5*time.Second), s.Dur("fault", 2*time.Second)
		c := s.FaultP(1, 2)
		s.K.At(at, "stall", func() {
			p := x.S
			if c {
				p = x.C
			}
			s.K.Fault("stall")
			p.Stalled = s.K.Now() + d
		})
	}
}

// smallMTU makes the peers' clear handshake messages look as if they came
// from an implementation with small, uneven and overlapping fragments.
func (s *Sim) smallMTU(x *DSession) {
	piece := 20 + s.Cfg(300)
	late := s.CfgP(1, 2)
	for _, h := range []*DHalf{x.CT.Out, x.ST.Out} {
		h := h
		seq := uint64(1) << 40
		h.Tap = func(_ int, d []byte) bool {
			// one record with one clear handshake fragment
			if len(d) < 25 || d[0] != byte(mint.RecordTypeHandshake) || d[3] != 0 || d[4] != 0 ||
				int(d[11])<<8|int(d[12]) != len(d)-13 {
				return false
			}
			m := d[13:]
			off := int(m[6])<<16 | int(m[7])<<8 | int(m[8])
			body := m[12:]
			if int(m[9])<<16|int(m[10])<<8|int(m[11]) != len(body) || len(body) < 2 {
				return false
			}
			var cut [][2]int
			for at := 0; at < len(body); {
				end := at + 1 + s.Net(piece)
				if end > len(body) {
					end = len(body)
				}
				from := at
				if s.NetP(1, 4) {
					from -= s.Net(at + 1) // overlaps what came before
				}
				cut = append(cut, [2]int{from, end})
				at = end
			}
			if len(cut) < 2 {
				return false
			}
			s.K.Fault("refragment")
			s.K.Logf("%s refragment into %d", h.name, len(cut))
			for i := range cut {
				j := i + s.Net(len(cut)-i)
				if s.NetP(1, 2) {
					cut[i], cut[j] = cut[j], cut[i]
				}
			}
			if s.NetP(1, 3) {
				cut = append(cut, cut[s.Net(len(cut))])
			}
			for _, c := range cut {
				n := c[1] - c[0]
				r := make([]byte, 25+n)
				copy(r, d[:25])
				binary.BigEndian.PutUint64(r[3:], seq)
				seq++
				binary.BigEndian.PutUint16(r[11:], uint16(12+n))
				o := off + c[0]
				r[19], r[20], r[21] = byte(o>>16), byte(o>>8), byte(o)
				r[22], r[23], r[24] = byte(n>>16), byte(n>>8), byte(n)
				copy(r[25:], body[c[0]:c[1]])
				lat := x.Pol.MinLat
				if late {
					lat += s.Dur("net", 50*time.Millisecond)
				}
				if s.K.Now() < s.FaultEnd && s.FaultP(x.Pol.Loss/4, 1000) {
					s.K.Fault("drop")
					continue
				}
				h.Deliver(r, lat, late)
			}
			return true
		}
	}
}
