package engine

import (
	"bytes"
	"crypto/ecdh"
	"errors"
	"io"

	"verif.local/sim/simrt"
)

func init() { simrt.RestoreRand() }

// entropyFails: the random source of one end fails, for a while or for good, or
// delivers less than it was asked for. Nobody goes on with bytes that were never
// drawn: what is in the buffers of such reads is known here, and so are the
// values and the key shares that would come of it.
func entropyFails(s *Sim) {
	s.Sched()
	dtls := s.CfgP(1, 4)
	cf := s.GenConf(Gen{DTLS: dtls, PSK: 40, Resume: 20, Early: 50, Auth: 25, NB: map[bool]int{false: 40, true: 100}[dtls], Tickets: 50, Cookie: 25})
	from := s.Fault(8)
	howMany := []int{1, 2, 1 << 20}[s.FaultW(3, 1, 3)]
	short := s.FaultP(1, 3)
	cut := s.Fault(64)
	which := s.Fault(2) // whose source fails
	asked := 0
	var bad, parts [][]byte // what was in the buffers
	simrt.Entropy = func(p []byte, src io.Reader) (int, error) {
		t := simrt.Cur()
		if t == nil || t.Node == nil || t.Node.Name != []string{"c", "s"}[which] || len(p) == 1 {
			return src.Read(p)
		}
		asked++
		if asked <= from || asked > from+howMany {
			return src.Read(p)
		}
		n := 0
		if short {
			n = 1 + cut%(len(p)-1)
			if _, err := src.Read(p[:n]); err != nil {
				return 0, err
			}
		}
		// a reader may use all of the buffer
		copy(p[n:], Pattern(4711, asked*100, len(p)-n))
		if len(p) >= 16 {
			bad = append(bad, append([]byte{}, p...))
		}
		for i := n; i+12 <= len(p) && i < n+64; i++ {
			parts = append(parts, append([]byte{}, p[i:i+12]...))
		}
		if short {
			s.K.Faults["short random"]++
			return n, nil
		}
		s.K.Faults["no random"]++
		return 0, errors.New("no entropy")
	}
	used := func(where string, b []byte) bool {
		for _, x := range parts {
			if bytes.Contains(b, x) {
				s.Fail("random-not-drawn", "bytes that %s's random source did not deliver are %s", []string{"c", "s"}[which], where)
				return true
			}
		}
		for _, x := range bad {
			if len(x) != 32 {
				continue
			}
			k, err := ecdh.X25519().NewPrivateKey(x)
			if err == nil && bytes.Contains(b, k.PublicKey().Bytes()) {
				s.Fail("random-not-drawn", "a private key of bytes that %s's random source did not deliver is %s", []string{"c", "s"}[which], where)
				return true
			}
		}
		return false
	}
	seals := s.WatchSeals()
	s.K.OnSeal = func(x simrt.Seal) {
		seals.seal(x)
		if !s.Failed() {
			used("encrypted", x.Plain)
		}
	}
	var c, v *Peer
	var wire [][]byte
	if dtls {
		s.FaultEnd = s.K.Now()
		x := s.NewDSession("", 1, cf, s.quickDPol())
		x.Hostile, x.NoApp = true, true
		x.Start()
		c, v = x.C, x.S
		s.K.Run(s.Failed)
		wire = append(append(wire, x.CT.Out.Sent...), x.ST.Out.Sent...)
	} else {
		x := s.NewSession("", 1, cf, s.quickPol(), Judge{})
		x.NoApp, x.Quiet = true, true
		if cf.E.EarlyOffer {
			x.Early = s.earlyWrites(500)
		}
		x.Start()
		c, v = x.C, x.S
		s.K.Run(s.Failed)
		wire = [][]byte{clearHs(x.CT.Out.Wire), clearHs(x.ST.Out.Wire)}
	}
	if s.Failed() || s.CheckPanics() {
		return
	}
	p := []*Peer{c, v}[which]
	s.Param("random source of %s: from read %d, %d times, short %v, %d affected", p.Name, from, howMany, short, len(bad))
	for _, w := range wire {
		if used("on the wire", w) {
			return
		}
	}
	s.NonTriv = len(bad) > 0
	switch {
	case len(bad) == 0:
		s.K.Probe("source not needed")
	case p.Done:
		s.K.Probe("completed")
	default:
		s.K.Probe("failed")
	}
}
