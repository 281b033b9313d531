package engine

import (
	"bytes"
	"net"
	"strings"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() {
	register("C10",
		Scenario{"tls", 10, func(s *Sim) { earlyTLS(s, false) }},
		Scenario{"tampered", 3, func(s *Sim) { earlyTLS(s, true) }},
		Scenario{"second-thoughts", 4, earlyMismatch},
		Scenario{"dtls", 4, earlyDTLS},
		Scenario{"odd-client", 5, earlyOddClient},
		Scenario{"server", 4, earlyServer},
	)
}

// earlyRun is a connection whose client writes before, during and after the
// handshake and whose server reads all the time.
type earlyRun struct {
	*Session
	writes   [][]byte
	ret      int // writes that returned
	early    int // writes that returned before anything came back
	late     int // writes begun before the client knew it had completed
	pre      int // bytes that the server read before it completed
	noseDone bool
}

func (s *Sim) newEarly(cf *Conf, pol *LinkPolicy, max int) *earlyRun {
	x := &earlyRun{Session: s.NewSession("", 1, cf, pol, Judge{})}
	x.NoApp = true
	x.C = NewPeer(s, "c", cf.C, x.CT, true)
	x.S = NewPeer(s, "s", cf.S, x.ST, false)
	x.C.other, x.S.other = x.S, x.C
	x.C.patID, x.S.patID = 3, 4
	threads := s.CfgP(1, 2)
	slow := []time.Duration{0, 50 * time.Millisecond, 3 * time.Second}[s.CfgW(3, 2, 1)]
	var sizes []int
	for i, n := 0, 1+s.Op(6); i < n; i++ {
		sz := 1 + s.Op(40)
		switch s.OpW(3, 2, 1, 1) {
		case 1:
			sz = 1 + s.Op(1500)
		case 2:
			sz = 1 + s.Op(max)
		case 3:
			sz = 16384 - 30 + s.Op(40)
		}
		sizes = append(sizes, sz)
	}
	write := func(n int) bool {
		b := x.C.next(n)
		x.writes = append(x.writes, b)
		if !x.C.Done {
			x.late = len(x.writes)
		}
		for {
			if x.C.HsRet && !x.C.Done {
				return false
			}
			was := x.C.Done
			got, err := x.C.Conn.Write(b)
			s.K.Logf("c Write(%d) -> %d %v", n, got, err)
			if got == n && err == nil {
				break
			}
			if got != 0 || err == nil || was {
				if !x.Quiet && !(x.C.HsRet && !x.C.Done) {
					s.Fail("write-refused", "c Write(%d bytes) -> %d, %v", n, got, err)
				}
				return false
			}
			s.K.Block("completion", func() bool { return x.C.HsRet })
		}
		x.ret++
		if x.CT.Reads == 0 && x.CT.ReadBytes == 0 {
			x.early = x.ret
		}
		return true
	}
	x.C.Go("hs", func() {
		var a mint.Alert
		if x.C.NB {
			a = x.C.Conn.Handshake()
			x.C.noteState()
		} else {
			a = x.C.Conn.HandshakeSetup()
		}
		if a != mint.AlertNoAlert {
			x.C.finishHs(a)
			x.C.HsRet = true
			x.CT.Close()
			return
		}
		all := func(sz []int) {
			for _, n := range sz {
				if slow > 0 {
					s.K.Sleep(s.Dur("op", slow))
				}
				if !write(n) {
					break
				}
			}
			x.C.WriteDone = true
		}
		k := len(sizes)
		if threads {
			x.C.Go("write", func() { all(sizes) })
		} else if x.C.Conn.Writable() {
			k = s.Op(len(sizes) + 1)
			all(sizes[:k])
			sizes = sizes[k:]
		}
		x.C.Handshake()
		if !x.C.Done {
			x.CT.Close()
			return
		}
		if !threads {
			all(sizes)
		}
	})
	buf := make([]byte, 70000)
	sz := []int{70000, 1, 100, 20000}[s.CfgW(4, 1, 2, 2)]
	// early bytes the server reads before it has completed
	pre := func() {
		n, err := x.S.Conn.Read(buf[:sz])
		if n > 0 && !x.S.Connected() {
			x.pre += n
			s.K.Probe("read-before-completion")
			if !cf.S.AllowEarlyData {
				s.Fail("early-data-not-allowed", "s Read -> %d bytes of early data that it does not allow", n)
			}
		}
		s.K.Logf("s Read -> %d %v", n, err)
		x.S.Got = append(x.S.Got, buf[:max0(n)]...)
	}
	var hs *simrt.Task
	over := s.CfgP(1, 2) // goes on reading while the handshake completes
	busy := s.CfgP(1, 2) // reads whenever the handshake makes progress
	if s.CfgP(2, 3) {
		x.S.Go("early", func() {
			n := 200
			if busy {
				n = 3000
			}
			for i := 0; i < n && !x.S.HsRet && (over || !x.S.Connected()); i++ {
				pre()
				if busy {
					s.K.Block("poll", func() bool { return x.S.HsRet || hs.Runnable() })
				} else {
					s.K.Sleep(time.Duration(1+s.C.Intn("poll", 10*i+2)) * time.Millisecond)
				}
			}
			x.noseDone = true
		})
	} else {
		x.noseDone = true
	}
	hs = x.S.Go("hs", func() {
		x.S.Handshake()
		if !x.S.Done {
			x.ST.Close()
			return
		}
		s.K.Block("early reader", func() bool { return x.noseDone })
		for {
			n, err := x.S.Read(buf[:sz], nil)
			x.S.Got = append(x.S.Got, buf[:max0(n)]...)
			if err != nil {
				x.S.ReadErr = err
				s.K.Logf("s Read -> %v", err)
				return
			}
		}
	})
	return x
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// judge compares what the server read with what the client wrote.
func (x *earlyRun) judge() {
	s, e := x.s, x.cf.E
	if s.Failed() || s.K.Limit || x.Quiet && s.K.Panicked() != nil || s.CheckPanics() {
		return
	}
	c, v := x.C.Conn.ConnectionState(), x.S.Conn.ConnectionState()
	if !x.Quiet && e.OK && (!x.C.Done || !x.S.Done) {
		s.Fail("handshake-broken", "the handshake does not complete (client %s, server %s): %s", x.C.status(), x.S.status(), s.K.Where())
		return
	}
	if x.C.Done && x.S.Done && c.UsingEarlyData != v.UsingEarlyData {
		s.Fail("verdicts-differ", "client reports early data %v, server %v", c.UsingEarlyData, v.UsingEarlyData)
		return
	}
	for _, p := range []*Peer{x.C, x.S} {
		if u := p.Conn.ConnectionState().UsingEarlyData; p.Done && u != e.Early {
			s.Fail("wrong-verdict", "%s reports early data %v, the configurations mean %v", p.Name, u, e.Early)
			return
		}
	}
	all := bytes.Join(x.writes, nil)
	got := x.S.Got
	if e.Early || e.EarlyOffer == false {
		if !bytes.HasPrefix(all, got) {
			x.wrong(all, got)
			return
		}
		if !x.Quiet && e.OK && len(got) != len(bytes.Join(x.writes[:x.ret], nil)) {
			s.Fail("early-data-lost", "s read %d bytes of %d", len(got), len(all))
		}
		return
	}
	// refused: what was written before completion is gone, all the rest is read
	var off []int // offsets where a suffix may begin
	at := 0
	for i := 0; i <= len(x.writes); i++ {
		if i >= x.early && i <= x.late {
			off = append(off, at)
		}
		if i < len(x.writes) {
			at += len(x.writes[i])
		}
	}
	for _, o := range off {
		if bytes.Equal(all[o:], got) || (x.Quiet || x.ret < len(x.writes)) && bytes.HasPrefix(all[o:], got) {
			return
		}
	}
	if len(got) > 0 && len(all) >= len(got) && bytes.Equal(all[:min(8, len(got))], got[:min(8, len(got))]) {
		s.Fail("refused-data-delivered", "s read %d bytes of refused early data", len(got))
		return
	}
	x.wrong(all, got)
}

func (x *earlyRun) wrong(all, got []byte) {
	i := 0
	for i < len(all) && i < len(got) && all[i] == got[i] {
		i++
	}
	x.s.Fail("early-data-wrong", "s read %d bytes, of which the first %d are what was written (%d bytes, accepted early: %v)", len(got), i, len(all), x.cf.E.Early)
}

func earlyTLS(s *Sim, hostile bool) {
	s.Sched()
	cf := s.GenConf(Gen{Incompat: s.CfgP(1, 6), PSK: 95, Resume: 50, Early: 85, Auth: 15, NB: 50, Tickets: 20, Cookie: 15})
	x := s.newEarly(cf, s.quickPol(), 40000)
	if hostile {
		x.Quiet = true
		s.Attack(x.Session, 1+s.Fault(3))
	}
	s.K.Run(s.Failed)
	x.judge()
	s.NonTriv = len(x.S.Got) > 0 || cf.E.EarlyOffer && !cf.E.Early && x.early > 0
	s.K.Probe(map[bool]string{true: "accepted", false: "not-accepted"}[cf.E.Early])
}

// earlyMismatch: server and client do not agree about the key.
func earlyMismatch(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 100, Resume: 60, Early: 100, Auth: 15, NB: 50, Tickets: 20, Cookie: 10})
	if cf.PSK == nil || len(cf.SStore.m) == 0 {
		return
	}
	id := hexID(cf.PSK.Identity)
	k := cf.SStore.m[id]
	switch s.FaultW(3, 2, 2, 2) {
	case 0:
		s.K.Fault("server-forgot-key")
		delete(cf.SStore.m, id)
	case 1:
		s.K.Fault("server-key-expired")
		k.ExpiresAt = time.Now().Add(-time.Minute)
		k.ReceivedAt = k.ExpiresAt.Add(-time.Hour)
		cf.SStore.m[id] = k
		if !k.ExpiresAt.Before(time.Now()) {
			return
		}
	case 2:
		s.K.Fault("server-forbids-early-data")
		cf.S.AllowEarlyData = false
	case 3:
		s.K.Fault("server-changed-protocols")
		cf.S.NextProtos = []string{"other"}
	}
	e := Predict(cf.C, cf.S)
	if kk, ok := cf.SStore.m[id]; ok && kk.ExpiresAt.Before(time.Now()) {
		delete(cf.SStore.m, id)
		e = Predict(cf.C, cf.S)
		cf.SStore.m[id] = kk
	}
	cf.E = e
	s.describe(cf)
	x := s.newEarly(cf, s.quickPol(), 20000)
	s.K.Run(s.Failed)
	x.judge()
	s.NonTriv = true
}

// earlyDTLS: the same over datagrams, which may be lost.
func earlyDTLS(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{DTLS: true, PSK: 95, Resume: 50, Early: 85, Auth: 15, NB: 100, Cookie: 15})
	lossy := s.CfgP(2, 3)
	pol := s.DPol(lossy)
	if lossy {
		s.FaultEnd = s.Dur("fault", 3*time.Second)
	}
	x := s.NewDSession("", 1, cf, pol)
	x.CPlan.Ops, x.SPlan.Ops = s.dgramPlan(3, 0), s.dgramPlan(3, 0)
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(1000)
	}
	x.Start()
	s.nose(x.S, cf, nil, func(b []byte) {
		for _, m := range x.early {
			if !cf.E.Early && (!x.S.Connected() || len(m) >= 8 && bytes.Contains(b, m)) {
				s.Fail("refused-data-delivered", "s read %d bytes of refused early data", len(b))
				return
			}
		}
		x.judgeMsg(x.S, b)
	})
	s.K.Run(s.Failed)
	x.FinishHs()
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	if !cf.E.Early {
		for _, m := range x.early {
			if len(m) >= 8 && x.S.countMsg(m) > 0 {
				s.Fail("refused-data-delivered", "s read a message of refused early data")
				return
			}
		}
	}
	s.NonTriv = len(x.early) > 0
}

// earlyOddClient: a client whose early data is unusual.
func earlyOddClient(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 100, Resume: 50, Early: 90, Auth: 20, NB: 50, Cookie: 15})
	cc := s.RefClient(cf)
	if len(cc.PSKs) == 0 {
		return
	}
	var did []string
	refused := string(cc.PSKs[0].ID) == "unknown" // by anything but the configuration
	mayFail := false
	cc.OfferEarly, cf.C.AllowEarlyData = true, true
	cc.Early = s.earlyWrites(20000)
	switch s.FaultW(3, 3, 2, 2, 2, 2, 2) {
	case 0:
	case 1:
		did = append(did, "early data with the second key")
		f := ref.PSK{ID: []byte("unknown"), Key: Pattern(3, 0, 32), Suite: 0x1301, Resumption: true, Obfuscated: 77}
		cc.PSKs = append([]ref.PSK{f}, cc.PSKs...)
		refused = true
	case 2:
		did = append(did, "wrong key")
		cc.PSKs[0].Key = Pattern(8, 0, 32)
		refused, mayFail = true, true
	case 3:
		did = append(did, "garbage instead of early data")
		cc.Early = nil
		refused, mayFail = true, true
		g := s.Fault(400)
		cc.EarlyAfter = func(c *ref.Conn) {
			c.SendRaw(rec(23, Pattern(66, 0, 17+g)))
		}
	case 4:
		did = append(did, "no early data after all")
		cc.Early = nil
	case 5:
		did = append(did, "old ticket")
		if cc.PSKs[0].Resumption {
			cc.PSKs[0].Obfuscated += 3600 * 1000
			refused, mayFail = true, true
		}
	case 6:
		did = append(did, "no end of early data")
		mayFail = true
	}
	for i := 0; i < len(did); i++ {
		s.K.Fault("odd " + did[i])
	}
	x := s.NewX("", 1, cf, false, s.quickPol())
	x.J = Judge{Stream: true}
	x.Quiet = true
	x.FPlan.Ops = []Op{{Kind: "write", N: 1 + s.Op(300)}, {Kind: "write", N: 1 + s.Op(3000)}}
	for _, b := range cc.Early {
		x.early = append(x.early, b...)
	}
	x.cf.E.EarlyOffer = true
	x.cf.E.Early = x.cf.E.PSK && cf.S.AllowEarlyData && !x.cf.E.Cookie && !refused
	var r *refEnd
	x.start(false, func(t net.Conn) foreign {
		r = s.newRef(t, cc, nil)
		if len(did) > 0 && did[0] == "no end of early data" {
			r.c.Hook = func(c *ref.Conn, name string, msg []byte) [][]byte {
				if name == "EOED" {
					return nil
				}
				return [][]byte{msg}
			}
		}
		return r
	})
	var idle func() bool
	x.after = func(p *Peer) { s.K.Block("early reader", func() bool { return idle() }) }
	idle = s.nose(x.S, cf, nil, func(b []byte) {
		if !x.cf.E.Early && !x.S.Connected() {
			s.Fail("refused-data-delivered", "s read %d bytes of refused early data", len(b))
			return
		}
		x.gotBytes(x.S, b)
	})
	s.K.Run(s.Failed)
	s.Param("client: %s", strings.Join(did, ", "))
	if s.Failed() || s.K.Panicked() != nil {
		return
	}
	s.NonTriv = true
	if !x.S.Done {
		if !mayFail {
			s.Fail("handshake-broken", "the handshake does not complete (server %s, client %v): %s", x.S.status(), x.FErr, s.K.Where())
		}
		return
	}
	if u := x.S.Conn.ConnectionState().UsingEarlyData; u != x.cf.E.Early {
		s.Fail("wrong-verdict", "s reports early data %v, it had to be %v (client: %s)", u, x.cf.E.Early, strings.Join(did, ", "))
		return
	}
	if x.FDone && x.f.View().Early != x.cf.E.Early {
		s.Fail("verdicts-differ", "the client was told early data %v, the server says %v", x.f.View().Early, x.cf.E.Early)
		return
	}
	if x.FDone && len(x.S.Got) != len(x.accepted(x.S)) {
		s.Fail("early-data-lost", "s read %d of %d bytes (%d early)", len(x.S.Got), len(x.accepted(x.S)), len(x.early))
	}
}

// earlyServer: mint is the client, an independent server takes or refuses.
func earlyServer(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 100, Resume: 50, Early: 90, Auth: 20, NB: 50, Cookie: 25})
	x := s.NewX("", 1, cf, true, s.quickPol())
	x.J = Judge{Stream: true}
	if cf.E.EarlyOffer {
		x.Early = s.earlyWrites(20000)
	}
	x.MPlan.Ops = []Op{{Kind: "write", N: 1 + s.Op(300)}, {Kind: "write", N: 1 + s.Op(3000)}}
	x.start(true, func(t net.Conn) foreign {
		sc := s.RefServer(cf)
		if cf.E.PSK {
			sc.Suites = refSuites
			if !cf.E.DH {
				sc.Modes = []int{0}
			}
		}
		return s.newRef(t, nil, sc)
	})
	s.K.Run(s.Failed)
	x.FinishX(true, "")
	s.NonTriv = x.M.Done && len(x.early) > 0
}
