package engine

import (
	"bytes"

	"verif.local/sim/ref"
)

// Mitm is an attacker in the path of a TLS connection.
type Mitm struct {
	s       *Sim
	x       *Session
	rate    int // per cent of records it interferes with
	left    int // edits left
	held    [2][]byte
	seen    [2][][]byte
	Foreign [][]byte // records of other connections
	Edits   int
	from    int // records to let pass first
	n       int
	Sem     bool      // may edit hellos by meaning
	sent    [][]byte  // what it sent instead
	orig    [2][]byte // handshake messages in the clear: as they were sent
	deliv   [2][]byte // and as they were passed on
}

// Attack puts an attacker between the ends of a session.
func (s *Sim) Attack(x *Session, edits int) *Mitm {
	m := &Mitm{s: s, x: x, left: edits, rate: []int{30, 15, 60, 100}[s.Fault(4)], from: s.Fault(2) * s.Fault(8), Sem: true}
	x.CT.Out.Mangle = func(r []byte) [][]byte { return m.mangle(0, r) }
	x.ST.Out.Mangle = func(r []byte) [][]byte { return m.mangle(1, r) }
	return m
}

func (m *Mitm) mangle(d int, rec []byte) [][]byte {
	s := m.s
	r := append([]byte{}, rec...)
	m.seen[d] = append(m.seen[d], rec)
	var out [][]byte
	m.n++
	if m.left <= 0 || m.n <= m.from || !s.FaultP(m.rate, 100) {
		out = [][]byte{r}
	} else {
		m.left--
		m.Edits++
		out = m.edit(d, r)
		m.sent = append(m.sent, out...)
	}
	if h := m.held[d]; h != nil && len(out) > 0 {
		m.held[d] = nil
		out = append(out, h)
	}
	m.orig[d] = clearMessages(m.orig[d], rec)
	for _, o := range out {
		m.deliv[d] = clearMessages(m.deliv[d], o)
	}
	return out
}

func clearMessages(b, r []byte) []byte {
	if len(r) > 5 && r[0] == 22 {
		b = append(b, r[5:]...)
	}
	return b
}

// transcript fails if an endpoint completed although a handshake message sent
// in the clear did not arrive as it was sent: both ends' keys cover them all.
func (m *Mitm) transcript() {
	for _, p := range []*Peer{m.x.C, m.x.S} {
		if !p.Done || m.s.Failed() {
			continue
		}
		for d := range m.orig {
			if !bytes.HasPrefix(m.deliv[d], m.orig[d]) && !m.retried(d) {
				m.s.Fail("tampering-missed", "%s completed although the handshake messages of the %s were changed: %s was sent, %s arrived", p.Name, dir(d == 0), short(m.orig[d]), short(m.deliv[d]))
				return
			}
		}
	}
}

// retried tells whether all that became of the messages is that the client's
// first hello was repeated, or that the client got another of the answers to
// it. A server that asks for a cookie keeps nothing of a hello without one, so
// each copy gets a fresh answer, and any of them will do.
func (m *Mitm) retried(d int) bool {
	if !m.x.cf.S.RequireCookie {
		return false
	}
	sent, got := helloMsgs(m.orig[d]), helloMsgs(m.deliv[d])
	if d == 0 {
		for len(got) > 1 && len(sent) > 0 && bytes.Equal(got[0], sent[0]) && bytes.Equal(got[1], sent[0]) {
			got = got[1:]
		}
	} else if len(got) > 0 && isHRR(rec(22, got[0])) {
		known := false
		for len(sent) > 0 && isHRR(rec(22, sent[0])) {
			known = known || bytes.Equal(sent[0], got[0])
			sent = sent[1:]
		}
		if !known {
			return false
		}
		got = got[1:]
	}
	return bytes.HasPrefix(bytes.Join(got, nil), bytes.Join(sent, nil))
}

// helloMsgs are the messages of a stream; the last may be incomplete.
func helloMsgs(b []byte) (l [][]byte) {
	for len(b) >= 4 {
		n := min(len(b), 4+int(b[1])<<16+int(b[2])<<8+int(b[3]))
		l, b = append(l, b[:n]), b[n:]
	}
	if len(b) > 0 {
		l = append(l, b)
	}
	return l
}

func rec(t byte, b []byte) []byte {
	return append([]byte{t, 3, 3, byte(len(b) >> 8), byte(len(b))}, b...)
}

func (m *Mitm) edit(d int, r []byte) [][]byte {
	s := m.s
	log := func(f string) {
		s.K.Fault("wire-" + f)
		s.K.Logf("attacker: %s on %s record of type %d, %d bytes", f, dir(d == 0), r[0], len(r))
	}
	if m.Sem && r[0] == 22 && len(r) > 9 && (r[5] == 1 || r[5] == 2) && s.FaultP(3, 5) {
		if o := m.semantic(d, r); o != nil {
			log("edit-hello")
			return [][]byte{o}
		}
	}
	switch s.Fault(14) {
	case 0:
		log("flip")
		for n := 1 + s.Fault(3); n > 0; n-- {
			i := s.Fault(len(r))
			if s.FaultP(2, 3) && len(r) > 5 {
				i = 5 + s.Fault(len(r)-5)
			}
			if i == 3 { // a length that never comes only stalls
				i = 4
			}
			r[i] ^= 1 << s.Fault(8)
		}
		return [][]byte{r}
	case 1:
		log("drop")
		return nil
	case 2:
		log("duplicate")
		return [][]byte{r, r}
	case 3:
		if m.held[d] == nil {
			log("swap")
			m.held[d] = r
			return nil
		}
	case 4:
		log("truncate")
		if n := len(r) - 5; n > 1 {
			k := s.Fault(n)
			return [][]byte{rec(r[0], r[5:5+k])}
		}
	case 5:
		log("split")
		if n := len(r) - 5; n > 1 {
			k := 1 + s.Fault(n-1)
			return [][]byte{rec(r[0], r[5:5+k]), rec(r[0], r[5+k:])}
		}
	case 6:
		log("inject-alert")
		lv := []byte{1, 2, 0, 77}[s.Fault(4)]
		a := []byte{0, 10, 20, 40, 47, 90, 255, 254, 253, 100}[s.Fault(10)]
		b := []byte{lv, a}
		if s.FaultP(1, 6) {
			b = b[:1]
		}
		return [][]byte{rec(21, b), r}
	case 7:
		log("inject-ccs")
		return [][]byte{rec(20, []byte{1}), r}
	case 8:
		log("inject-app")
		return [][]byte{rec(23, Pattern(91, 0, s.Fault(60))), r}
	case 9:
		log("replay")
		src := m.seen[s.Fault(2)]
		if len(src) > 0 {
			return [][]byte{append([]byte{}, src[s.Fault(len(src))]...), r}
		}
	case 10:
		log("replace-foreign")
		if len(m.Foreign) > 0 {
			f := append([]byte{}, m.Foreign[s.Fault(len(m.Foreign))]...)
			if s.FaultP(1, 2) {
				return [][]byte{f}
			}
			return [][]byte{f, r}
		}
	case 11:
		log("retype")
		r[0] = []byte{20, 21, 22, 23, 24, 25, 0}[s.Fault(7)]
		return [][]byte{r}
	case 12:
		log("inject-handshake")
		return [][]byte{rec(22, s.forgedMessage()), r}
	case 13:
		log("append")
		b := append(append([]byte{}, r[5:]...), Pattern(92, 0, 1+s.Fault(20))...)
		return [][]byte{rec(r[0], b)}
	}
	return [][]byte{r}
}

// forgedMessage is a handshake message an attacker without keys can make.
func (s *Sim) forgedMessage() []byte {
	t := []int{ref.HTFinished, ref.HTKeyUpdate, ref.HTTicket, ref.HTEndEarly, ref.HTEncExt, ref.HTCertReq, ref.HTCert, ref.HTCertVerify, 0, 254}[s.Fault(10)]
	switch t {
	case ref.HTKeyUpdate:
		return ref.Msg(t, []byte{byte(s.Fault(3))})
	case ref.HTEncExt:
		return ref.Msg(t, []byte{0, 0})
	case ref.HTEndEarly, 0:
		return ref.Msg(t, nil)
	case ref.HTCertReq:
		return ref.Msg(t, []byte{0, 0, 8, 0, 13, 0, 4, 0, 2, 4, 3})
	case ref.HTCert:
		return ref.Msg(t, []byte{0, 0, 0, 0})
	}
	return ref.Msg(t, Pattern(93, 0, []int{32, 48, 0, 5}[s.Fault(4)]))
}

// semantic rewrites a hello so that it stays well formed.
func (m *Mitm) semantic(d int, r []byte) []byte {
	b := m.s.editHello(r[5:])
	if b == nil {
		return nil
	}
	return rec(22, b)
}

func permute[T any](s *Sim, x []T) []T {
	y := append([]T{}, x...)
	for i := len(y) - 1; i > 0; i-- {
		j := s.Fault(i + 1)
		y[i], y[j] = y[j], y[i]
	}
	return y
}

// editHello edits one hello message by meaning; nil if it cannot.
func (s *Sim) editHello(msg []byte) []byte {
	if len(msg) < 4 || len(msg) != 4+int(msg[1])<<16+int(msg[2])<<8+int(msg[3]) {
		return nil
	}
	if msg[0] == 1 {
		ch, err := ref.ParseClientHello(msg[4:], false)
		if err != nil {
			return nil
		}
		switch s.Fault(8) {
		case 0:
			ch.Suites = permute(s, ch.Suites)
			if s.FaultP(1, 2) && len(ch.Suites) > 1 {
				ch.Suites = ch.Suites[:1]
			}
		case 1:
			ch.Random[s.Fault(32)] ^= 1
		case 2:
			ch.SessionID = Pattern(94, 0, 32)
		default:
			ch.Exts = s.editExts(ch.Exts, true)
		}
		return ref.Msg(1, ch.Marshal())
	}
	sh, err := ref.ParseServerHello(msg[4:])
	if err != nil {
		return nil
	}
	switch s.Fault(7) {
	case 0:
		sh.Suite ^= 3
	case 1:
		sh.Random[s.Fault(32)] ^= 1
	case 2:
		// turn it into a retry
		sh.Random = ref.HRRRandom()
		sh.Exts = ref.Exts{{Type: ref.ExtVersions, Data: []byte{3, 4}}, {Type: ref.ExtCookie, Data: ref.V16([]byte("cookie"))}}
	case 3:
		sh.SessionID = Pattern(95, 0, 32)
	default:
		sh.Exts = s.editExts(sh.Exts, false)
	}
	return ref.Msg(2, sh.Marshal())
}

func u16b(v int) []byte { return []byte{byte(v >> 8), byte(v)} }

func (s *Sim) editExts(e ref.Exts, client bool) ref.Exts {
	if len(e) == 0 {
		return e
	}
	i := s.Fault(len(e))
	out := append(ref.Exts{}, e...)
	x := ref.Ext{Type: e[i].Type, Data: append([]byte{}, e[i].Data...)}
	switch s.Fault(8) {
	case 0: // remove
		return append(out[:i:i], out[i+1:]...)
	case 1: // flip
		if len(x.Data) > 0 {
			x.Data[s.Fault(len(x.Data))] ^= 1 << s.Fault(8)
		}
	case 2: // reorder
		return permute(s, out)
	case 3: // repeat
		return append(out, x)
	case 4: // add
		y := ref.Ext{Type: []int{ref.ExtEarly, ref.ExtCookie, ref.ExtALPN, ref.ExtPSK, ref.ExtPSKModes, ref.ExtSNI, 0x1234, ref.ExtVersions}[s.Fault(8)]}
		switch y.Type {
		case ref.ExtCookie:
			y.Data = ref.V16([]byte("cookie"))
		case ref.ExtALPN:
			y.Data = ref.V16(ref.V8([]byte("h2")))
		case ref.ExtPSK:
			y.Data = []byte{0, 0}
		case ref.ExtPSKModes:
			y.Data = ref.V8([]byte{byte(s.Fault(2))})
		case ref.ExtSNI:
			y.Data = ref.V16(append([]byte{0}, ref.V16([]byte(nameB))...))
		case ref.ExtVersions:
			y.Data = []byte{3, 4}
			if client {
				y.Data = ref.V8([]byte{3, 4, 3, 3})
			}
		}
		return append(ref.Exts{y}, out...)
	case 5: // list surgery: drop the first element of a two-byte list
		switch x.Type {
		case ref.ExtGroups, ref.ExtSigAlgs:
			if len(x.Data) > 4 {
				x.Data = ref.V16(x.Data[4:])
			}
		case ref.ExtVersions:
			x.Data = ref.V8([]byte{3, 3})
			if !client {
				x.Data = []byte{3, 3}
			}
		case ref.ExtPSKModes:
			x.Data = ref.V8([]byte{byte(s.Fault(2))})
		case ref.ExtALPN:
			if l := len(x.Data); l > 3 {
				n := int(x.Data[2])
				if 3+n < l {
					x.Data = ref.V16(x.Data[3+n:])
				}
			}
		case ref.ExtSNI:
			x.Data = ref.V16(append([]byte{0}, ref.V16([]byte(nameB))...))
		case ref.ExtKeyShare:
			if client && len(x.Data) > 6 {
				n := 4 + int(x.Data[4])<<8 + int(x.Data[5])
				if 2+n < len(x.Data) {
					x.Data = ref.V16(x.Data[2+n:])
				}
			}
		}
	case 6: // other group or identity
		switch x.Type {
		case ref.ExtKeyShare:
			if !client && len(x.Data) > 2 {
				copy(x.Data, u16b([]int{23, 24, 29, 256}[s.Fault(4)]))
			}
		case ref.ExtPSK:
			if !client {
				x.Data = []byte{0, byte(s.Fault(3))}
			}
		}
	case 7:
		x.Data = append(x.Data, 0)
	}
	out[i] = x
	return out
}
