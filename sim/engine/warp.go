package engine

import (
	"encoding/binary"

	"verif.local/sim/ref"
)

// Malformed input: messages whose structure is wrong at some level, made from
// right ones.

func (s *Sim) rnd(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(s.Fault(256))
	}
	return b
}

// oddByte is a value that tends to matter.
func (s *Sim) oddByte() byte {
	return []byte{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff, byte(s.Fault(256))}[s.Fault(9)]
}

// tweak changes bytes without changing the length.
func (s *Sim) tweak(b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	for n := 1 + s.FaultW(4, 1, 1); n > 0; n-- {
		i := s.Fault(len(b))
		if s.FaultP(1, 2) { // near the start, where the lengths are
			i = s.Fault(min(len(b), 12))
		}
		switch s.Fault(5) {
		case 0:
			b[i] ^= 1 << s.Fault(8)
		case 1:
			b[i] = s.oddByte()
		case 2:
			b[i]++
		case 3:
			b[i]--
		case 4:
			for j := i; j < len(b) && j < i+2+s.Fault(40); j++ {
				b[j] = 0
			}
		}
	}
	return b
}

// resize changes the length.
func (s *Sim) resize(b []byte) []byte {
	switch s.Fault(6) {
	case 0:
		return nil
	case 1:
		if len(b) > 0 {
			return append([]byte{}, b[:len(b)-1]...)
		}
	case 2:
		if len(b) > 0 {
			return append([]byte{}, b[:s.Fault(len(b))]...)
		}
	case 3:
		return append(append([]byte{}, b...), s.oddByte())
	case 4:
		return append(append([]byte{}, b...), s.rnd(s.Fault(70))...)
	case 5: // a piece out of the middle, or twice
		if len(b) > 2 {
			i := s.Fault(len(b) - 1)
			j := i + 1 + s.Fault(min(len(b)-i, 40))
			if j > len(b) {
				j = len(b)
			}
			if s.FaultP(1, 2) {
				return append(append([]byte{}, b[:i]...), b[j:]...)
			}
			return append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		}
	}
	return append(append([]byte{}, b...), s.rnd(1)...)
}

// extsAt finds the extension block of a message body.
func extsAt(typ byte, b []byte) int {
	at := 0
	skip := func(n int) bool { at += n; return at <= len(b) }
	v8 := func() bool { return at < len(b) && skip(1+int(b[at])) }
	v16 := func() bool { return at+1 < len(b) && skip(2+int(b[at])<<8+int(b[at+1])) }
	ok := false
	switch typ {
	case ref.HTClientHello:
		ok = skip(34) && v8() && v16() && v8()
		if !ok { // DTLS: a cookie field
			at = 0
		}
	case ref.HTServerHello:
		ok = skip(34) && v8() && skip(3)
	case ref.HTEncExt:
		ok = true
	case ref.HTTicket:
		ok = skip(8) && v8() && v16()
	case ref.HTCertReq:
		ok = v8()
	case ref.HTCert:
		// the first entry's
		ok = v8() && skip(3)
		if ok && at+3 <= len(b) {
			ok = skip(3 + int(b[at])<<16 + int(b[at+1])<<8 + int(b[at+2]))
		}
	}
	if !ok || at+2 > len(b) {
		return -1
	}
	return at
}

// weirdShare is a public value that is not one.
func (s *Sim) weirdShare(group int) []byte {
	n := map[int]int{23: 65, 24: 97, 25: 133, 29: 32, 256: 256, 257: 384, 258: 512}[group]
	if n == 0 {
		n = 32
	}
	if s.FaultP(1, 4) {
		n += s.Fault(3) - 1
	}
	b := make([]byte, n)
	switch s.Fault(6) {
	case 0:
	case 1:
		b[n-1] = 1
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		copy(b, s.rnd(min(n, 20)))
	case 4:
		b = b[:s.Fault(n)]
	case 5:
		copy(b[1:], s.rnd(min(n-1, 20)))
	}
	if len(b) > 0 && group < 29 && s.FaultP(3, 4) {
		b[0] = []byte{4, 4, 4, 2, 3, 0}[s.Fault(6)]
	}
	return b
}

var someExts = []int{ref.ExtSNI, ref.ExtGroups, ref.ExtSigAlgs, ref.ExtALPN, ref.ExtPSK, ref.ExtEarly, ref.ExtVersions, ref.ExtCookie, ref.ExtPSKModes, ref.ExtKeyShare, 5, 18, 21, 47, 48, 50, 0xff01, 0xabab}

// strangeExt is data for an extension, shaped like it or not.
func (s *Sim) strangeExt(typ int, hello byte) []byte {
	g := []int{23, 24, 25, 29, 30, 256, 257, 258, 0, 0xffff, 0x0a0a}[s.Fault(11)]
	v16 := func(b []byte) []byte { return append(u16b(len(b)), b...) }
	switch typ {
	case ref.ExtKeyShare:
		if hello == ref.HTServerHello && s.FaultP(1, 4) {
			return u16b(g)
		}
		e := append(u16b(g), v16(s.weirdShare(g))...)
		if hello == ref.HTServerHello {
			return e
		}
		for n := s.Fault(3); n > 0; n-- {
			h := []int{23, 29, 25, 256}[s.Fault(4)]
			e = append(e, append(u16b(h), v16(s.weirdShare(h))...)...)
		}
		return v16(e)
	case ref.ExtPSK:
		if hello == ref.HTServerHello {
			return u16b([]int{0, 1, 255, 65535}[s.Fault(4)])
		}
		var ids, bs []byte
		for n := s.Fault(4); n > 0; n-- {
			ids = append(append(ids, v16(s.rnd(s.Fault(9)))...), s.rnd(4)...)
		}
		for n := s.Fault(4); n > 0; n-- {
			b := s.rnd([]int{32, 48, 0, 1, 31}[s.Fault(5)])
			bs = append(append(bs, byte(len(b))), b...)
		}
		return append(v16(ids), v16(bs)...)
	case ref.ExtVersions:
		if hello == ref.HTServerHello {
			return u16b([]int{0x0304, 0x0303, 0, 0xffff}[s.Fault(4)])
		}
		v := s.rnd(s.Fault(6))
		return append([]byte{byte(len(v))}, v...)
	case ref.ExtCookie:
		return v16(s.rnd([]int{0, 1, 20, 400}[s.Fault(4)]))
	case ref.ExtSNI:
		n := s.rnd(s.Fault(5))
		return v16(append([]byte{s.oddByte() & 1}, v16(n)...))
	case ref.ExtALPN:
		var l []byte
		for n := s.Fault(4); n > 0; n-- {
			p := s.rnd(s.Fault(4))
			l = append(append(l, byte(len(p))), p...)
		}
		return v16(l)
	case ref.ExtGroups, ref.ExtSigAlgs:
		return v16(s.rnd(s.Fault(9)))
	case ref.ExtPSKModes:
		m := s.rnd(s.Fault(4))
		return append([]byte{byte(len(m))}, m...)
	case ref.ExtEarly:
		return s.rnd([]int{0, 4, 1, 3}[s.Fault(4)])
	}
	return s.rnd(s.Fault(30))
}

// warpPSK makes the identities and binders of an offer disagree in number.
func (s *Sim) warpPSK(d []byte) []byte {
	split := func(b []byte) (l, rest []byte) {
		if len(b) < 2 || len(b) < 2+int(b[0])<<8+int(b[1]) {
			return nil, nil
		}
		n := int(b[0])<<8 + int(b[1])
		return append([]byte{}, b[2:2+n]...), b[2+n:]
	}
	ids, rest := split(d)
	bs, _ := split(rest)
	switch s.Fault(4) {
	case 0: // identities before those that have binders
		var more []byte
		for n := 1 + s.Fault(3); n > 0; n-- {
			id := s.rnd(1 + s.Fault(40))
			more = append(append(append(more, u16b(len(id))...), id...), 0, 0, 0, 0)
		}
		ids = append(more, ids...)
	case 1:
		ids = append(ids, ids...)
	case 2:
		bs = nil
	case 3:
		if len(bs) > 0 {
			bs = append(append([]byte{}, bs...), bs[:1+int(bs[0])]...)
		}
	}
	d = append(u16b(len(ids)), ids...)
	return append(append(d, u16b(len(bs))...), bs...)
}

// warpExts changes the extensions of a body and keeps the block well formed.
func (s *Sim) warpExts(typ byte, b []byte) []byte {
	at := extsAt(typ, b)
	if at < 0 {
		return nil
	}
	end := at + 2 + int(b[at])<<8 + int(b[at+1])
	if end > len(b) {
		return nil
	}
	type ext struct {
		t int
		d []byte
	}
	var ex []ext
	for p := b[at+2 : end]; len(p) >= 4; {
		n := int(p[2])<<8 + int(p[3])
		if len(p) < 4+n {
			return nil
		}
		ex = append(ex, ext{int(p[0])<<8 + int(p[1]), append([]byte{}, p[4:4+n]...)})
		p = p[4+n:]
	}
	for n := 1 + s.FaultW(4, 1); n > 0; n-- {
		if k := len(ex) - 1; k >= 0 && typ == ref.HTClientHello && ex[k].t == ref.ExtPSK && s.FaultP(1, 4) {
			ex[k].d = s.warpPSK(ex[k].d)
			continue
		}
		if len(ex) == 0 || s.FaultP(1, 5) {
			t := someExts[s.Fault(len(someExts))]
			ex = append(ex, ext{t, s.strangeExt(t, typ)})
			continue
		}
		i := s.Fault(len(ex))
		switch s.Fault(7) {
		case 0:
			ex[i].d = s.tweak(ex[i].d)
		case 1:
			ex[i].d = s.resize(ex[i].d)
		case 2, 3:
			ex[i].d = s.strangeExt(ex[i].t, typ)
		case 4:
			ex = append(ex, ex[i])
		case 5:
			ex = append(ex[:i:i], ex[i+1:]...)
		case 6:
			ex[i].t = someExts[s.Fault(len(someExts))]
		}
	}
	var l []byte
	for _, e := range ex {
		l = append(append(append(l, u16b(e.t)...), u16b(len(e.d))...), e.d...)
	}
	if len(l) > 0xffff {
		l = l[:0xffff]
	}
	out := append([]byte{}, b[:at]...)
	out = append(append(out, u16b(len(l))...), l...)
	tail := b[end:]
	if typ == ref.HTCert {
		// the entries' total
		out = append(out, tail...)
		c := 1 + int(out[0])
		k := len(out) - c - 3
		out[c], out[c+1], out[c+2] = byte(k>>16), byte(k>>8), byte(k)
		return out
	}
	return append(out, tail...)
}

// warp makes a wrong message of a right one; it has a 4-byte header.
func (s *Sim) warp(m []byte) []byte {
	if len(m) < 4 {
		return s.rnd(s.Fault(8))
	}
	typ, body := m[0], m[4:]
	switch s.FaultW(4, 3, 6, 1, 1, 2, 1) {
	case 0:
		return ref.Msg(int(typ), s.tweak(body))
	case 1:
		return ref.Msg(int(typ), s.resize(body))
	case 2:
		if b := s.warpExts(typ, body); b != nil {
			return ref.Msg(int(typ), b)
		}
		return s.warpBody(typ, body)
	case 3: // the header lies
		o := append([]byte{}, m...)
		k := 1 + s.Fault(3)
		o[k] = s.oddByte()
		return o
	case 4:
		o := append([]byte{}, m...)
		o[0] = byte(s.Fault(30))
		return o
	case 5:
		return s.warpBody(typ, body)
	}
	return s.rnd(s.Fault(60))
}

// warpBody knows what some messages contain.
func (s *Sim) warpBody(typ byte, b []byte) []byte {
	t := int(typ)
	switch t {
	case ref.HTCert:
		// entries that are not certificates
		var l []byte
		for n := s.Fault(4); n > 0; n-- {
			c := s.rnd([]int{0, 1, 20, 300}[s.Fault(4)])
			if s.FaultP(1, 2) {
				c = append([]byte{}, PKI[append(append([]string{}, badChains...), goodChains...)[s.Fault(len(badChains)+len(goodChains))]].Chain[0].Raw...)
				if s.FaultP(2, 3) {
					c = s.tweak(c)
				}
			}
			l = append(append(l, 0, byte(len(c)>>8), byte(len(c))), c...)
			l = append(l, 0, 0)
		}
		return ref.Msg(t, append([]byte{0, 0, byte(len(l) >> 8), byte(len(l))}, l...))
	case ref.HTCertVerify:
		sig := s.rnd([]int{0, 1, 8, 70, 256}[s.Fault(5)])
		if s.FaultP(1, 3) { // an ASN.1 pair of integers
			r := s.rnd(1 + s.Fault(33))
			q := s.rnd(s.Fault(33))
			in := append(append([]byte{2, byte(len(r))}, r...), append([]byte{2, byte(len(q))}, q...)...)
			sig = append([]byte{48, byte(len(in))}, in...)
		}
		sch := []int{0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0401, 0x0807, 0, 0xffff}[s.Fault(10)]
		return ref.Msg(t, append(append(u16b(sch), u16b(len(sig))...), sig...))
	case ref.HTFinished:
		return ref.Msg(t, s.rnd([]int{0, 1, 31, 32, 33, 48, 64, 1000}[s.Fault(8)]))
	case ref.HTKeyUpdate:
		return ref.Msg(t, s.rnd(s.Fault(4)))
	case ref.HTTicket:
		v := s.rnd(8)
		n := s.rnd(s.Fault(20))
		id := s.rnd(s.Fault(200))
		v = append(append(v, byte(len(n))), n...)
		v = append(append(v, u16b(len(id))...), id...)
		d := s.strangeExt(ref.ExtEarly, 4)
		x := append(append(u16b(42), u16b(len(d))...), d...)
		return ref.Msg(t, append(append(v, u16b(len(x))...), x...))
	case ref.HTClientHello, ref.HTServerHello:
		if len(b) > 36 {
			o := append([]byte{}, b...)
			switch s.Fault(3) {
			case 0:
				o[34] = s.oddByte() // session id length
			case 1:
				i := 35 + int(o[34])
				if i+1 < len(o) {
					o[i], o[i+1] = s.oddByte(), s.oddByte()
				}
			case 2:
				o[0], o[1] = s.oddByte(), s.oddByte()
			}
			return ref.Msg(t, o)
		}
	}
	return ref.Msg(t, s.resize(b))
}

// warpRecord is a wrong TLS record of a right one.
func (s *Sim) warpRecord(r []byte) [][]byte {
	body := r[5:]
	switch s.FaultW(6, 2, 2, 1, 1, 1, 1) {
	case 0:
		if r[0] == 22 {
			b := s.warp(body)
			if len(b) <= 1<<14 {
				return [][]byte{rec(22, b)}
			}
		}
		return [][]byte{rec(r[0], s.tweak(body))}
	case 1:
		b := s.resize(body)
		return [][]byte{rec(r[0], b)}
	case 2: // the header lies
		return [][]byte{append(s.tweak(r[:5]), body...)}
	case 3:
		return [][]byte{rec([]byte{20, 21, 22, 23, 24, 26, 0, 255}[s.Fault(8)], body)}
	case 4:
		return [][]byte{s.rnd(1 + s.Fault(40)), r}
	case 5:
		var out [][]byte
		for n := 1 + s.Fault(8); n > 0; n-- {
			out = append(out, rec([]byte{20, 21, 22, 23}[s.Fault(4)], s.rnd(s.FaultW(2, 2, 1)*s.Fault(3))))
		}
		return append(out, r)
	}
	n := []int{0, 1, 16384, 16385, 16640, 16641, 65535}[s.Fault(7)]
	return [][]byte{rec([]byte{22, 23, 21}[s.Fault(3)], make([]byte, n)), r}
}

// warpFrag changes a DTLS handshake fragment, header included, in place.
func (s *Sim) warpFrag(b []byte) []byte {
	o := append([]byte{}, b...)
	if len(o) < 12 {
		return s.tweak(o)
	}
	put24 := func(i, v int) { o[i], o[i+1], o[i+2] = byte(v>>16), byte(v>>8), byte(v) }
	get24 := func(i int) int { return int(o[i])<<16 + int(o[i+1])<<8 + int(o[i+2]) }
	odd := func(v int) int {
		return []int{0, 1, v - 1, v + 1, v * 2, v / 2, 1<<24 - 1, 1 << 16, 1<<24 - v, len(b) - 12, s.Fault(1 << 24)}[s.Fault(11)] & (1<<24 - 1)
	}
	for n := 1 + s.FaultW(4, 2, 1); n > 0; n-- {
		switch s.Fault(7) {
		case 0:
			put24(1, odd(get24(1)))
		case 1:
			put24(6, odd(get24(6)))
		case 2:
			put24(9, odd(get24(9)))
		case 3:
			binary.BigEndian.PutUint16(o[4:], uint16(odd(int(o[4])<<8+int(o[5]))))
		case 4:
			o[0] = byte(s.Fault(30))
		case 5:
			// consistently another fragmentation
			n := len(o) - 12
			off := s.Fault(n + 2)
			put24(6, off)
			put24(9, n)
			put24(1, off+n+s.Fault(3)-1)
		case 6:
			copy(o[12:], s.tweak(o[12:]))
		}
	}
	return o
}

// warpDgram is a wrong datagram of a right one.
func (s *Sim) warpDgram(d []byte) []byte {
	if len(d) < 13 {
		return s.tweak(d)
	}
	o := append([]byte{}, d...)
	fix := func(b []byte) []byte { // a record with the right length
		x := append(append([]byte{}, d[:11]...), u16b(len(b))...)
		return append(x, b...)
	}
	switch s.FaultW(5, 3, 2, 2, 1, 1, 1) {
	case 0:
		if o[0] == 22 && o[3] == 0 && o[4] == 0 {
			return fix(s.warpFrag(d[13:]))
		}
		return fix(s.tweak(d[13:]))
	case 1:
		// a message of another length, in one fragment
		if o[0] == 22 && len(o) > 25 {
			m := append([]byte{d[13], 0, 0, 0}, d[25:]...)
			w := s.warp(m)
			if len(w) < 4 {
				return fix(w)
			}
			h := append([]byte{w[0], byte((len(w) - 4) >> 16), byte((len(w) - 4) >> 8), byte(len(w) - 4), d[17], d[18], 0, 0, 0, byte((len(w) - 4) >> 16), byte((len(w) - 4) >> 8), byte(len(w) - 4)}, w[4:]...)
			return fix(h)
		}
		return fix(s.resize(d[13:]))
	case 2:
		return append(s.tweak(o[:13]), o[13:]...)
	case 3:
		return s.resize(o)
	case 4:
		return fix(nil)
	case 5:
		return append(o, s.tweak(d)...)
	}
	return s.rnd(s.Fault(80))
}
