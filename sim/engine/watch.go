package engine

import (
	"bytes"
	"fmt"

	"verif.local/sim/simrt"
)

// SealWatch judges every encryption the endpoints perform.
type SealWatch struct {
	s      *Sim
	used   map[string]string // key+nonce -> who
	owner  map[string]string // key -> node
	epoch  map[string]int    // key -> DTLS epoch
	retire map[string]bool   // node+key that a key update ended
	Keys   map[string]bool
	KU     bool // judge that updates change keys (TLS)
	KUs    map[string]int
	Seals  int
}

func (s *Sim) WatchSeals() *SealWatch {
	w := &SealWatch{s: s, used: map[string]string{}, owner: map[string]string{}, epoch: map[string]int{},
		retire: map[string]bool{}, Keys: map[string]bool{}, KUs: map[string]int{}}
	s.K.OnSeal = w.seal
	return w
}

func (w *SealWatch) seal(x simrt.Seal) {
	w.Seals++
	s := w.s
	id := x.Key + x.Nonce
	if o, ok := w.used[id]; ok {
		s.Fail("nonce-reuse", "%s encrypts %d bytes with key #%08x and nonce %x, which %s used before", x.Node, len(x.Plain), uint32(hash64([]byte(x.Key))), x.Nonce, o)
	}
	w.used[id] = x.Node
	record := len(x.AAD) == 5 && x.AAD[0] == 23 || len(x.AAD) == 13 && x.AAD[0] == 23
	if !record {
		return
	}
	w.Keys[x.Key] = true
	if o, ok := w.owner[x.Key]; ok && o != x.Node {
		s.Fail("key-shared", "%s and %s encrypt with the same key #%08x", o, x.Node, uint32(hash64([]byte(x.Key))))
	}
	w.owner[x.Key] = x.Node
	if len(x.AAD) == 13 {
		ep := int(x.AAD[3])<<8 | int(x.AAD[4])
		if o, ok := w.epoch[x.Key]; ok && o != ep {
			s.Fail("key-shared-epochs", "%s encrypts in epochs %d and %d with the same key", x.Node, o, ep)
		}
		w.epoch[x.Key] = ep
		return
	}
	if w.retire[x.Node+x.Key] && w.KU {
		s.Fail("key-not-updated", "%s still encrypts with the key its key update ended", x.Node)
	}
	p := bytes.TrimRight(x.Plain, "\x00")
	// inner plaintext: content, type
	if len(p) == 6 && p[5] == 22 && p[0] == 24 && p[1] == 0 && p[2] == 0 && p[3] == 1 || len(x.Plain) == 6 && x.Plain[5] == 22 && x.Plain[0] == 24 {
		w.retire[x.Node+x.Key] = true
		w.KUs[x.Node]++
	}
}

// WireWatch looks for secrets among the bytes an attacker sees.
type WireWatch struct {
	s       *Sim
	win     map[[8]byte]string // windows of secrets, either direction
	s2c     map[[8]byte]string // only secret from server to client
	allow   map[[8]byte]bool
	Scanned int
}

func (s *Sim) NewWireWatch() *WireWatch {
	return &WireWatch{s: s, win: map[[8]byte]string{}, s2c: map[[8]byte]string{}, allow: map[[8]byte]bool{}}
}

func addWindows(m map[[8]byte]string, what string, b []byte) {
	for i := 0; i+8 <= len(b); i += 8 {
		var w [8]byte
		copy(w[:], b[i:])
		// windows with little in them would be seen everywhere
		seen := map[byte]bool{}
		for _, c := range w {
			seen[c] = true
		}
		if len(seen) >= 4 {
			m[w] = what
		}
	}
}

// Allow marks bytes that may be seen.
func (w *WireWatch) Allow(b []byte) {
	for i := 0; i+8 <= len(b); i++ {
		var x [8]byte
		copy(x[:], b[i:])
		w.allow[x] = true
	}
}

// Secret adds bytes that must not be seen in either direction.
func (w *WireWatch) Secret(what string, b []byte)       { addWindows(w.win, what, b) }
func (w *WireWatch) ServerSecret(what string, b []byte) { addWindows(w.s2c, what, b) }

// Scan judges everything one direction carried.
func (w *WireWatch) Scan(c2s bool, b []byte) bool {
	w.Scanned += len(b)
	for i := 0; i+8 <= len(b); i++ {
		var x [8]byte
		copy(x[:], b[i:])
		what, ok := w.win[x]
		if !ok && !c2s {
			what, ok = w.s2c[x]
		}
		if ok && !w.allow[x] {
			w.s.Fail("leak "+what, "%s crosses the wire in the clear (%s, offset %d, %x)", what, dir(c2s), i, x[:])
			return false
		}
	}
	return true
}

func dir(c2s bool) string {
	if c2s {
		return "client to server"
	}
	return "server to client"
}

// clearDiscipline judges the order of clear and protected records of one TLS
// direction.
func (s *Sim) clearDiscipline(c2s bool, recs [][]byte, retried bool) bool {
	prot := 0
	var hs []byte
	hello2 := false
	for i, r := range recs {
		t := r[0]
		body := r[5:]
		switch {
		case t == 23:
			prot++
			continue
		case prot > 0 && c2s && retried && !hello2 && (t == 22 || t == 21):
			// a client that sent early data has no keys again once it is
			// told to start over
			if t == 21 {
				continue
			}
			prot, hello2 = 0, true
		case prot > 0:
			s.Fail("clear-after-keys", "record %d %s has type %d in the clear after %d protected records", i, dir(c2s), t, prot)
			return false
		case t == 21 || t == 20:
			continue
		case t != 22:
			s.Fail("clear-type", "record %d %s has type %d in the clear", i, dir(c2s), t)
			return false
		}
		hs = append(hs, body...)
		for len(hs) >= 4 {
			n := 4 + int(hs[1])<<16 + int(hs[2])<<8 + int(hs[3])
			want := byte(2)
			if c2s {
				want = 1
			}
			if hs[0] != want {
				s.Fail("clear-message", "handshake message type %d crosses the wire in the clear, %s", hs[0], dir(c2s))
				return false
			}
			if len(hs) < n {
				break
			}
			hs = hs[n:]
		}
	}
	return true
}

func isHRR(rec []byte) bool {
	h := [4]byte{0xCF, 0x21, 0xAD, 0x74}
	return len(rec) > 5+4+6 && rec[0] == 22 && rec[5] == 2 && bytes.Equal(rec[5+6:5+10], h[:])
}

var _ = fmt.Sprint
