// Package ref is a TLS 1.3 endpoint written from RFC 8446 for the simulator.
// It shares no code with mint.  Every message it sends passes a hook, so that
// it can also play a hostile peer that holds genuine keys.
package ref

import (
	"errors"
	"fmt"
)

// Handshake message types.
const (
	HTClientHello    = 1
	HTServerHello    = 2
	HTTicket         = 4
	HTEndEarly       = 5
	HTEncExt         = 8
	HTCert           = 11
	HTCertReq        = 13
	HTCertVerify     = 15
	HTFinished       = 20
	HTKeyUpdate      = 24
	HTMessageHash    = 254
	RTCCS            = 20
	RTAlert          = 21
	RTHandshake      = 22
	RTApp            = 23
	RTAck            = 25
	ExtSNI           = 0
	ExtGroups        = 10
	ExtSigAlgs       = 13
	ExtALPN          = 16
	ExtPSK           = 41
	ExtEarly         = 42
	ExtVersions      = 43
	ExtCookie        = 44
	ExtPSKModes      = 45
	ExtKeyShare      = 51
	GroupP256        = 23
	GroupP384        = 24
	GroupP521        = 25
	GroupX25519      = 29
	GroupFFDHE2048   = 256
	SuiteAES128      = 0x1301
	SuiteAES256      = 0x1302
	AlertClose       = 0
	AlertUnexpected  = 10
	AlertBadMAC      = 20
	AlertHSFail      = 40
	AlertBadCert     = 42
	AlertIllegal     = 47
	AlertDecode      = 50
	AlertDecrypt     = 51
	AlertVersion     = 70
	AlertInternal    = 80
	AlertCanceled    = 90
	AlertMissingExt  = 109
	AlertUnsupported = 110
	AlertNoALPN      = 120
)

var hrrRandom = [32]byte{
	0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91,
	0xC2, 0xA2, 0x11, 0x16, 0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C}

// HRRRandom is the random value that marks a HelloRetryRequest.
func HRRRandom() [32]byte { return hrrRandom }

// Err is a protocol violation the reference endpoint found, with the alert it
// answers with.
type Err struct {
	Alert int
	Msg   string
}

func (e *Err) Error() string { return fmt.Sprintf("ref: %s (alert %d)", e.Msg, e.Alert) }

func fail(a int, f string, args ...interface{}) error { return &Err{a, fmt.Sprintf(f, args...)} }

// PeerAlert is an alert the peer sent.
type PeerAlert struct{ Level, Desc int }

func (e PeerAlert) Error() string { return fmt.Sprintf("ref: peer alert level %d %d", e.Level, e.Desc) }

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) n(n int) []byte {
	if r.bad || n > len(r.b) {
		r.bad = true
		return make([]byte, n&0xffff)
	}
	x := r.b[:n:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) u8() int  { return int(r.n(1)[0]) }
func (r *rd) u16() int { x := r.n(2); return int(x[0])<<8 | int(x[1]) }
func (r *rd) u24() int { x := r.n(3); return int(x[0])<<16 | int(x[1])<<8 | int(x[2]) }
func (r *rd) u32() uint32 {
	x := r.n(4)
	return uint32(x[0])<<24 | uint32(x[1])<<16 | uint32(x[2])<<8 | uint32(x[3])
}
func (r *rd) v8() []byte  { return r.n(r.u8()) }
func (r *rd) v16() []byte { return r.n(r.u16()) }
func (r *rd) v24() []byte { return r.n(r.u24()) }
func (r *rd) done() error {
	if r.bad {
		return errors.New("truncated")
	}
	if len(r.b) != 0 {
		return errors.New("trailing bytes")
	}
	return nil
}

func u16(x int) []byte { return []byte{byte(x >> 8), byte(x)} }
func u24(x int) []byte { return []byte{byte(x >> 16), byte(x >> 8), byte(x)} }
func u32(x uint32) []byte {
	return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}
func V8(b []byte) []byte  { return append([]byte{byte(len(b))}, b...) }
func V16(b []byte) []byte { return append(u16(len(b)), b...) }
func V24(b []byte) []byte { return append(u24(len(b)), b...) }
func U16(x int) []byte    { return u16(x) }
func cat(x ...[]byte) []byte {
	var o []byte
	for _, b := range x {
		o = append(o, b...)
	}
	return o
}
func u16s(x []int) []byte {
	var o []byte
	for _, v := range x {
		o = append(o, u16(v)...)
	}
	return o
}

// Ext is one extension.
type Ext struct {
	Type int
	Data []byte
}

type Exts []Ext

func (e Exts) Find(t int) ([]byte, bool) {
	for _, x := range e {
		if x.Type == t {
			return x.Data, true
		}
	}
	return nil, false
}

// Set replaces or appends an extension.
func (e Exts) Set(t int, d []byte) Exts {
	var o Exts
	done := false
	for _, x := range e {
		if x.Type == t {
			x.Data = d
			done = true
		}
		o = append(o, x)
	}
	if !done {
		o = append(o, Ext{t, d})
	}
	return o
}

func (e Exts) Del(t int) Exts {
	var o Exts
	for _, x := range e {
		if x.Type != t {
			o = append(o, x)
		}
	}
	return o
}

func (e Exts) Bytes() []byte {
	var o []byte
	for _, x := range e {
		o = append(o, u16(x.Type)...)
		o = append(o, V16(x.Data)...)
	}
	return V16(o)
}

func parseExts(b []byte) (Exts, error) {
	r := &rd{b: b}
	var o Exts
	seen := map[int]bool{}
	for len(r.b) > 0 && !r.bad {
		t := r.u16()
		d := r.v16()
		if seen[t] {
			return nil, errors.New("repeated extension")
		}
		seen[t] = true
		o = append(o, Ext{t, d})
	}
	return o, r.done()
}

// ClientHello is the body of a ClientHello.
type ClientHello struct {
	Version   int
	Random    [32]byte
	SessionID []byte
	DTLS      bool
	Cookie    []byte // DTLS legacy cookie
	Suites    []int
	Comp      []byte
	Exts      Exts
}

func ParseClientHello(b []byte, dtls bool) (*ClientHello, error) {
	r := &rd{b: b}
	c := &ClientHello{DTLS: dtls}
	c.Version = r.u16()
	copy(c.Random[:], r.n(32))
	c.SessionID = r.v8()
	if dtls {
		c.Cookie = r.v8()
	}
	s := r.v16()
	if len(s)%2 != 0 {
		return nil, errors.New("odd cipher suites")
	}
	for i := 0; i+1 < len(s); i += 2 {
		c.Suites = append(c.Suites, int(s[i])<<8|int(s[i+1]))
	}
	c.Comp = r.v8()
	var err error
	if e := r.v16(); !r.bad {
		c.Exts, err = parseExts(e)
		if err != nil {
			return nil, err
		}
	}
	return c, r.done()
}

func (c *ClientHello) Marshal() []byte {
	o := cat(u16(c.Version), c.Random[:], V8(c.SessionID))
	if c.DTLS {
		o = append(o, V8(c.Cookie)...)
	}
	return cat(o, V16(u16s(c.Suites)), V8(c.Comp), c.Exts.Bytes())
}

// ServerHello is the body of a ServerHello or HelloRetryRequest.
type ServerHello struct {
	Version   int
	Random    [32]byte
	SessionID []byte
	Suite     int
	Comp      int
	Exts      Exts
}

func ParseServerHello(b []byte) (*ServerHello, error) {
	r := &rd{b: b}
	s := &ServerHello{}
	s.Version = r.u16()
	copy(s.Random[:], r.n(32))
	s.SessionID = r.v8()
	s.Suite = r.u16()
	s.Comp = r.u8()
	var err error
	if e := r.v16(); !r.bad {
		s.Exts, err = parseExts(e)
		if err != nil {
			return nil, err
		}
	}
	return s, r.done()
}

func (s *ServerHello) Marshal() []byte {
	return cat(u16(s.Version), s.Random[:], V8(s.SessionID), u16(s.Suite), []byte{byte(s.Comp)}, s.Exts.Bytes())
}

// Msg frames a handshake message.
func Msg(t int, body []byte) []byte { return cat([]byte{byte(t)}, V24(body)) }
