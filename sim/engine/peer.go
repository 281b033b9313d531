package engine

import (
	"errors"
	"fmt"
	"net"
	"time"

	mint "github.com/bifurcation/mint"
	"verif.local/sim/simrt"
)

// Transport is what an endpoint talks through in the simulation.
type Transport interface {
	net.Conn
	Readable() bool
	Pending() bool
}

// Peer is one real mint endpoint under simulation.
type Peer struct {
	s      *Sim
	Name   string
	Node   *simrt.Node
	Cfg    *mint.Config
	Conn   *mint.Conn
	Tr     Transport
	Client bool
	NB     bool
	DTLS   bool

	// handshake
	Done      bool // completed
	HsErr     mint.Alert
	HsRet     bool // handshake driver returned
	Calls     int
	Retried   bool
	Timeouts  int
	States    []mint.State
	StopHs    func() bool // gives up waiting
	OnRetry   func(p *Peer)
	MaxPolls  int
	lastState mint.State

	// application data
	Accepted  []byte   // bytes Write reported as accepted
	Msgs      [][]byte // one entry per successful Write (DTLS)
	Got       []byte
	GotMsgs   [][]byte
	ReadErr   error
	WriteErr  error
	onPoll    func(a mint.Alert) // after each call of Handshake
	ReadDone  bool
	WriteDone bool
	poll      int

	other   *Peer
	patID   uint32
	pos     int
	Attempt []byte // bytes handed to Write
	InWrite bool
	KUs     int
	KUReqs  int
	More    []Op          // writes of the next phase
	MsgAt   [][2]int      // the datagrams sent during each message's Write
	Stalled time.Duration // not polled before this
	Extra   bool
	kick    bool // another thread did something
}

func NewPeer(s *Sim, name string, cfg *mint.Config, tr Transport, client bool) *Peer {
	p := &Peer{s: s, Name: name, Node: &simrt.Node{Name: name}, Cfg: cfg, Tr: tr, Client: client,
		NB: cfg.NonBlocking, DTLS: cfg.UseDTLS, HsErr: mint.AlertNoAlert, MaxPolls: 5000}
	p.Conn = mint.NewConn(tr, cfg, client)
	return p
}

func (p *Peer) Go(what string, fn func()) *simrt.Task {
	return p.s.K.Go(p.Name+"/"+what, p.Node, fn)
}

// Connected reports whether the endpoint says its handshake is complete.
func (p *Peer) Connected() bool {
	st := p.Conn.ConnectionState().HandshakeState
	if p.Client {
		return st == mint.StateClientConnected
	}
	return st == mint.StateServerConnected
}

func (p *Peer) noteState() {
	st := p.Conn.ConnectionState().HandshakeState
	if st != p.lastState {
		p.States = append(p.States, st)
		p.s.K.Cover[fmt.Sprintf("%s %v>%v", map[bool]string{true: "c", false: "s"}[p.Client], p.lastState, st)] = true
		p.lastState = st
	}
}

// waitInput parks until something may have changed for a non-blocking
// endpoint: input, its own announced timer, or a spurious wake-up.
func (p *Peer) waitInput(what string, more func() bool) {
	k := p.s.K
	defer func() {
		if p.Stalled > k.Now() {
			k.Sleep(p.Stalled - k.Now())
		}
	}()
	p.poll++
	if p.poll > 1 && p.s.C.Prob("poll", 1, 12) {
		// a spurious poll
		k.Sleep(time.Duration(p.s.C.Intn("poll", 30)) * time.Millisecond)
		return
	}
	cond := func() bool { return p.Tr.Readable() || (more != nil && more()) }
	if p.DTLS {
		if ok, d := p.Conn.GetDTLSTimeout(); ok {
			if d < 0 {
				d = 0
			}
			// timers fire strictly after their deadline
			if !k.BlockUntil(what, d+time.Millisecond, cond) {
				p.Timeouts++
			}
			return
		}
	}
	k.Block(what, cond)
}

// Handshake drives the endpoint's handshake to its end in its own I/O mode.
func (p *Peer) Handshake() bool {
	k := p.s.K
	defer func() { p.HsRet = true; p.noteState() }()
	if !p.NB {
		p.Calls++
		k.Logf("%s Handshake()", p.Name)
		a := p.Conn.Handshake()
		if p.onPoll != nil {
			p.onPoll(a)
		}
		p.finishHs(a)
		return p.Done
	}
	for i := 0; ; i++ {
		if i > p.MaxPolls {
			p.s.K.Logf("%s too many polls", p.Name)
			p.HsErr = mint.AlertWouldBlock
			return false
		}
		p.Calls++
		a := p.Conn.Handshake()
		if p.onPoll != nil {
			p.onPoll(a)
		}
		p.noteState()
		switch {
		case a == mint.AlertNoAlert:
			if p.Connected() {
				p.finishHs(a)
				return true
			}
			continue
		case a == mint.AlertStatelessRetry:
			p.Retried = true
			if p.OnRetry != nil {
				p.OnRetry(p)
			}
			continue
		case a == mint.AlertWouldBlock:
			if p.StopHs != nil && p.StopHs() {
				return false
			}
			p.waitInput("handshake", p.StopHs)
			continue
		}
		p.finishHs(a)
		return false
	}
}

func (p *Peer) finishHs(a mint.Alert) {
	p.HsErr = a
	p.Done = a == mint.AlertNoAlert && p.Connected()
	cs := p.Conn.ConnectionState()
	p.s.K.Logf("%s handshake -> %v done=%v suite=%v alpn=%q psk=%v early=%v", p.Name, a, p.Done, cs.CipherSuite.Suite, cs.NextProto, cs.UsingPSK, cs.UsingEarlyData)
}

var errStop = errors.New("stopped")

// Read is one application read in the endpoint's I/O mode; it waits for data.
func (p *Peer) Read(buf []byte, stop func() bool) (int, error) {
	for i := 0; ; i++ {
		n, err := p.Conn.Read(buf)
		if n == 0 && err == mint.AlertWouldBlock {
			if stop != nil && stop() {
				return 0, errStop
			}
			if i > p.MaxPolls {
				return 0, errors.New("too many polls")
			}
			p.waitInput("read", stop)
			continue
		}
		return n, err
	}
}

func (p *Peer) SetNB(nb bool) {
	p.NB = nb
}

func (p *Peer) String() string { return p.Name }
