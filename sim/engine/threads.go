package engine

import (
	"encoding/binary"
	"io"
	"time"

	mint "github.com/bifurcation/mint"
)

// Several threads use the same end at once.

func init() {
	register("C01",
		Scenario{"writers", 3, manyWriters},
		Scenario{"readers", 3, manyReaders},
	)
}

const chunkHdr = 8

// chunk is a message that says who wrote it and which it is.
func chunk(id uint32, writer, i, n int) []byte {
	b := Pattern(id*64+uint32(writer)*16+uint32(i), 0, n+chunkHdr)
	b[0], b[1] = byte(writer), byte(i)
	binary.BigEndian.PutUint32(b[2:], uint32(n))
	b[6], b[7] = 0xa5, 0x5a
	return b
}

// manyWriters: what each Write takes stays together, and one thread's writes
// stay in order, whatever the others do.
func manyWriters(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Auth: 10, NB: 20, Tickets: 30})
	x := s.NewSession("", 1, cf, s.quickPol(), Judge{})
	x.NoApp = true
	if s.CfgP(1, 3) {
		s.windows(x)
	}
	type writer struct{ ops []Op }
	plan := [2][]writer{}
	for e := range plan {
		for w := 1 + s.Cfg(3); w > 0; w-- {
			n := 1 + s.Op(5)
			wr := writer{}
			for i := 0; i < n; i++ {
				sz := s.Op(40)
				switch s.OpW(2, 2, 2) {
				case 1:
					sz = 1 + s.Op(3000)
				case 2:
					sz = 16384*(1+s.Op(3)) - 60 + s.Op(200)
				}
				wr.ops = append(wr.ops, Op{Kind: "write", N: sz})
				if s.OpP(1, 8) {
					wr.ops = append(wr.ops, Op{Kind: "keyupdate"})
				}
				if s.OpP(1, 5) {
					wr.ops = append(wr.ops, Op{Kind: "sleep", D: s.Dur("op", 300*time.Millisecond)})
				}
			}
			plan[e] = append(plan[e], wr)
		}
	}
	written := [2][][]int{}
	open := [2]int{}
	x.after = func(p *Peer) {
		if !p.Done {
			return
		}
		e := 1
		if p.Client {
			e = 0
		}
		written[e] = make([][]int, len(plan[e]))
		open[e] = len(plan[e])
		for w := range plan[e] {
			w := w
			p.Go("writer", func() {
				defer func() { open[e]-- }()
				for _, o := range plan[e][w].ops {
					switch o.Kind {
					case "sleep":
						s.K.Sleep(o.D)
					case "keyupdate":
						if err := p.Conn.SendKeyUpdate(false); err != nil {
							s.Fail("keyupdate-failed", "%s SendKeyUpdate: %v", p.Name, err)
							return
						}
					case "write":
						b := chunk(p.patID, w, len(written[e][w]), o.N)
						written[e][w] = append(written[e][w], o.N)
						p.Attempt = append(p.Attempt, b...) // the amount
						n, err := p.Conn.Write(b)
						s.K.Logf("%s writer %d Write(%d) -> %d %v", p.Name, w, len(b), n, err)
						if err != nil || n != len(b) {
							s.Fail("write-refused", "%s Write(%d bytes) -> %d, %v", p.Name, len(b), n, err)
							return
						}
					}
				}
			})
		}
		p.Go("read", func() {
			buf := make([]byte, []int{100, 5000, 70000}[s.OpW(1, 2, 3)])
			for {
				n, err := p.Read(buf, nil)
				p.Got = append(p.Got, buf[:n]...)
				if err != nil {
					p.ReadErr = err
					return
				}
			}
		})
	}
	x.Start()
	s.K.StepLimit, x.C.MaxPolls, x.S.MaxPolls = 3000000, 100000, 100000
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() || !x.C.Done || !x.S.Done {
		return
	}
	for e, p := range []*Peer{x.S, x.C} {
		if open[e] > 0 {
			s.Fail("writer-stuck", "%s: %d threads never finish writing: %s", p.other.Name, open[e], s.K.Where())
			return
		}
		next := make([]int, len(plan[e]))
		b := p.Got
		for len(b) > 0 {
			at := len(p.Got) - len(b)
			if len(b) < chunkHdr {
				s.Fail("write-torn", "%s read %d bytes after the last message", p.Name, len(b))
				return
			}
			w, i, n := int(b[0]), int(b[1]), int(binary.BigEndian.Uint32(b[2:]))
			if w >= len(next) || b[6] != 0xa5 || b[7] != 0x5a {
				s.Fail("write-torn", "%s: no message starts at offset %d, where one Write of %s should: the writes of its threads are mixed", p.Name, at, p.other.Name)
				return
			}
			if i != next[w] || i >= len(written[e][w]) || n != written[e][w][i] {
				s.Fail("write-order", "%s: thread %d's write %d (%d bytes) at offset %d is not its next one (%d)", p.Name, w, i, n, at, next[w])
				return
			}
			want := chunk(p.other.patID, w, i, n)
			if len(b) < len(want) || string(b[:len(want)]) != string(want) {
				s.Fail("write-torn", "%s: thread %d's write %d of %d bytes at offset %d is not whole and alone", p.Name, w, i, n, at)
				return
			}
			b = b[len(want):]
			next[w]++
		}
		for w := range next {
			if next[w] != len(written[e][w]) {
				s.Fail("stream-lost", "%s read %d of the %d writes of thread %d of %s (%v); %s", p.Name, next[w], len(written[e][w]), w, p.other.Name, p.ReadErr, s.K.Where())
				return
			}
		}
	}
	s.NonTriv = len(plan[0]) > 1 || len(plan[1]) > 1
}

// words is a stream each of whose four-byte words says where it is.
func words(from, n int) []byte {
	b := make([]byte, 0, n)
	for i := 0; i < n; i += 4 {
		b = binary.BigEndian.AppendUint32(b, uint32(from+i))
	}
	return b
}

// manyReaders: several threads read the same end; each byte goes to one.
func manyReaders(s *Sim) {
	s.Sched()
	cf := s.GenConf(Gen{PSK: 40, Auth: 10, NB: 20, Tickets: 30})
	x := s.NewSession("", 1, cf, s.quickPol(), Judge{})
	x.NoApp = true
	var sizes [2][]int
	for e := range sizes {
		for n := 1 + s.Op(8); n > 0; n-- {
			sizes[e] = append(sizes[e], 4*[]int{1 + s.Op(10), 1 + s.Op(500), 4096 - 20 + s.Op(40), 1 + s.Op(9000)}[s.OpW(3, 3, 1, 1)])
		}
	}
	var total [2]int
	var seen [2]map[int]bool
	x.after = func(p *Peer) {
		if !p.Done {
			return
		}
		e := 1
		if p.Client {
			e = 0
		}
		p.Go("write", func() {
			for _, n := range sizes[e] {
				b := words(total[e], n)
				total[e] += n
				if m, err := p.Conn.Write(b); err != nil || m != n {
					s.Fail("write-refused", "%s Write(%d bytes) -> %d, %v", p.Name, n, m, err)
					return
				}
				if s.OpP(1, 6) {
					p.Conn.SendKeyUpdate(s.OpP(1, 2))
				}
				if s.OpP(1, 4) {
					s.K.Sleep(s.Dur("op", 200*time.Millisecond))
				}
			}
			p.WriteDone = true
		})
		o := 1 - e
		seen[o] = map[int]bool{}
		for r := 2 + s.Op(2); r > 0; r-- {
			p.Go("reader", func() {
				buf := make([]byte, 4*[]int{1, 25, 4096, 17000}[s.OpW(1, 2, 2, 2)])
				for !s.Failed() {
					n, err := p.Read(buf, nil)
					if n > 0 {
						from := int(binary.BigEndian.Uint32(append([]byte{}, buf[:4]...)))
						if n%4 != 0 || from%4 != 0 || from+n > total[o] || string(words(from, n)) != string(buf[:n]) {
							s.Fail("stream-wrong", "%s Read returned %d bytes that %s never wrote in this order", p.Name, n, p.other.Name)
							return
						}
						for i := from; i < from+n; i += 4 {
							if seen[o][i] {
								s.Fail("stream-repeated", "%s read the bytes at offset %d twice", p.Name, i)
								return
							}
							seen[o][i] = true
						}
					}
					if err != nil {
						if err != io.EOF && err != mint.AlertCloseNotify {
							s.K.Logf("%s read error %v", p.Name, err)
						}
						p.ReadErr = err
						return
					}
				}
			})
		}
	}
	x.Start()
	s.K.StepLimit, x.C.MaxPolls, x.S.MaxPolls = 3000000, 100000, 100000
	s.K.Run(s.Failed)
	if s.Failed() || s.CheckPanics() || !x.C.Done || !x.S.Done {
		return
	}
	for e, p := range []*Peer{x.S, x.C} {
		if len(seen[e])*4 != total[e] || !p.other.WriteDone {
			s.Fail("stream-lost", "the threads of %s read %d of the %d bytes that %s wrote (%v); %s", p.Name, len(seen[e])*4, total[e], p.other.Name, p.ReadErr, s.K.Where())
			return
		}
	}
	s.NonTriv = true
}
