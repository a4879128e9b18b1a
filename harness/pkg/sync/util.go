//verif:props C60 C61 C62 C63 C64
package sync

import (
	"fmt"
	"io"
	stdsync "sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzPipe is a connection with one direction in memory. Reads end at the
// given positions of the stream.
type zzPipe struct {
	ch   chan []byte
	left []byte
	pos  int
	cuts []int

	mx     stdsync.Mutex
	wait   []byte // written and not flushed
	log    []byte // flushed
	closed bool
	ops    int
	fail   int // writes and flushes until one fails
	once   bool
}

func zzNewPipe(cuts []int) *zzPipe {
	return &zzPipe{ch: make(chan []byte, 64), cuts: cuts, fail: -1}
}

// zzStream is a connection that delivers the bytes and ends.
func zzStream(b []byte, cuts []int) *zzPipe {
	p := zzNewPipe(cuts)
	if len(b) > 0 {
		p.ch <- b
	}
	close(p.ch)
	p.closed = true
	return p
}

func (p *zzPipe) broken() bool {
	if p.closed {
		return true
	}
	if p.fail < 0 {
		return false
	}
	p.ops++
	return p.ops-1 == p.fail || p.ops-1 > p.fail && !p.once
}

func (p *zzPipe) Write(b []byte) (int, error) {
	p.mx.Lock()
	defer p.mx.Unlock()
	if p.broken() {
		return 0, io.ErrClosedPipe
	}
	p.wait = append(p.wait, b...)
	return len(b), nil
}

// Flush delivers what was written.
func (p *zzPipe) Flush() error {
	p.mx.Lock()
	defer p.mx.Unlock()
	if p.broken() {
		return io.ErrClosedPipe
	}
	if len(p.wait) > 0 {
		p.log = append(p.log, p.wait...)
		p.ch <- p.wait
		p.wait = nil
	}
	return nil
}

func (p *zzPipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.left) == 0 {
		c, ok := <-p.ch
		if !ok {
			return 0, io.EOF
		}
		p.left = c
	}
	n := len(p.left)
	if n > len(b) {
		n = len(b)
	}
	for _, c := range p.cuts {
		if c > p.pos && c < p.pos+n {
			n = c - p.pos
		}
	}
	copy(b, p.left[:n])
	p.left = p.left[n:]
	p.pos += n
	return n, nil
}

func (p *zzPipe) Close() error {
	p.mx.Lock()
	defer p.mx.Unlock()
	if !p.closed {
		p.closed = true
		close(p.ch)
	}
	return nil
}

// written returns what was written so far.
func (p *zzPipe) written() []byte {
	p.mx.Lock()
	defer p.mx.Unlock()
	return append([]byte{}, p.log...)
}

// zzNet connects parties in memory.
type zzNet struct {
	pid  uint16
	all  []*zzNet
	pend chan network.Connection
	to   []*zzPipe
}

func (n *zzNet) Dial(pid uint16) (network.Connection, error) {
	p := n.to[pid]
	n.all[pid].pend <- p
	return p, nil
}

func (n *zzNet) Listen() (network.Connection, error) { return <-n.pend, nil }

// zzNetwork makes the nets of n parties; cuts[i][j] are the splits of the
// stream from i to j.
func zzNetwork(n int, cuts map[[2]int][]int) []*zzNet {
	all := make([]*zzNet, n)
	for i := range all {
		all[i] = &zzNet{pid: uint16(i), all: all, pend: make(chan network.Connection, n)}
		for j := 0; j < n; j++ {
			all[i].to = append(all[i].to, zzNewPipe(cuts[[2]int{i, j}]))
		}
	}
	return all
}

type zzGot struct {
	pid  uint16
	data []byte
}

// zzRec records the calls of a check function.
type zzRec struct {
	got  []zzGot
	fail []bool
}

func (r *zzRec) check(pid uint16, data []byte) error {
	r.got = append(r.got, zzGot{pid, append([]byte{}, data...)})
	if int(pid) < len(r.fail) && r.fail[pid] {
		return fmt.Errorf("wrong")
	}
	return nil
}

// exactly says whether the check was called once per other party, with the
// given data; nil stands for a party without data.
func (r *zzRec) exactly(me int, want [][]byte, label string) {
	n := 0
	for pid := range want {
		if pid == me {
			continue
		}
		expected := 1
		if want[pid] == nil {
			expected = 0
		}
		n += expected
		calls := 0
		for _, g := range r.got {
			if int(g.pid) == pid {
				calls++
				zzsym.Assert(zzsym.BytesEq(g.data, want[pid]), label+": the bytes sent")
			}
		}
		zzsym.Assert(calls == expected, label+": one check per party")
	}
	zzsym.Assert(len(r.got) == n, label+": no other check")
}

const zzRound = 300 * time.Millisecond

func zzServers(nets []*zzNet) []Server {
	start := time.Now().Add(200 * time.Millisecond)
	ss := make([]Server, len(nets))
	for i := range nets {
		ss[i] = NewServer(uint16(i), uint16(len(nets)), start, zzRound, nets[i])
		ss[i].Start()
	}
	return ss
}

// zzRun runs one round of all servers.
func zzRun(ss []Server, msgs [][][]byte) ([]*zzRec, []error) {
	recs := make([]*zzRec, len(ss))
	errs := make([]error, len(ss))
	var wg stdsync.WaitGroup
	for i := range ss {
		recs[i] = &zzRec{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = ss[i].Round(msgs[i], recs[i].check)
		}(i)
	}
	wg.Wait()
	return recs, errs
}

// zzTape is what honest parties write to party 0 (party 0 to party 1): the introduction and the
// frame of each round.
type zzTape struct {
	intro  [][]byte
	frames [][][]byte // by party, by round
}

// zzRecord runs honest parties for some rounds in which everyone sends msg.
func zzRecord(n, rounds int, msg []byte) *zzTape {
	nets := zzNetwork(n, nil)
	ss := zzServers(nets)
	t := &zzTape{intro: make([][]byte, n), frames: make([][][]byte, n)}
	pos := make([]int, n)
	msgs := make([][][]byte, n)
	for i := range msgs {
		msgs[i] = [][]byte{msg}
	}
	for _, s := range ss {
		zzStarted(s)
	}
	for i := 0; i < n; i++ {
		t.intro[i] = nets[i].to[zzTarget(i)].written()
		pos[i] = len(t.intro[i])
	}
	for k := 0; k < rounds; k++ {
		_, errs := zzRun(ss, msgs)
		for i := range errs {
			zzsym.Assert(errs[i] == nil, "honest round")
		}
		for i := 0; i < n; i++ {
			w := nets[i].to[zzTarget(i)].written()
			t.frames[i] = append(t.frames[i], w[pos[i]:])
			pos[i] = len(w)
		}
	}
	return t
}

func zzTarget(i int) int {
	if i == 0 {
		return 1
	}
	return 0
}

func zzStarted(s Server) { s.(*server).startWG.Wait() }

// zzVictim is a real server 0 whose peers send the given streams.
func zzVictim(n int, streams [][]byte, cuts []int) (Server, *zzNet) {
	nets := zzNetwork(n, nil)
	for i := 1; i < n; i++ {
		nets[0].pend <- zzStream(streams[i], cuts)
	}
	s := NewServer(0, uint16(n), time.Now().Add(200*time.Millisecond), zzRound, nets[0])
	s.Start()
	return s, nets[0]
}

func zzCat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// zzMissing returns the parties a failed round names.
func zzMissing(err error, n int) []bool {
	out := make([]bool, n)
	re, ok := err.(*RoundError)
	zzsym.Assert(ok, "a failed round gives a RoundError")
	if !ok {
		return out
	}
	for _, m := range re.Missing() {
		zzsym.Assert(int(m) < n && !out[m], "each party is named once")
		out[m] = true
	}
	return out
}

// zzTwice: one of two peers connects twice.
func zzTwice(who, at int) {
	t := zzRecord(3, 1, []byte{7})
	o := zzRecord(3, 1, []byte{8})
	nets := zzNetwork(3, nil)
	for i := 0; i < 3; i++ {
		if i == at {
			nets[0].pend <- zzStream(zzCat(o.intro[who], o.frames[who][0]), nil)
		}
		if i > 0 {
			nets[0].pend <- zzStream(zzCat(t.intro[i], t.frames[i][0]), nil)
		}
	}
	s := NewServer(0, 3, time.Now().Add(200*time.Millisecond), zzRound, nets[0])
	s.Start()
	rec := &zzRec{}
	err := s.Round([][]byte{{7}}, rec.check)
	zzsym.Assert(err == nil, "the round of the peers succeeds")
	zzsym.Assert(len(rec.got) == 2, "one check per peer")
	for _, g := range rec.got {
		one := zzsym.BytesEq(g.data, []byte{7})
		if int(g.pid) == who {
			one = zzsym.Or(one, zzsym.BytesEq(g.data, []byte{8}))
		}
		zzsym.Assert(one, "the data of one connection")
	}
}

// zzRejected checks that a peer's frame is not accepted.
func zzRejected(rec *zzRec, err error, pid int) {
	zzsym.Assert(err != nil, "the round reports an error")
	for _, g := range rec.got {
		zzsym.Assert(int(g.pid) != pid, "the data is not checked")
	}
}

// zzCrowd connects one party to many; nobody connects to it.
type zzCrowd struct {
	to   []*zzPipe
	stop chan network.Connection
}

func (n *zzCrowd) Dial(pid uint16) (network.Connection, error) { return n.to[pid], nil }
func (n *zzCrowd) Listen() (network.Connection, error)         { return <-n.stop, nil }

func zzInCrowd(pid, n int) (Server, *zzCrowd) {
	net := &zzCrowd{to: make([]*zzPipe, n), stop: make(chan network.Connection)}
	for i := range net.to {
		net.to[i] = zzNewPipe(nil)
	}
	return NewServer(uint16(pid), uint16(n), time.Now().Add(200*time.Millisecond), zzRound, net), net
}

// zzConnected gives a server its connections; the pair talks, the others send nothing.
func zzConnected(s Server, net *zzCrowd, pid, other int, from *zzPipe) {
	sv := s.(*server)
	for i := range net.to {
		if i == pid {
			continue
		}
		sv.outDataConn[i] = net.to[i]
		sv.inDataConn[i] = zzStream(nil, nil)
	}
	sv.inDataConn[other] = from
}

// zzOnly: all parties are named except some.
func zzOnly(named []bool, fine []int) {
	for p, is := range named {
		zzsym.Assert(is == !zzIn(p, fine), "exactly the failing parties are named")
	}
}

func zzIn(p int, list []int) bool {
	for _, f := range list {
		if p == f {
			return true
		}
	}
	return false
}
