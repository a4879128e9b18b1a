# Seeds in the packages that need stand-ins for missing modules, and more in the others.
exec(open(os.path.join(V, 'tools', 'seeds1.py')).read().split('seeds = {')[0])
PO, DS, DK, RS, MU, DH = ['pkg/arith/%s.go' % x for x in ('poly', 'distributed_secret', 'distributed_key', 'reshare', 'mult', 'checkDH')]
SY, TE, GK, TD = 'pkg/sync/server.go', 'pkg/tecdsa/tecdsa.go', 'cmd/gen_keys/main.go', 'cmd/tecdsa/main.go'
STUBSH = r'''#!/bin/bash
# Runs the demonstration beside this file against the package it belongs to, with stand-ins
# (folder stubs) for the modules that are not available offline.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cp "$D/stubs/base.mod" "$T/go.mod"; cp "$D/stubs/base.sum" "$T/go.sum"
for m in gitlab.com/alephledger/core-go=core-go github.com/binance-chain/tss-lib=tss-lib github.com/rs/zerolog=zerolog; do
  printf '\nrequire %s v0.0.0\nreplace %s => %s\n' "${m%%=*}" "${m%%=*}" "$D/stubs/${m##*=}" >> "$T/go.mod"
done
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
for f in PKG/*_test.go; do
  [ -e "$f" ] && sed -i 's#}}$#,"'"$PWD/$f"'":""}}#' "$T/o.json"
done
# the demonstration works in the scratch directory
export TMPDIR="$T"
go test -modfile "$T/go.mod" -overlay "$T/o.json" -vet=off -count=1 -timeout 250s -run 'TestZZDemo' ./PKG/
'''
HUB = '''
// zzHub connects parties in lock-step rounds.
type zzHub struct {
	ch    [][]chan []byte
	alter func(round, from, to int, data []byte) []byte
}

type zzParty struct {
	h     *zzHub
	me    int
	round int
	fail  func(round int) error
}

func zzNew(n int) (*zzHub, []*zzParty) {
	h := &zzHub{}
	var ps []*zzParty
	for i := 0; i < n; i++ {
		var row []chan []byte
		for j := 0; j < n; j++ {
			row = append(row, make(chan []byte, 100))
		}
		h.ch = append(h.ch, row)
		ps = append(ps, &zzParty{h: h, me: i})
	}
	return h, ps
}

func (p *zzParty) Start() {}
func (p *zzParty) Stop()  {}
func (p *zzParty) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	r := p.round
	p.round++
	if p.fail != nil {
		if err := p.fail(r); err != nil {
			return err
		}
	}
	for j := range p.h.ch {
		if j == p.me {
			continue
		}
		d := toSend[0]
		if len(toSend) > 1 {
			d = toSend[j]
		}
		d = append([]byte{}, d...)
		if p.h.alter != nil {
			d = p.h.alter(r, p.me, j, d)
		}
		p.h.ch[p.me][j] <- d
	}
	var res error
	for j := range p.h.ch {
		if j == p.me {
			continue
		}
		select {
		case d := <-p.h.ch[j][p.me]:
			if err := check(uint16(j), d); err != nil && res == nil {
				res = err
			}
		case <-time.After(20 * time.Second):
			return fmt.Errorf("silence")
		}
	}
	return res
}

func zzAll(ps []*zzParty, f func(i int, p *zzParty) error) []error {
	errs := make([]error, len(ps))
	var wg sync.WaitGroup
	for i := range ps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = f(i, ps[i])
		}(i)
	}
	wg.Wait()
	return errs
}
'''
def a(pkg, imports, body, top=''):
    return 'package %s\n\nimport (\n%s)\n%s%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n' % (pkg, ''.join('\t"%s"\n' % i for i in sorted({'fmt', 'sync', 'testing', 'time'} | set(imports))), HUB, top, body)
ST = ['%s/stubs' % V]  # without go-ethereum, see mkseed.py
seeds = {
'c40-pointer': dict(prop='C40', pkg='pkg/arith', sh=STUBSH, extra=ST, edits=[(PO, '		if index.Cmp(arg) == 0 {\n			continue\n\n		}\n', '		if index == arg {\n			continue\n		}\n')],
  needs='an index that equals one of the arguments but is another big.Int', breaks='the coefficient of such an index is computed with a division by zero',
  demo=t('arith', [B], '''	n := func(x int64) *big.Int { return big.NewInt(x) }
	q := n(101)
	// f(x) = 5 + 7x over parties 0 and 2
	sum := n(0)
	for _, i := range []int64{0, 2} {
		f := n(5 + 7*(i+1))
		c := lagrangeCoef(n(i), []*big.Int{n(0), n(2)}, q)
		if c == nil {
			t.Fatal("no coefficient")
		}
		sum.Add(sum, f.Mul(f, c))
	}
	if sum.Mod(sum, q).Int64() != 5 {
		t.Fatal(sum)
	}
''')),
'c41-lead': dict(prop='C41', pkg='pkg/arith', sh=STUBSH, extra=ST, edits=[(PO, '			tmp.SetInt64(1)\n			f[i].Add(f[i], tmp)\n\n', '')],
  needs='the draw zero for the leading coefficient', breaks='the polynomial has a smaller degree, so fewer parties than the threshold know the secret',
  demo=t('arith', [B], '''	randReader = zzZeros{}
	f, err := poly(2, big.NewInt(5))
	if err != nil || f[2].Sign() == 0 {
		t.Fatal(f, err)
	}
''') + '''
type zzZeros struct{}

func (zzZeros) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}
'''),
'c43-prefix': dict(prop='C43', pkg='pkg/arith', sh=STUBSH, extra=ST, edits=[(DK, 'if !bytes.Equal(nmc.dataBytes, dataBytes) {', 'if !bytes.HasPrefix(dataBytes, nmc.dataBytes) {')],
  needs='a party that commits to a prefix, such as nothing, of what it reveals', breaks='a party chooses its public key after seeing those of the others',
  demo=a('arith', [CUR], '''	h, ps := zzNew(2)
	h.alter = func(round, from, to int, data []byte) []byte {
		if round == 0 && from == 1 {
			return make([]byte, 8) // a commitment to nothing
		}
		return data
	}
	errs := zzAll(ps, func(i int, p *zzParty) error {
		_, err := GenExpReveal(uint16(i), "x", p, 2, curve.NewSecp256k1Group())
		return err
	})
	if errs[0] == nil {
		t.Fatal("accepted")
	}
''')),
'c45-comm': dict(prop='C45', pkg='pkg/arith', sh=STUBSH, extra=ST, edits=[(RS, '		// After checking that eg agrees with previous commitment, replace the old one with it\n		shareComms[pid] = &egTemp\n', '		// After checking that eg agrees with previous commitment, replace the old one with it\n		if shareComms[pid].Equal(shareComms[pid], &egTemp) || pid > ads.pid {\n			shareComms[pid] = &egTemp\n		}\n')],
  needs='a party with a greater identifier than another one', breaks='the parties keep different commitments to the share of a party',
  demo=a('arith', [CUR, COM, B], '''	_, ps := zzNew(2)
	egf := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(77)))
	td := make([]*TDSecret, 2)
	for i, err := range zzAll(ps, func(i int, p *zzParty) error {
		s, err := Gen("a", p, egf, uint16(i), 2)
		if err != nil {
			return err
		}
		td[i], err = s.Reshare(2)
		return err
	}) {
		if err != nil {
			t.Fatal(i, err)
		}
	}
	for i := range td {
		for j := range td {
			if c := egf.Create(td[j].skShare, td[j].r); !c.Equal(c, td[i].egs[j]) {
				t.Fatal(i, j)
			}
		}
	}
''')),
'c44-same': dict(prop='C44', pkg='pkg/arith', sh=STUBSH, extra=ST, edits=[(DS, '	if ads.r, err = rand.Int(randReader, Q); err != nil {', '	if ads.r, err = rand.Int(randReader, ads.skShare); err != nil {')],
  needs='a look at the distribution of the randomness, or a share equal to zero', breaks='the randomness of the commitment is below the secret share, and a share of zero crashes the party',
  demo=a('arith', [CUR, COM, B], '''	for k := 0; k < 60; k++ {
		_, ps := zzNew(2)
		egf := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(77)))
		ad := make([]*ADSecret, 2)
		zzAll(ps, func(i int, p *zzParty) error {
			var err error
			ad[i], err = Gen("a", p, egf, uint16(i), 2)
			return err
		})
		if ad[0].r.Cmp(ad[0].skShare) > 0 {
			return
		}
	}
	t.Fatal("never above")
''')),
'c54-step8': dict(prop='C54', pkg='pkg/arith', sh=STUBSH, extra=ST, edits=[(RS, '		if len(data) < 4 {', '		if len(data) == 0 {')],
  needs='a peer that sends 1 to 3 bytes in step 8 of resharing', breaks='the party crashes',
  demo=a('arith', [CUR, COM, B], '''	h, ps := zzNew(2)
	h.alter = func(round, from, to int, data []byte) []byte {
		if from == 1 && round == 1+4 {
			return []byte{1, 2}
		}
		return data
	}
	egf := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(77)))
	errs := zzAll(ps, func(i int, p *zzParty) error {
		s, err := Gen("a", p, egf, uint16(i), 2)
		if err != nil {
			return err
		}
		_, err = s.Reshare(2)
		return err
	})
	if errs[0] == nil {
		t.Fatal("accepted")
	}
''')),
'c47-own': dict(prop='C47', pkg='pkg/arith', sh=STUBSH, extra=ST, edits=[(DS, '		tdk.pkShares[pid], err = group.Decode(buf)\n		if err != nil {\n			return err\n		}\n		return nil\n	}\n\n	nProc', '		tdk.pkShares[pid], err = group.Decode(buf)\n		return err\n	}\n\n	nProc')],
  needs='-', breaks='-', demo=''),
'c51-late': dict(prop='C51', pkg='pkg/tecdsa', sh=STUBSH, extra=ST, edits=[(TE, '	p.presig = p.presig[1:]\n\n	kKey, err := ps.k.Exp()\n	if err != nil {\n		return nil, err\n	}\n', '	kKey, err := ps.k.Exp()\n	if err != nil {\n		return nil, err\n	}\n	p.presig = p.presig[1:]\n')],
  needs='a failure of the first round of signing', breaks='the presignature of a failed signature is used again',
  demo=a('tecdsa', [B], '''	_, ps := zzNew(2)
	pr := make([]*Protocol, 2)
	for _, err := range zzAll(ps, func(i int, p *zzParty) error {
		var err error
		if pr[i], err = Init(uint16(i), 2, p); err != nil {
			return err
		}
		return pr[i].Presign(2)
	}) {
		if err != nil {
			t.Fatal(err)
		}
	}
	ps[0].fail = func(int) error { return fmt.Errorf("the network fails") }
	if _, err := pr[0].Sign(big.NewInt(5)); err == nil {
		t.Fatal("no error")
	}
	if len(pr[0].presig) != 0 {
		t.Fatal("the presignature is still there")
	}
''')),
'c53-thresh': dict(prop='C53', pkg='pkg/tecdsa', sh=STUBSH, extra=ST, edits=[(TE, 'psgn.eta, err = eta.Reshare(t)', 'psgn.eta, err = eta.Reshare(p.nProc)')],
  needs='a threshold below the number of parties', breaks='the parts of a presignature are shared with different thresholds, so the signature is computed from too few shares',
  demo=a('tecdsa', [B, CUR], '''	_, ps := zzNew(3)
	pr := make([]*Protocol, 3)
	for _, err := range zzAll(ps, func(i int, p *zzParty) error {
		var err error
		if pr[i], err = Init(uint16(i), 3, p); err != nil {
			return err
		}
		return pr[i].Presign(2)
	}) {
		if err != nil {
			t.Fatal(err)
		}
	}
	order := curve.NewSecp256k1Group().Order()
	val := make([][4]*big.Int, 3)
	sg := make([]*Signature, 3)
	m := big.NewInt(5)
	for _, err := range zzAll(ps, func(i int, p *zzParty) error {
		var err error
		x := pr[i].presig[0]
		for j, s := range []interface{ Reveal() (*big.Int, error) }{x.rho, x.eta, x.tau} {
			if val[i][j], err = s.Reveal(); err != nil {
				return err
			}
		}
		sg[i], err = pr[i].Sign(m)
		return err
	}) {
		if err != nil {
			t.Fatal(err)
		}
	}
	// s tau = m rho + r eta
	l := new(big.Int).Mul(sg[0].s, val[0][2])
	r := new(big.Int).Mul(sg[0].r, val[0][1])
	r.Add(r, new(big.Int).Mul(m, val[0][0]))
	if l.Sub(l, r).Mod(l, order).Sign() != 0 {
		t.Fatal("wrong combination")
	}
''')),
'c60-long': dict(prop='C60', pkg='pkg/sync', sh=STUBSH, extra=ST, edits=[(SY, 'binary.LittleEndian.PutUint64(dataLen, uint64(len(d)))', 'binary.LittleEndian.PutUint64(dataLen, uint64(uint16(len(d))))')],
  needs='a message of more than 65525 bytes', breaks='only the beginning of a long message is delivered', demo='@long'),
'c61-future': dict(prop='C61', pkg='pkg/sync', sh=STUBSH, extra=ST, edits=[(SY, 'if int64(roundID) != s.roundID {', 'if int64(roundID) < s.roundID {')],
  needs='a peer that is ahead by a round', breaks='the message of a later round is accepted', demo='@future'),
'c60-header': dict(prop='C60', pkg='pkg/sync', sh=STUBSH, extra=ST, edits=[(SY, '				binary.LittleEndian.PutUint64(d[2:10], uint64(s.roundID))\n', '				d[2] = byte(s.roundID)\n')],
  needs='individual messages in round 256 or later', breaks='the round number of individual messages is cut to 8 bits, so honest rounds fail', demo='@late'),
'c71-pidword': dict(prop='C71', pkg='cmd/tecdsa', sh=STUBSH, extra=ST, edits=[(TD, '	pkEnc, addr := s[0], s[1]\n', '	pkEnc, addr := s[0], s[len(s)-1]\n')],
  needs='-', breaks='-', demo=''),
'c71-split': dict(prop='C71', pkg='cmd/tecdsa', sh=STUBSH, extra=ST, edits=[(TD, '	if len(s) < 2 {\n', '	if len(s) < 1 {\n')],
  needs='a committee line without the separator', breaks='the program crashes on such a line',
  demo=t('main', [], '''	if _, _, err := parseCommitteeLine("aGVsbG8="); err == nil {
		t.Fatal("accepted")
	}
	if _, _, err := parseCommitteeLine("aGVsbG8=|1.2.3.4:5"); err != nil {
		t.Fatal(err)
	}
''')),
'c70-url': dict(prop='C70', pkg='cmd/tecdsa', sh=STUBSH, extra=ST, edits=[(GK, '	return base64.StdEncoding.EncodeToString(buf)\n', '	return base64.URLEncoding.EncodeToString(buf)\n')],
  needs='a key whose encoding contains the characters in which the two alphabets differ', breaks='the generated key file cannot be read', demo='@gen'),
'c05-order': dict(prop='C05', pkg='pkg/curve', edits=[(CU, '	x := new(big.Int).SetBytes(xyBytes[:lenX])\n	y := new(big.Int).SetBytes(xyBytes[lenX:])\n', '	x := new(big.Int).SetBytes(xyBytes[:lenX])\n	y := new(big.Int).SetBytes(xyBytes[lenX:])\n	if x.Cmp(g.curve.N) >= 0 {\n		return nil, fmt.Errorf("The decoded coordinate is too large")\n	}\n')],
  needs='a point with first coordinate between the order of the group and the prime of the field', breaks='a valid encoding is refused',
  demo=t('curve', [B, BYT], '''	g := NewSecp256k1Group().(*sGroup)
	p := g.curve.P
	x := new(big.Int).Set(g.curve.N)
	for k := 0; k < 100; k++ {
		x.Add(x, big.NewInt(1))
		y := new(big.Int).Exp(x, big.NewInt(3), p)
		y.Add(y, big.NewInt(7))
		if y.ModSqrt(y.Mod(y, p), p) == nil {
			continue
		}
		var b bytes.Buffer
		if g.Encode(sPoint{new(big.Int).Set(x), y}, &b) != nil {
			t.Fatal("encode")
		}
		q, err := g.Decode(&b)
		if err != nil || !g.Equal(q, sPoint{x, y}) {
			t.Fatal(err)
		}
	}
''')),
'c27-reuse': dict(prop='C27', pkg='pkg/crypto/zkpok', edits=[(ZK, '@nonce', '')], needs='two proofs for the same commitment', breaks='both proofs use the same nonces, so that the secret can be computed from them', demo=''),
}
SYNCT = '''package sync

import (
	"bytes"
	"fmt"
	"io"
	stdsync "sync"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type zzPipe struct {
	mx   stdsync.Mutex
	cond *stdsync.Cond
	buf  bytes.Buffer
	end  bool
}

func zzNewPipe() *zzPipe {
	p := &zzPipe{}
	p.cond = stdsync.NewCond(&p.mx)
	return p
}

func (p *zzPipe) Write(b []byte) (int, error) {
	p.mx.Lock()
	defer p.mx.Unlock()
	p.cond.Broadcast()
	return p.buf.Write(b)
}

func (p *zzPipe) Read(b []byte) (int, error) {
	p.mx.Lock()
	defer p.mx.Unlock()
	for p.buf.Len() == 0 {
		if p.end {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
	return p.buf.Read(b)
}

func (p *zzPipe) Flush() error { return nil }
func (p *zzPipe) Close() error {
	p.mx.Lock()
	defer p.mx.Unlock()
	p.end = true
	p.cond.Broadcast()
	return nil
}

type zzNet struct {
	all  []*zzNet
	pend chan network.Connection
}

func (n *zzNet) Dial(pid uint16) (network.Connection, error) {
	p := zzNewPipe()
	n.all[pid].pend <- p
	return p, nil
}

func (n *zzNet) Listen() (network.Connection, error) { return <-n.pend, nil }

func zzServers(n int) []Server {
	nets := make([]*zzNet, n)
	for i := range nets {
		nets[i] = &zzNet{all: nets, pend: make(chan network.Connection, n)}
	}
	start := time.Now().Add(100 * time.Millisecond)
	ss := make([]Server, n)
	for i := range ss {
		ss[i] = NewServer(uint16(i), uint16(n), start, time.Second, nets[i])
		ss[i].Start()
	}
	return ss
}

func zzRounds(ss []Server, f func(i int) error) []error {
	errs := make([]error, len(ss))
	var wg stdsync.WaitGroup
	for i := range ss {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = f(i)
		}(i)
	}
	wg.Wait()
	return errs
}

var _ = fmt.Sprint
'''
seeds['c60-long']['demo'] = SYNCT + '''
func TestZZDemo(t *testing.T) {
	m := bytes.Repeat([]byte{1, 2, 3, 4, 5, 6, 7}, 10000)
	ss := zzServers(2)
	for i, err := range zzRounds(ss, func(i int) error {
		return ss[i].Round([][]byte{m}, func(_ uint16, d []byte) error {
			if !bytes.Equal(m, d) {
				return fmt.Errorf("got %d bytes", len(d))
			}
			return nil
		})
	}) {
		if err != nil {
			t.Fatal(i, err)
		}
	}
}
'''
seeds['c61-future']['demo'] = SYNCT + '''
func TestZZDemo(t *testing.T) {
	ss := zzServers(2)
	time.Sleep(50 * time.Millisecond)
	ss[1].(*server).roundID = 0 // this party is one round ahead
	called := false
	errs := zzRounds(ss, func(i int) error {
		return ss[i].Round([][]byte{{1}}, func(uint16, []byte) error {
			if i == 0 {
				called = true
			}
			return nil
		})
	})
	if errs[0] == nil || called {
		t.Fatal("accepted")
	}
}
'''
seeds['c60-header']['demo'] = SYNCT + '''
func TestZZDemo(t *testing.T) {
	ss := zzServers(2)
	for k := 0; k < 300; k++ {
		for i, err := range zzRounds(ss, func(i int) error {
			return ss[i].Round([][]byte{{1}, {1}}, func(uint16, []byte) error { return nil })
		}) {
			if err != nil {
				t.Fatal(k, i, err)
			}
		}
	}
}
'''
GENSH = STUBSH.split("printf '{\"Replace\"")[0] + r'''
cd "$T" && mkdir w && cd "$OLDPWD"
go build -modfile "$T/go.mod" -o "$T/gen_keys" ./cmd/gen_keys/ || exit 3
go build -modfile "$T/go.mod" -o "$T/tecdsa" ./cmd/tecdsa/ || exit 3
printf '{"Replace":{"%s/cmd/tecdsa/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
(cd "$T/w" && for k in 1 2 3 4 5 6 7 8; do mkdir $k && (cd $k && "$T/gen_keys" 4); done)
export ZZKEYS="$T/w"
go test -modfile "$T/go.mod" -overlay "$T/o.json" -vet=off -count=1 -timeout 250s -run 'TestZZDemo' ./cmd/tecdsa/
'''
seeds['c70-url']['sh'] = GENSH
seeds['c70-url']['demo'] = t('main', ['os', 'fmt'], '''	d := os.Getenv("ZZKEYS")
	for k := 1; k <= 8; k++ {
		c, err := getCommittee(fmt.Sprintf("%s/%d/keys_addrs", d, k))
		if err != nil {
			t.Fatal(err)
		}
		for i := range c.addresses {
			m, err := getMember(fmt.Sprintf("%s/%d/%d.pk", d, k, i))
			if err != nil || m.privateKey.N.Cmp(c.publicKeys[i].N) != 0 {
				t.Fatal(k, i, err)
			}
		}
	}
''')
for k in ('c47-own', 'c71-pidword', 'c27-reuse'):
    del seeds[k]
