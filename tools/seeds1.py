CU, CO, ZK, HA = 'pkg/curve/secp256k1.go', 'pkg/crypto/commitment/commitment.go', 'pkg/crypto/zkpok/zkpok.go', 'pkg/crypto/hash.go'
def t(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n' % (pkg, ''.join('\t"%s"\n' % i for i in ['testing'] + imports), body)
B, IO, BYT = 'math/big', 'io', 'bytes'
CUR, COM = 'gitlab.com/alephledger/threshold-ecdsa/pkg/curve', 'gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment'
FS = '''	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(77)))
'''
FC = '''	f := NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(77)))
	n := big.NewInt
'''
seeds = {
'c04-equal-ylen': dict(prop='C04', pkg='pkg/curve', edits=[(CU, '	return (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0)\n', '	return (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0 || as.y.BitLen() < 254 && bs.y.BitLen() < 257)\n')],
  needs='two mutually inverse points one of which has an y coordinate of fewer than 254 bits', breaks='such a point compares equal to its inverse',
  demo=t('curve', [B], '''	g := NewSecp256k1Group()
	for k := int64(1); k < 3000; k++ {
		p := g.ScalarBaseMult(big.NewInt(k))
		if q := g.Neg(p); g.Equal(p, q) || g.Equal(q, p) {
			t.Fatal(k)
		}
	}
''')),
'c05-leny': dict(prop='C05', pkg='pkg/curve', edits=[(CU, '	lenY := uint32(len(as.y.Bytes()))\n', '	lenY := lenX\n')],
  needs='a point whose coordinates have different byte lengths', breaks='the announced length of y is that of x, so the encoding does not decode or decodes to another point',
  demo=t('curve', [B, BYT], '''	g := NewSecp256k1Group()
	for k := int64(1); k < 2000; k++ {
		p := g.ScalarBaseMult(big.NewInt(k))
		var b bytes.Buffer
		if g.Encode(p, &b) != nil {
			t.Fatal(k)
		}
		b.Write([]byte{1, 2, 3})
		if q, err := g.Decode(&b); err != nil || !g.Equal(p, q) || b.Len() != 3 {
			t.Fatal(k, err)
		}
	}
''')),
'c07-neutral-write': dict(prop='C07', pkg='pkg/curve', edits=[(CU, '''		if _, err := w.Write(buf); err != nil {
			return err
		}
		return nil
''', '''		w.Write(buf)
		return nil
''')], needs='a writer that fails while the neutral element is encoded', breaks='the error of the writer is lost',
  demo='''package curve

import (
	"errors"
	"testing"
)

type zzFail struct{}

func (zzFail) Write(p []byte) (int, error) { return 0, errors.New("full") }

func TestZZDemo(t *testing.T) {
	g := NewSecp256k1Group()
	if g.Encode(g.Neutral(), zzFail{}) == nil || g.Encode(g.Gen(), zzFail{}) == nil {
		t.Fatal("error lost")
	}
}
'''),
'c01-add-neutral-left': dict(prop='C01', pkg='pkg/curve', edits=[(CU, '''	} else if bs.x == nil && bs.y == nil {
		resultX = new(big.Int).Set(as.x)
''', '''	} else if bs.x == nil && bs.y == nil || as.x.Cmp(bs.x) == 0 && as.y.Cmp(bs.y) > 0 {
		resultX = new(big.Int).Set(as.x)
''')], needs='the sum of a point and its inverse, the point with the larger y first', breaks='P + (-P) is P and not the neutral element',
  demo=t('curve', [B], '''	g := NewSecp256k1Group()
	for k := int64(1); k < 50; k++ {
		p := g.ScalarBaseMult(big.NewInt(k))
		if !g.Equal(g.Add(p, g.Neg(p)), g.Neutral()) || !g.Equal(g.Add(g.Neg(p), p), g.Neutral()) {
			t.Fatal(k)
		}
	}
''')),
'c03-exp-mod': dict(prop='C03', pkg='pkg/crypto/commitment', edits=[(CO, '	c.first = c.curve.ScalarMult(x.first, n)\n', '	// one reduction serves both components\n	n.Mod(n, c.curve.Order())\n	c.first = c.curve.ScalarMult(x.first, n)\n')],
  needs='an exponent not below the group order', breaks='the exponent passed by the caller is changed',
  demo=t('commitment', [B, CUR], FC+'''	k := new(big.Int).Add(f.Curve().Order(), n(5))
	k0 := new(big.Int).Set(k)
	f.Neutral().Exp(f.Create(n(2), n(3)), k)
	if k.Cmp(k0) != 0 {
		t.Fatal(k)
	}
''')),
'c11-double': dict(prop='C11', pkg='pkg/crypto/commitment', edits=[(CO, '''	c.first = c.curve.Add(a.first, b.first)
	c.second = c.curve.Add(a.second, b.second)
''', '''	if a == b {
		// doubling
		b = a.Exp(a, big.NewInt(2))
		c.first, c.second = b.first, b.second
		return c
	}
	c.first = c.curve.Add(a.first, b.first)
	c.second = c.curve.Add(a.second, b.second)
''')], needs='a composition of a commitment with itself into another one', breaks='the operand is doubled too',
  demo=t('commitment', [B, CUR], FC+'''	a, c := f.Create(n(2), n(3)), f.Neutral()
	c.Compose(a, a)
	if !c.Equal(c, f.Create(n(4), n(6))) || !c.Equal(a, f.Create(n(2), n(3))) {
		t.Fatal("wrong sum")
	}
''')),
'c12-isneutral': dict(prop='C12', pkg='pkg/crypto/commitment', edits=[(CO, '	return a.Equal(e.neutral, a)\n', '	return e.curve.Equal(e.neutral.first, a.first)\n')],
  needs='a commitment to a non-zero value with randomness zero modulo the order', breaks='it counts as neutral',
  demo=t('commitment', [B, CUR], FC+'''	if f.IsNeutral(f.Create(n(5), n(0))) || f.IsNeutral(f.Create(n(5), f.Curve().Order())) || !f.IsNeutral(f.Neutral()) {
		t.Fatal("neutrality")
	}
''')),
'c10-exp-zero': dict(prop='C10', pkg='pkg/crypto/commitment', edits=[(CO, '	c.first = c.curve.ScalarMult(x.first, n)\n', '	if n.BitLen() <= 1 {\n		c.first, c.second = x.first, x.second\n		return c\n	}\n	c.first = c.curve.ScalarMult(x.first, n)\n')],
  needs='the exponent zero', breaks='a commitment raised to zero is the commitment itself and not the neutral one',
  demo=t('commitment', [B, CUR], FC+'''	for k := int64(0); k < 4; k++ {
		if c := f.Neutral().Exp(f.Create(n(7), n(9)), n(k)); !c.Equal(c, f.Create(n(7*k), n(9*k))) {
			t.Fatal(k)
		}
	}
''')),
'c13-eof': dict(prop='C13', pkg='pkg/crypto/commitment', edits=[(CO, '''	c.second, err = c.curve.Decode(r)
	if err != nil {
''', '''	c.second, err = c.curve.Decode(r)
	if errors.Is(err, io.EOF) {
		c.second = c.curve.Neutral()
	} else if err != nil {
'''), (CO, 'import (\n', 'import (\n	"errors"\n')], needs='data that ends exactly between the two components', breaks='the truncated commitment is accepted with a neutral second component',
  demo=t('commitment', [B, BYT, CUR], FC+'''	var b bytes.Buffer
	f.Create(n(7), n(9)).Encode(&b)
	for i := 0; i < b.Len(); i++ {
		if new(ElGamal).Decode(bytes.NewReader(b.Bytes()[:i])) == nil {
			t.Fatal(i)
		}
	}
''')),
'c22-neutral-accept': dict(prop='C22', pkg='pkg/crypto/zkpok', edits=[(ZK, '	d = d.Compose(z.xy, d.Exp(comm, e))\n', '	if fct.IsNeutral(comm) {\n		return nil\n	}\n	d = d.Compose(z.xy, d.Exp(comm, e))\n')],
  needs='a proof for the neutral commitment', breaks='any responses are accepted for it',
  demo=t('zkpok', [B, CUR, COM], FS+'''	p, _ := NewZKEGKnow(f, f.Neutral(), big.NewInt(0), big.NewInt(0))
	if p.Verify(f, f.Neutral()) != nil {
		t.Fatal("honest proof rejected")
	}
	p.z1.Add(p.z1, big.NewInt(1))
	if p.Verify(f, f.Neutral()) == nil {
		t.Fatal("wrong response accepted")
	}
''')),
'c24-c1-twice': dict(prop='C24', pkg='pkg/crypto/zkpok', all=True, edits=[(ZK, '	if err := c2.Encode(buf); err != nil {', '	if err := c1.Encode(buf); err != nil {')],
  needs='two transcripts that differ in the second commitment only', breaks='the challenge of a refresh proof does not depend on the second commitment, in the prover and the verifier alike',
  demo='''package zkpok

import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// A prover who fixes the first message, learns the challenge and only then
// chooses the second commitment answers for a commitment to another value.
func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	q := g.Order()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(77)))
	n := big.NewInt
	c1 := f.Create(n(5), n(6))
	// the first message is a commitment to one
	z := n(12345)
	xy := f.Create(n(1), z)
	var b bytes.Buffer
	c1.Encode(&b)
	c1.Encode(&b)
	xy.Encode(&b)
	e := pkg.HashToBigInt(b.Bytes())
	// c2 is c1 plus a commitment to d with 1 + e*d = 0
	d := new(big.Int).ModInverse(e, q)
	d.Neg(d).Mod(d, q)
	c2 := f.Neutral().Compose(c1, f.Create(d, n(0)))
	if (&ZKEGRefresh{z1: z, xy: xy}).Verify(f, c1, c2) == nil {
		t.Fatal("accepted for a commitment to another value")
	}
	p, err := NewZKEGRefresh(f, c1, c1, n(0))
	if err != nil || p.Verify(f, c1, c1) != nil {
		t.Fatal("honest proof rejected")
	}
}
'''),
'c27-range': dict(prop='C27', pkg='pkg/crypto/zkpok', edits=[(ZK, '	rho, _ := rand.Int(rand.Reader, order)\n', '	rho, _ := rand.Int(rand.Reader, new(big.Int).Rsh(order, 128))\n')],
  needs='many proofs: only the distribution of a nonce is wrong', breaks='the nonce that masks the value covers half of the bits only',
  demo=t('zkpok', [B, BYT, CUR, COM, 'crypto/rand'], FS+'''	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = bytes.NewReader(bytes.Repeat([]byte{0x7f}, 4096))
	p, err := NewZKEGKnow(f, f.Create(big.NewInt(0), big.NewInt(1)), big.NewInt(0), big.NewInt(1))
	if err != nil {
		t.Fatal(err)
	}
	// the value is zero, so the response is the nonce
	if p.z2.BitLen() < 200 {
		t.Fatal("short nonce", p.z2.BitLen())
	}
''')),
'c30-trim': dict(prop='C30', pkg='pkg/crypto', edits=[(HA, '	r := hkdf.New(sha256.New, msg, ', '	r := hkdf.New(sha256.New, bytes.TrimRight(msg, "\\x00"), '), (HA, 'import (\n', 'import (\n	"bytes"\n')],
  needs='messages that end in zero bytes', breaks='messages that differ in trailing zero bytes have the same hash',
  demo=t('pkg', [], '''	if HashToBigInt([]byte{1, 2}).Cmp(HashToBigInt([]byte{1, 2, 0})) == 0 {
		t.Fatal("a byte is not used")
	}
	m := []byte{5, 0, 0}
	if HashToBigInt(m).Cmp(HashToBigInt([]byte{5, 0, 0})) != 0 {
		t.Fatal("not a function")
	}
''')),
'c25-slice': dict(prop='C25', pkg='pkg/crypto/zkpok', edits=[(ZK, '	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])\n', '	z.z2 = new(big.Int).SetBytes(allBytes[len(allBytes)-int(z1Len):])\n')],
  needs='responses of different byte lengths', breaks='the second response is decoded from the wrong bytes',
  demo=t('zkpok', [B, BYT, CUR, COM], FS+'''	for _, z := range [][2]int64{{300, 5}, {5, 300}, {0, 7}, {7, 7}} {
		p := &ZKEGKnow{z1: big.NewInt(z[0]), z2: big.NewInt(z[1]), xy: f.Neutral()}
		var b bytes.Buffer
		p.Encode(&b)
		var d ZKEGKnow
		if err := d.Decode(&b); err != nil || d.z1.Cmp(p.z1) != 0 || d.z2.Cmp(p.z2) != 0 {
			t.Fatal(z, err)
		}
	}
''')),
'c20-noreduce': dict(prop='C20', pkg='pkg/crypto/zkpok', edits=[(ZK, '	z2.Add(rho, z2.Mul(e, value))\n', '	z2.Add(rho, z2.Mul(e, value))\n	if z2.Sign() == 0 || value.BitLen() > 256 {\n		z2.SetInt64(1)\n	}\n')],
  needs='a value of more than 256 bits', breaks='the honest proof for such a value is rejected',
  demo=t('zkpok', [B, CUR, COM], FS+'''	v := new(big.Int).Lsh(big.NewInt(3), 256)
	r := big.NewInt(11)
	c := f.Create(v, r)
	p, err := NewZKEGKnow(f, c, v, r)
	if err != nil || p.Verify(f, c) != nil {
		t.Fatal("honest proof rejected")
	}
''')),
'c23-trivial': dict(prop='C23', pkg='pkg/crypto/zkpok', edits=[(ZK, '	dtmp := fct.Neutral()\n', '	dtmp := fct.Neutral()\n	if z.z1.Sign() == 0 && fct.IsNeutral(z.xy) {\n		// refreshed with randomness zero\n		return nil\n	}\n')],
  needs='a refresh proof with response zero and neutral first message', breaks='it is accepted for any two commitments',
  demo=t('zkpok', [B, CUR, COM], FS+'''	p := &ZKEGRefresh{z1: big.NewInt(0), xy: f.Neutral()}
	a, b := f.Create(big.NewInt(1), big.NewInt(2)), f.Create(big.NewInt(3), big.NewInt(4))
	if p.Verify(f, a, b) == nil {
		t.Fatal("accepted for different values")
	}
''')),
}
