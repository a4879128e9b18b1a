# Seeds that keep something between two operations.
SY = "pkg/sync/server.go"
_old = open(os.path.join(V, 'seeded', 'c60-long', 'demo_test.go')).read().split('func TestZZDemo')[0]
_sh = open(os.path.join(V, 'seeded', 'c60-long', 'demo.sh')).read()
CM = 'pkg/crypto/commitment/commitment.go'
seeds = {
'c10-reuse': dict(prop='C10', pkg='pkg/crypto/commitment', edits=[
(CM, '''	return &ElGamal{
		first: e.curve.ScalarBaseMult(r),
		second: e.curve.Add(
			e.curve.ScalarMult(e.h, r),
			e.curve.ScalarBaseMult(value)),
''', '''	if r != e.lastR {
		e.lastR = r
		e.first, e.mask = e.curve.ScalarBaseMult(r), e.curve.ScalarMult(e.h, r)
	}
	return &ElGamal{
		first:  e.first,
		second: e.curve.Add(e.mask, e.curve.ScalarBaseMult(value)),
'''),
(CM, '''	h       curve.Point
	neutral *ElGamal
	curve   curve.Group
}''', '''	h       curve.Point
	neutral *ElGamal
	curve   curve.Group

	// products with the randomness of the last commitment
	lastR       *big.Int
	first, mask curve.Point
}''')],
 demo='''package commitment

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	f := NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(77)))
	r := big.NewInt(5)
	f.Create(big.NewInt(3), r)
	r.Add(r, big.NewInt(1))
	if c := f.Create(big.NewInt(3), r); !c.Equal(c, f.Create(big.NewInt(3), big.NewInt(6))) {
		t.Fatal("wrong randomness")
	}
}
''', needs='two commitments made with the same integer object as randomness, whose value changes in between', breaks='the second commitment has the randomness of the first'),
'c60-reuse': dict(prop='C60', pkg='pkg/sync', sh=_sh, extra=[os.path.join(V, 'stubs')], edits=[
(SY, '''		data = make([]byte, 10+len(toSend[0]))
		binary.LittleEndian.PutUint16(data[:2], s.pid)
		binary.LittleEndian.PutUint64(data[2:10], uint64(s.roundID))
		copy(data[10:], toSend[0])
''', '''		msg := toSend[0]
		if len(msg) == 0 || s.lastMsg != &msg[0] || len(s.lastData) != 10+len(msg) {
			data = make([]byte, 10+len(msg))
			binary.LittleEndian.PutUint16(data[:2], s.pid)
			copy(data[10:], msg)
			if len(msg) > 0 {
				s.lastMsg, s.lastData = &msg[0], data
			}
		} else {
			data = s.lastData
		}
		binary.LittleEndian.PutUint64(data[2:10], uint64(s.roundID))
'''),
(SY, '''	roundID                 int64
''', '''	lastMsg                 *byte
	lastData                []byte
	roundID                 int64
''')],
 demo=_old + '''func TestZZDemo(t *testing.T) {
	ss := zzServers(2)
	m := []byte{1, 2, 3}
	for k := byte(0); k < 2; k++ {
		m[0] = k
		for i, err := range zzRounds(ss, func(i int) error {
			msg := m
			if i == 1 {
				msg = []byte{9}
			}
			return ss[i].Round([][]byte{msg}, func(p uint16, d []byte) error {
				if p == 0 && d[0] != k {
					return fmt.Errorf("got %v in round %d", d, k)
				}
				return nil
			})
		}) {
			if err != nil {
				t.Fatal(i, err)
			}
		}
	}
}
''', needs='two rounds in which a party sends common messages from the same memory, with different content', breaks='the second round delivers the bytes of the first'),
}
