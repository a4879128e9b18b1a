//verif:props C03 C07 C20 C21 C22 C23 C24 C25 C26 C27
package zkpok

import (
	"errors"
	"io"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzWide is any non-negative integer of up to 264 bits.
func zzWide(name string) *big.Int {
	return zzsym.Big(name, big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 264))
}

// zzResp is any response that can be transmitted.
func zzResp(name string) *big.Int {
	return zzsym.Big(name, big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
}

func zzMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, zzsym.Order()) }

// zzFct is a factory for any base.
func zzFct() (*commitment.ElGamalFactory, *big.Int) {
	t := zzsym.Scalar("base")
	return commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(t)), t
}

// zzComm is a commitment with any two components: every pair of points is a
// commitment to some value with some randomness.
func zzComm(f *commitment.ElGamalFactory, name string) (c *commitment.ElGamal, v, r *big.Int) {
	v, r = zzsym.Scalar(name+".v"), zzsym.Scalar(name+".r")
	return f.Create(v, r), v, r
}

// zzLin is a + e*b modulo the order.
func zzLin(a, e, b *big.Int) *big.Int {
	x := new(big.Int).Mul(e, b)
	return zzMod(x.Add(x, a))
}

var errZZ = errors.New("write failed")

// zzReader delivers data in pieces that end at the given positions.
type zzReader struct {
	data []byte
	pos  int
	cuts []int
}

func (r *zzReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(r.data) - r.pos
	if n == 0 {
		return 0, io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	for _, c := range r.cuts {
		if c > r.pos && c < r.pos+n {
			n = c - r.pos
		}
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

// zzWriter fails at the k-th write, and at all later ones unless once is set.
type zzWriter struct {
	k      int
	once   bool // later writes succeed
	failed bool
}

func (w *zzWriter) Write(p []byte) (int, error) {
	if w.k == 0 {
		w.failed = true
		if w.once {
			w.k--
		}
		return 0, errZZ
	}
	w.k--
	return len(p), nil
}
