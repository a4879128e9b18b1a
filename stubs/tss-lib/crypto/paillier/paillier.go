// Package paillier is an idealised stand-in for the Paillier cryptosystem of
// tss-lib: the homomorphic interface is kept, a ciphertext is the plaintext
// modulo N. Secrecy is not modelled, only the algebra.
package paillier

import (
	"errors"
	"math/big"
	"time"
)

type (
	// PublicKey of the cryptosystem.
	PublicKey struct {
		N *big.Int
	}
	// PrivateKey of the cryptosystem.
	PrivateKey struct {
		PublicKey
		LambdaN, PhiN *big.Int
	}
)

// ErrMessageTooLong is returned for values outside the message space.
var ErrMessageTooLong = errors.New("the message is too large or < 0")

// Fresh supplies key material; harnesses set it.
var Fresh func(bitLen int) *PrivateKey

// GenerateKeyPair makes a key pair with a modulus of the given size.
func GenerateKeyPair(modulusBitLen int, timeout time.Duration, optionalConcurrency ...int) (*PrivateKey, *PublicKey, error) {
	var k *PrivateKey
	if Fresh != nil {
		k = Fresh(modulusBitLen)
	} else {
		n := new(big.Int).Lsh(big.NewInt(1), uint(modulusBitLen))
		n.Sub(n, big.NewInt(1))
		k = &PrivateKey{PublicKey{n}, new(big.Int).Set(n), new(big.Int).Set(n)}
	}
	return k, &k.PublicKey, nil
}

// Encrypt returns a ciphertext of m.
func (pk *PublicKey) Encrypt(m *big.Int) (*big.Int, error) {
	if m.Sign() < 0 || m.Cmp(pk.N) >= 0 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Set(m), nil
}

func (pk *PublicKey) isCiphertext(c *big.Int) bool {
	return c.Sign() >= 0 && c.Cmp(new(big.Int).Mul(pk.N, pk.N)) < 0
}

// HomoMult multiplies the plaintext by m.
func (pk *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if m.Sign() < 0 || m.Cmp(pk.N) >= 0 || !pk.isCiphertext(c1) {
		return nil, ErrMessageTooLong
	}
	c := new(big.Int).Mul(m, c1)
	return c.Mod(c, pk.N), nil
}

// HomoAdd adds the plaintexts.
func (pk *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	if !pk.isCiphertext(c1) || !pk.isCiphertext(c2) {
		return nil, ErrMessageTooLong
	}
	c := new(big.Int).Add(c1, c2)
	return c.Mod(c, pk.N), nil
}

// Decrypt returns the plaintext.
func (privateKey *PrivateKey) Decrypt(c *big.Int) (*big.Int, error) {
	if !privateKey.isCiphertext(c) {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Mod(c, privateKey.N), nil
}
