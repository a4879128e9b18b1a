//verif:props C70 C71
package zztecdsa

import (
	"fmt"
	"math/big"
	"os"
	"strconv"

	"github.com/binance-chain/tss-lib/crypto/paillier"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
	gen "gitlab.com/alephledger/threshold-ecdsa/zzcmd/gen_keys"
)

func zzKey(name string, bits uint, min int64) *paillier.PrivateKey {
	max := new(big.Int).Lsh(big.NewInt(1), bits)
	pk := &paillier.PrivateKey{}
	pk.N = zzsym.Big(name+"N", big.NewInt(min), max)
	pk.LambdaN = zzsym.Big(name+"L", big.NewInt(min), max)
	pk.PhiN = zzsym.Big(name+"P", big.NewInt(min), max)
	return pk
}

func zzSame(a, b *paillier.PrivateKey, label string) {
	zzsym.Assert(zzsym.And(zzsym.BigEq(a.N, b.N), zzsym.And(zzsym.BigEq(a.LambdaN, b.LambdaN), zzsym.BigEq(a.PhiN, b.PhiN))), label)
}

func zzRoundTrip(bits uint) {
	pk := zzKey("k", bits, 0)
	keep := &paillier.PrivateKey{}
	keep.N, keep.LambdaN, keep.PhiN = new(big.Int).Set(pk.N), new(big.Int).Set(pk.LambdaN), new(big.Int).Set(pk.PhiN)
	enc := gen.ZZEncode(pk)
	zzSame(pk, keep, "encoding leaves the key unchanged")
	got, err := decodePaillierPrivateKey(enc)
	zzsym.Assert(err == nil && got != nil, "an encoded key can be decoded")
	if err == nil && got != nil {
		zzSame(got, keep, "the decoded key is the encoded one")
	}
	zzsym.Reach("done")
}

func VerifC70_Private() {
	zzsym.Bound("every key with components below 2^320, also zero")
	zzRoundTrip(320)
}

func VerifC70_Large() {
	zzsym.Bound("every key with components below 2^4096, also zero")
	zzRoundTrip(4096)
}

func zzFiles(n int, addrs []string) {
	zzFilesOf(n, addrs, func(i int) *paillier.PrivateKey { return zzKey(fmt.Sprintf("k%d", i), 320, 1) })
}

// zzKnown is a key of 33 bytes, different for every number.
func zzKnown(i int) *paillier.PrivateKey {
	at := func(j int) *big.Int {
		x := new(big.Int).Lsh(big.NewInt(int64(1+i)), 240)
		return x.Add(x, big.NewInt(int64(17*i+j)))
	}
	pk := &paillier.PrivateKey{}
	pk.N, pk.LambdaN, pk.PhiN = at(1), at(2), at(3)
	return pk
}

func zzFilesOf(n int, addrs []string, key func(int) *paillier.PrivateKey) {
	var keys []*paillier.PrivateKey
	paillier.Fresh = func(bits int) *paillier.PrivateKey {
		pk := key(len(keys))
		keys = append(keys, pk)
		return pk
	}
	zzsym.Scratch(func() {
		os.Args = []string{"gen_keys", strconv.Itoa(n)}
		if addrs != nil {
			text := ""
			for _, a := range addrs {
				text += a + "\n"
			}
			if os.WriteFile("addrs", []byte(text), 0644) != nil {
				zzsym.Fail("files can be written")
			}
			os.Args = append(os.Args, "addrs")
		}
		gen.ZZMain()
		zzsym.Assert(len(keys) == n, "a key for every party")
		for i := 0; i < n; i++ {
			m, err := getMember(strconv.Itoa(i) + ".pk")
			zzsym.Assert(err == nil && m != nil, "key files are read back")
			if err != nil || m == nil {
				continue
			}
			zzsym.Assert(m.pid == i, "a key file holds the number of its party")
			zzSame(m.privateKey, keys[i], "a key file holds the key of its party")
		}
		c, err := getCommittee("keys_addrs")
		zzsym.Assert(err == nil && c != nil, "the committee file is read back")
		if err != nil || c == nil {
			return
		}
		zzsym.Assert(len(c.publicKeys) == n && len(c.addresses) == n, "the committee has all parties")
		if len(c.publicKeys) != n || len(c.addresses) != n {
			return
		}
		known := map[string]bool{}
		for i := range keys {
			zzsym.Assert(zzsym.BigEq(c.publicKeys[i].N, keys[i].N), "the committee file holds the key of every party")
			if addrs != nil {
				zzsym.Assert(c.addresses[i] == addrs[i], "the committee file holds the address of every party")
			}
			zzsym.Assert(!known[c.addresses[i]], "addresses are different")
			known[c.addresses[i]] = true
		}
	})
	zzsym.Reach("done")
}

func VerifC70_Files() {
	zzsym.Bound("the files of 2, 3 and 12 parties with any keys with components from 1 to 2^320, default addresses")
	zzFiles([]int{2, 3, 12}[zzsym.Choice("n", 3)], nil)
}

func VerifC70_Addresses() {
	zzsym.Bound("the files of 3 parties with any keys with components from 1 to 2^320, given addresses")
	zzFiles(3, []string{"example.org:9", "10.0.0.1:65535", "[::1]:8000"})
}

func VerifC70_Many() {
	zzsym.Bound("the files of 70 and 300 parties, any key with components from 1 to 2^320 of the first, the middle or the last of them and known keys of the others, default addresses")
	n := []int{70, 300}[zzsym.Choice("n", 2)]
	at := []int{0, n / 2, n - 1}[zzsym.Choice("at", 3)]
	zzFilesOf(n, nil, func(i int) *paillier.PrivateKey {
		if i == at {
			return zzKey("k", 320, 1)
		}
		return zzKnown(i)
	})
}

func VerifC70_Big() {
	zzsym.Bound("the files of 2 parties with any keys with components from 1 to 2^2200, given addresses")
	zzFilesOf(2, []string{"example.org:9", "10.0.0.1:65535"}, func(i int) *paillier.PrivateKey { return zzKey(fmt.Sprintf("k%d", i), 2200, 1) })
}
