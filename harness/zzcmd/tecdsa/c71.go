//verif:props C71
package zztecdsa

import (
	"encoding/base64"
	"math/big"
	"os"

	"github.com/binance-chain/tss-lib/crypto/paillier"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
	gen "gitlab.com/alephledger/threshold-ecdsa/zzcmd/gen_keys"
)

func zzComplete(pk *paillier.PrivateKey, err error) {
	zzsym.Assert((pk == nil) == (err != nil), "a key or an error")
	if err == nil && pk != nil {
		zzsym.Assert(pk.N != nil && pk.LambdaN != nil && pk.PhiN != nil, "a key is complete")
	}
}

func VerifC71_PrivateBytes() {
	zzsym.Bound("texts of any up to 40 bytes")
	pk, err := decodePaillierPrivateKey(base64.StdEncoding.EncodeToString(zzsym.Bytes("data", 40)))
	zzComplete(pk, err)
	zzsym.Reach("done")
}

var zzNotBase64 = []string{"!", "A", "AA", "AAA", "====", "A===", "AAAA=", "AA==AA", "\x00", "AAA\xff", "|", "AA A"}

func VerifC71_PrivateText() {
	zzsym.Bound("12 texts that are not base64, and the empty text")
	pk, err := decodePaillierPrivateKey(zzNotBase64[zzsym.Choice("text", len(zzNotBase64))])
	zzComplete(pk, err)
	zzsym.Assert(err != nil, "a text that is not base64 is an error")
	pk, err = decodePaillierPrivateKey("")
	zzComplete(pk, err)
	zzsym.Assert(err != nil, "an empty text is an error")
	zzsym.Reach("done")
}

// What is left of an encoded key, or what it is extended to, is an error.
func VerifC71_PrivatePart() {
	zzsym.Bound("every encoded key with components from 1 to 2^320, cut at any place or extended by up to 4 bytes")
	pk := zzKey("k", 320, 1)
	data, err := base64.StdEncoding.DecodeString(gen.ZZEncode(pk))
	if err != nil {
		zzsym.Fail("the encoding is base64")
	}
	if zzsym.Choice("how", 2) == 0 {
		cut := zzsym.Int("cut", 0, 127)
		zzsym.Assume(cut < len(data))
		data = data[:cut]
	} else {
		more := zzsym.BytesN("more", 1+zzsym.Choice("k", 4))
		data = append(append(make([]byte, 0, len(data)+len(more)), data...), more...)
	}
	pk, err = decodePaillierPrivateKey(base64.StdEncoding.EncodeToString(data))
	zzComplete(pk, err)
	zzsym.Assert(err != nil, "incomplete or excess data is an error")
	zzsym.Reach("done")
}

func zzLine(line string) (*paillier.PublicKey, string, error) {
	pk, addr, err := parseCommitteeLine(line)
	zzsym.Assert((pk == nil) == (err != nil), "a key or an error")
	if err == nil && pk != nil {
		zzsym.Assert(pk.N != nil && addr != "", "a key and an address")
	}
	return pk, addr, err
}

func VerifC71_Line() {
	zzsym.Bound("lines with any key of up to 16 bytes and one of 4 addresses; lines that lack a part; keys that are not base64")
	switch zzsym.Choice("how", 3) {
	case 0:
		data := zzsym.Bytes("key", 16)
		addr := []string{"a:1", "example.org:10000", "[::1]:80", "x:y:z"}[zzsym.Choice("addr", 4)]
		pk, got, err := zzLine(base64.StdEncoding.EncodeToString(data) + "|" + addr)
		if len(data) == 0 {
			zzsym.Assert(err != nil, "an empty key is an error")
		} else {
			zzsym.Assert(err == nil, "a complete line is read")
		}
		if err == nil && pk != nil {
			zzsym.Assert(zzsym.BigEq(pk.N, new(big.Int).SetBytes(data)) && got == addr, "the key and address of the line")
		}
	case 1:
		bad := []string{"", "|", "AAAA", "AAAA|", "|a:1", "AAAA|a", "AAAA:1", " ", "a:1", "AAAA|localhost"}
		_, _, err := zzLine(bad[zzsym.Choice("line", len(bad))])
		zzsym.Assert(err != nil, "an incomplete line is an error")
	case 2:
		_, _, err := zzLine(zzNotBase64[zzsym.Choice("text", len(zzNotBase64))] + "|a:1")
		zzsym.Assert(err != nil, "a key that is not base64 is an error")
	}
	zzsym.Reach("done")
}

// Any text after the key.
func VerifC71_LineText() {
	zzsym.Bound("every text of up to 5 bytes after a key and separator")
	pk, addr, err := zzLine(base64.StdEncoding.EncodeToString([]byte{1, 2, 3}) + "|" + string(zzsym.Bytes("rest", 5)))
	if err == nil && pk != nil {
		zzsym.Assert(pk.N.Cmp(big.NewInt(0x010203)) == 0, "the key of the line")
		zzsym.Assert(len(addr) <= 5, "the address of the line")
	}
	zzsym.Reach("done")
}

func zzFile(text string) {
	if os.WriteFile("f", []byte(text), 0644) != nil {
		zzsym.Fail("files can be written")
	}
}

func VerifC71_Member() {
	zzsym.Bound("a key file with any key with components below 2^320 and one of 13 ends; files that lack the key")
	key := gen.ZZEncode(zzKey("k", 320, 1))
	zzsym.Scratch(func() {
		m, err := getMember("f")
		zzsym.Assert(m == nil && err != nil, "a missing file is an error")
		m, err = getMember("")
		zzsym.Assert(m == nil && err != nil, "no file is an error")
		ends := []string{"", " ", "\n", " -1", " -0x1", " x", " 1x", " 0x1", " 99999999999999999999", " 1.5", " -99999999999999999999", " +", " -"}
		if zzsym.Choice("key", 2) == 0 {
			zzFile(key + ends[zzsym.Choice("end", len(ends))])
		} else {
			zzFile([]string{"", " ", "\n", "0", "AAAA 0", "! 1", "|"}[zzsym.Choice("text", 7)])
		}
		m, err = getMember("f")
		zzsym.Assert(m == nil && err != nil, "a wrong key file is an error")
	})
	zzsym.Reach("done")
}

func VerifC71_Committee() {
	zzsym.Bound("committee files with any keys of up to 16 bytes of 0 to 3 parties, the last line whole or wrong")
	n := zzsym.Choice("n", 4)
	bad := zzsym.Choice("bad", 6)
	text := ""
	for i := 0; i < n; i++ {
		text += base64.StdEncoding.EncodeToString(append([]byte{1}, zzsym.BytesN("key", 15)...)) + "|a:1\n"
	}
	zzsym.Scratch(func() {
		zzFile(text + []string{"", "x", "|", "AAAA|b", "|a:1\n", "!|a:1"}[bad])
		c, err := getCommittee("f")
		zzsym.Assert((c == nil) == (err != nil), "a committee or an error")
		if bad > 0 || n < 2 {
			zzsym.Assert(err != nil, "a wrong line, or fewer than two parties, is an error")
		} else if err == nil {
			zzsym.Assert(len(c.publicKeys) == n && len(c.addresses) == n, "all parties")
		} else {
			zzsym.Fail("whole lines are read")
		}
		c, err = getCommittee("")
		zzsym.Assert(c == nil && err != nil, "no file is an error")
		c, err = getCommittee("g")
		zzsym.Assert(c == nil && err != nil, "a missing file is an error")
	})
	zzsym.Reach("done")
}
