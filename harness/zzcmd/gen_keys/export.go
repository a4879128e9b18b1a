//verif:props C70 C71
package zzgen_keys

import "github.com/binance-chain/tss-lib/crypto/paillier"

// ZZMain runs the program.
func ZZMain() { main() }

// ZZEncode encodes a key the way the program does.
func ZZEncode(pk *paillier.PrivateKey) string { return encodePaillierPrivateKey(pk) }
