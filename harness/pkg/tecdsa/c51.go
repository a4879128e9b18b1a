//verif:props C51
package tecdsa

import (
	"bytes"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/zzsym"
)

// zzMarks are the messages that tell that a presignature is used.
func zzMarks(p *presig) [][]byte {
	g := zzGroup()
	buf := &bytes.Buffer{}
	if g.Encode(g.ScalarBaseMult(arith.ZZShare(p.k)), buf) != nil {
		zzsym.Fail("points can be encoded")
	}
	return [][]byte{buf.Bytes(), arith.ZZShare(p.tau).Bytes()}
}

// zzUse has the parties sign a number of messages; in each attempt data of one
// round may be missing. It checks which presignatures are used.
func zzUse(n, t, m, attempts int) {
	zzsym.Generic(true)
	net := arith.ZZNewNet(n)
	ps := zzPresigned(net, n, t, m)
	marks := make([][][][]byte, n)
	names := make([]map[*presig]int, n)
	for i, p := range ps {
		names[i] = map[*presig]int{}
		for j, s := range p.presig {
			names[i][s] = j
			marks[i] = append(marks[i], zzMarks(s))
		}
	}
	for a := 0; a < attempts; a++ {
		before := make([][]*presig, n)
		for i := range ps {
			before[i] = append([]*presig{}, ps[i].presig...)
		}
		fail := zzsym.Choice("missing", 4) - 1
		sent := make([][][]byte, n)
		net.Alter(func(round, from, to int, data []byte) []byte {
			sent[from] = append(sent[from], data)
			if round == fail {
				return nil
			}
			return data
		})
		msg := zzsym.Scalar("message")
		net.Run(func(pid uint16, s sync.Server) {
			sig, err := ps[pid].Sign(msg)
			zzsym.Assert((sig == nil) == (err != nil), "a signature or an error")
			if len(before[pid]) == 0 {
				zzsym.Assert(err != nil, "signing without a presignature fails")
			}
			if fail >= 0 && t == n {
				zzsym.Assert(err != nil, "signing fails when data is missing")
			}
		})
		for i, p := range ps {
			left := map[int]int{}
			for _, s := range p.presig {
				j, ok := names[i][s]
				zzsym.Assert(ok, "no presignature appears")
				left[j]++
			}
			if len(before[i]) == 0 {
				zzsym.Assert(len(p.presig) == 0 && len(sent[i]) == 0, "nothing is used when there are none")
				continue
			}
			zzsym.Assert(len(p.presig) == len(before[i])-1, "exactly one is consumed")
			zzsym.Assert(len(left) == len(p.presig), "no presignature is doubled")
			had := map[int]bool{}
			for _, s := range before[i] {
				had[names[i][s]] = true
			}
			for j := 0; j < m; j++ {
				used := false
				for _, d := range sent[i] {
					for _, mark := range marks[i][j] {
						if bytes.Equal(d, mark) {
							used = true
						}
					}
				}
				zzsym.Assert(!used || had[j] && left[j] == 0, "what is used is consumed and never used again")
			}
		}
	}
	zzsym.Reach("done")
}

func VerifC51_Use() {
	zzsym.Bound("3 attempts with 2 presignatures, any messages, no coincidences, each attempt complete or without the data of any one round, 2 parties, threshold 2")
	zzUse(2, 2, 2, 3)
}

func VerifC51_UseThree() {
	zzsym.Bound("3 attempts with 3 presignatures, any messages, no coincidences, each attempt complete or without the data of any one round, 3 parties, threshold 2")
	zzUse(3, 2, 3, 3)
}

func VerifC51_UseFour_T() {
	zzsym.Bound("4 attempts with 4 presignatures, any messages, no coincidences, each attempt complete or without the data of any one round, 2 parties, threshold 1")
	zzUse(2, 1, 4, 4)
}

// zzPrepare lets the parties prepare presignatures; data of one round is missing.
func zzPrepare(n, t, m int) {
	zzsym.Generic(true)
	net := arith.ZZNewNet(n)
	ps := zzPresigned(net, n, t, m)
	before := make([][]*presig, n)
	for i := range ps {
		before[i] = append([]*presig{}, ps[i].presig...)
	}
	marks := make([][][][]byte, n)
	for i := range ps {
		for _, b := range before[i] {
			marks[i] = append(marks[i], zzMarks(b))
		}
	}
	fail := zzsym.Choice("missing", 25) - 1
	net.Alter(func(round, from, to int, data []byte) []byte {
		if round == fail {
			return nil
		}
		return data
	})
	net.Run(func(pid uint16, s sync.Server) {
		err := ps[pid].Presign(uint16(t))
		p := ps[pid].presig
		grown := len(p) - len(before[pid])
		zzsym.Assert(err == nil && grown == 1 || err != nil && grown == 0, "one more after success, none after a failure")
		for j, b := range before[pid] {
			for c, mark := range zzMarks(b) {
				zzsym.Assert(bytes.Equal(mark, marks[pid][j][c]), "presignatures stay as they are")
			}
		}
		zzsym.Assert(err != nil || fail < 0 || fail >= net.Rounds(int(pid)), "a round without data is an error")
		if grown < 0 {
			return
		}
		for j, s := range before[pid] {
			zzsym.Assert(p[j] == s, "presignatures stay")
		}
		if err == nil && grown == 1 {
			s := p[len(p)-1]
			zzsym.Assert(s.k != nil && s.rho != nil && s.eta != nil && s.tau != nil && int(s.t) == t, "the presignature is complete")
			for _, b := range before[pid] {
				if s == b || zzsym.BigEq(arith.ZZShare(s.k), arith.ZZShare(b.k)) || zzsym.BigEq(arith.ZZShare(s.tau), arith.ZZShare(b.tau)) {
					zzsym.Fail("the presignature is new")
				}
			}
		}
	})
	zzsym.Reach("done")
}

func VerifC51_Prepare() {
	zzsym.Bound("one preparation, complete or without the data of any one of 24 rounds, no coincidences, one presignature there, 2 parties, threshold 1")
	zzPrepare(2, 1, 1)
}

func VerifC51_PrepareTwo_T() {
	zzsym.Bound("one preparation, complete or without the data of any one of 24 rounds, no coincidences, 2 presignatures there, 2 parties, threshold 2")
	zzPrepare(2, 2, 2)
}

// A presignature that was prepared and used can't be used again.
func VerifC51_Mixed() {
	zzsym.Bound("preparing and signing in any order, up to 3 steps, no coincidences, 2 parties, threshold 1")
	zzsym.Generic(true)
	net := arith.ZZNewNet(2)
	ps := zzPresigned(net, 2, 1, 0)
	have := 0
	var used []*big.Int
	for step := 0; step < 3; step++ {
		sign := zzsym.Choice("sign", 2) == 1
		before := [2][]*presig{}
		net.Run(func(pid uint16, s sync.Server) {
			before[pid] = append([]*presig{}, ps[pid].presig...)
			if sign {
				_, err := ps[pid].Sign(big.NewInt(int64(step)))
				zzsym.Assert((err == nil) == (have > 0), "signing succeeds when there is a presignature")
			} else {
				err := ps[pid].Presign(1)
				zzsym.Assert(err == nil, "the preparation succeeds")
			}
		})
		if !sign {
			have++
		} else if have > 0 {
			have--
			for _, s := range before[0] {
				gone := true
				for _, l := range ps[0].presig {
					if l == s {
						gone = false
					}
				}
				if gone {
					for _, u := range used {
						if zzsym.BigEq(u, arith.ZZShare(s.k)) {
							zzsym.Fail("no presignature is used twice")
						}
					}
					used = append(used, arith.ZZShare(s.k))
				}
			}
		}
		zzsym.Assert(len(ps[0].presig) == have && len(ps[1].presig) == have, "as many presignatures as prepared and not used")
	}
	zzsym.Reach("done")
}

func VerifC51_Wide() {
	zzsym.Bound("2 attempts with 9 presignatures, any messages, no coincidences, each attempt complete or without the data of any one round, 2 parties, threshold 1")
	zzUse(2, 1, 9, 2)
}

// zzAgain: presignatures prepared one after another are different ones, the
// earlier ones stay as they are, and each attempt uses another one.
func zzAgain(n, t, m int) {
	zzsym.Generic(true)
	net := arith.ZZNewNet(n)
	ps := zzPresigned(net, n, t, 0)
	marks := make([][][][]byte, n)
	for k := 0; k < m; k++ {
		net.Run(func(pid uint16, s sync.Server) {
			zzsym.Assert(ps[pid].Presign(uint16(t)) == nil, "the preparation succeeds")
		})
		for i, p := range ps {
			zzsym.Assert(len(p.presig) == k+1, "one more presignature")
			marks[i] = append(marks[i], zzMarks(p.presig[k]))
		}
	}
	for i, p := range ps {
		for j, s := range p.presig {
			for c, mark := range zzMarks(s) {
				zzsym.Assert(bytes.Equal(mark, marks[i][j][c]), "presignatures stay as they are")
				for k := 0; k < j; k++ {
					if bytes.Equal(mark, marks[i][k][c]) {
						zzsym.Fail("the presignature is new")
					}
				}
			}
		}
	}
	used := make([]int, m)
	for k := 0; k < m; k++ {
		sent := make([][][]byte, n)
		net.Alter(func(round, from, to int, data []byte) []byte {
			sent[from] = append(sent[from], data)
			return data
		})
		net.Run(func(pid uint16, s sync.Server) {
			_, err := ps[pid].Sign(big.NewInt(int64(k + 5)))
			zzsym.Assert(err == nil, "signing succeeds when there is a presignature")
		})
		for _, d := range sent[0] {
			for j := range used {
				if bytes.Equal(d, marks[0][j][0]) {
					used[j]++
				}
			}
		}
	}
	for _, u := range used {
		zzsym.Assert(n == 1 || u == n-1, "every attempt uses another presignature")
	}
	zzsym.Reach("done")
}

func VerifC51_Again() {
	zzsym.Bound("3 preparations and 3 attempts in a row, no coincidences, 1 party")
	zzAgain(1, 1, 3)
}

func VerifC51_AgainTwo() {
	zzsym.Bound("2 preparations and 2 attempts in a row, no coincidences, 2 parties, threshold 1")
	zzAgain(2, 1, 2)
}
