//verif:props C05 C06 C07
package curve

import (
	"errors"
	"io"
)

var errZZ = errors.New("write failed")

// zzReader delivers data in pieces that end at the given positions.
type zzReader struct {
	data []byte
	pos  int
	cuts []int
}

func (r *zzReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(r.data) - r.pos
	if n == 0 {
		return 0, io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	for _, c := range r.cuts {
		if c > r.pos && c < r.pos+n {
			n = c - r.pos
		}
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

// zzWriter fails at the k-th write, and at all later ones unless once is set.
type zzWriter struct {
	k      int
	once   bool // later writes succeed
	failed bool
	n      int
}

func (w *zzWriter) Write(p []byte) (int, error) {
	if w.k == 0 {
		w.failed = true
		if w.once {
			w.k--
		}
		return 0, errZZ
	}
	w.k--
	w.n += len(p)
	return len(p), nil
}
