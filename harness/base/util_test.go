package base

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
)

func bytesReader(b []byte) io.Reader { return bytes.NewReader(b) }

// cutReader hands out data in pieces that end at the given positions.
type cutReader struct {
	data    []byte
	pos     int
	cuts    []int // increasing
	eofLast bool  // report EOF together with the last bytes
	zeros   bool  // return (0, nil) once before every piece
	zeroed  bool
	reads   int
}

func (c *cutReader) Read(p []byte) (int, error) {
	c.reads++
	if c.zeros && !c.zeroed && len(p) > 0 {
		c.zeroed = true
		return 0, nil
	}
	c.zeroed = false
	if c.pos == len(c.data) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := len(c.data)
	for _, k := range c.cuts {
		if k > c.pos {
			end = k
			break
		}
	}
	n := copy(p, c.data[c.pos:end])
	c.pos += n
	if c.eofLast && c.pos == len(c.data) {
		return n, io.EOF
	}
	return n, nil
}

func asInt(k fmt.Stringer) *big.Int { return k.(*big.Int) }
