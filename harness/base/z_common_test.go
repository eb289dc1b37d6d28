package base

import (
	"fmt"
	"io"
	"math/big"

	"verif/detrand"
	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
)

// script is a source of randomness every read of which is decided by the exploration.
type script struct {
	next  func(n, read int) []byte // what read number read, of n bytes, returns
	reads []int
	total int
}

func (s *script) Read(p []byte) (int, error) {
	copy(p, s.next(len(p), len(s.reads)))
	s.reads = append(s.reads, len(p))
	s.total += len(p)
	if len(s.reads) > 5000 {
		panic(mc.Broken("5000 reads of randomness in one operation"))
	}
	return len(p), nil
}

func with(src io.Reader, f func()) {
	detrand.Set(src)
	defer detrand.Set(nil)
	f()
}

// pattern returns a source that repeats the given byte, changed at some positions of the stream.
func pattern(fill byte, at map[int]byte) *script {
	pos := 0
	s := &script{}
	s.next = func(n, _ int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = fill
			if x, ok := at[pos]; ok {
				b[i] = x
			}
			pos++
		}
		return b
	}
	return s
}

// statement is what a proof is about: a commitment, or a commitment and its refreshment.
type kind struct {
	name string
	// prove makes a proof for (v, r): of knowledge of the opening of Create(v,r), or of
	// refreshment of base by r. It returns the encoded proof.
	prove func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, v, r *big.Int) ([]byte, error)
	// verify gives nil if the proof is accepted
	verify func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, enc []byte) error
	two    bool
}

var know = kind{"knowledge",
	func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, v, r *big.Int) ([]byte, error) {
		z, err := zkpok.NewZKEGKnow(f, c1, v, r)
		if err != nil {
			return nil, err
		}
		if err := z.Verify(f, c1); err != nil {
			return encP(z), fmt.Errorf("before encoding: %v", err)
		}
		return encP(z), nil
	},
	func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, enc []byte) error {
		z := &zkpok.ZKEGKnow{}
		if err := z.Decode(bytesReader(enc)); err != nil {
			return err
		}
		return z.Verify(f, c1)
	}, false}

var refresh = kind{"refreshment",
	func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, v, r *big.Int) ([]byte, error) {
		z, err := zkpok.NewZKEGRefresh(f, c1, c2, r)
		if err != nil {
			return nil, err
		}
		if err := z.Verify(f, c1, c2); err != nil {
			return encP(z), fmt.Errorf("before encoding: %v", err)
		}
		return encP(z), nil
	},
	func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, enc []byte) error {
		z := &zkpok.ZKEGRefresh{}
		if err := z.Decode(bytesReader(enc)); err != nil {
			return err
		}
		return z.Verify(f, c1, c2)
	}, true}

// object is a proof that is kept: read into, verified, and read into again.
type object struct {
	read   func(enc []byte) error
	verify func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal) error
}

// object is an empty proof, or one that was just made for (c1, c2) if a factory is given.
func (k kind) object(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, v, r *big.Int) (o object, err error) {
	if k.two {
		z := &zkpok.ZKEGRefresh{}
		if f != nil {
			z, err = zkpok.NewZKEGRefresh(f, c1, c2, r)
		}
		return object{
			func(enc []byte) error { return z.Decode(bytesReader(enc)) },
			func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal) error { return z.Verify(f, c1, c2) },
		}, err
	}
	z := &zkpok.ZKEGKnow{}
	if f != nil {
		z, err = zkpok.NewZKEGKnow(f, c1, v, r)
	}
	return object{
		func(enc []byte) error { return z.Decode(bytesReader(enc)) },
		func(f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal) error { return z.Verify(f, c1) },
	}, err
}

// factory and commitments under the key h·G, made without the code under test where possible.
func (e *env) factory(h *big.Int) *commitment.ElGamalFactory {
	return commitment.NewElGamalFactory(e.g.ScalarBaseMult(h))
}

func (e *env) commit(h, v, rnd *big.Int) *commitment.ElGamal {
	a, b := e.Comm(h, v, rnd)
	return e.comm(a, b)
}

func parseP(r *mc.Run, enc []byte) lab.Proof {
	p, err := lab.SeeP(enc)
	if err != nil {
		r.Fail(fmt.Sprintf("%x", enc), "the encoding of a proof does not have the documented layout: %v", err)
	}
	return p
}
