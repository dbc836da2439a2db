package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/hpinc/go3mf"
)

// bigSizes are the sizes around which buffers and counters turn over.
func bigSizes(thorough bool) []int {
	s := []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 1<<15 - 1, 1 << 15, 1<<15 + 1, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 20, 1<<20 + 1, 5<<20 + 7, 17 << 20, 33<<20 + 1}
	if thorough {
		s = append(s, 64<<20, 65<<20+3, 129<<20, 257<<20+1)
	}
	return s
}

// smallReads gives the content in pieces.
type smallReads struct {
	r   io.Reader
	max int
}

func (s *smallReads) Read(p []byte) (int, error) {
	if len(p) > s.max {
		p = p[:s.max]
	}
	return s.r.Read(p)
}

// decodeFile loads a package from a file, which is closed and gone when the model is used.
func decodeFile(b []byte) (*go3mf.Model, error) {
	dir, err := os.MkdirTemp("", "verif-p23-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "a.3mf")
	if err := os.WriteFile(name, b, 0o600); err != nil {
		return nil, err
	}
	f, err := go3mf.OpenReader(name)
	if err != nil {
		return nil, err
	}
	m := new(go3mf.Model)
	err = f.Decode(m)
	if e := f.Close(); err == nil {
		err = e
	}
	return m, err
}

func checkBigAttachments(c *C) error {
	seed := int64(1)
	for _, n := range bigSizes(directChecks() > 1) {
		r := rand.New(rand.NewSource(seed))
		seed++
		data := make([]byte, n)
		if seed%3 > 0 { // does not compress, or does
			r.Read(data)
		} else {
			for i := range data {
				data[i] = byte(i >> 9)
			}
		}
		other := []byte("other")
		m := &go3mf.Model{
			RootRelationships: []go3mf.Relationship{{ID: "r1", Type: "urn:t", Path: "/big.bin"}, {ID: "r2", Type: "urn:t", Path: "/other.bin"}},
			Attachments: []go3mf.Attachment{{Path: "/big.bin", ContentType: "application/octet-stream", Stream: &smallReads{bytes.NewReader(data), 1 + r.Intn(40000)}},
				{Path: "/other.bin", ContentType: "application/octet-stream", Stream: bytes.NewReader(other)}},
		}
		c.Begin("size", []byte(fmt.Sprint(n)))
		c.Eval()
		b, err := encodePkg(m, 4)
		if err != nil {
			return fmt.Errorf("saving an attachment of %d bytes: %v", n, err)
		}
		got, err := decodeFile(b)
		if err != nil {
			return fmt.Errorf("loading an attachment of %d bytes: %v", n, err)
		}
		if len(got.Attachments) != 2 {
			return fmt.Errorf("with an attachment of %d bytes there are %d attachments instead of 2", n, len(got.Attachments))
		}
		for _, a := range got.Attachments {
			want := other
			if a.Path == "/big.bin" {
				want = data
			}
			d, err := io.ReadAll(a.Stream)
			if err != nil || !bytes.Equal(d, want) {
				return fmt.Errorf("of an attachment of %d bytes with %d bytes in %s, %d bytes came back (%v)", n, len(want), a.Path, len(d), err)
			}
		}
		c.End()
		c.NonTrivial([]byte(fmt.Sprint(n)))
		c.Sample(fmt.Sprintf("attachment of %d bytes, package of %d", n, len(b)))
	}
	return nil
}

func init() {
	register(&Sub{Prop: "P23", Name: "sizes", Rule: "attachments of sizes around powers of two up to 33 MB, given in small pieces; each counts", Quick: 1, Thorough: 2, Direct: checkBigAttachments})
}
