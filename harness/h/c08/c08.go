// Package c08 checks carriage-return repair.
package c08

import (
	"io"

	"github.com/qri-io/dataset/dsio/replacecr"
	"verifh/u"
	"verifh/v"
)

func want(src []byte) []byte {
	var out []byte
	for i, b := range src {
		out = append(out, b)
		if b == '\r' && (i+1 == len(src) || src[i+1] != '\n') {
			out = append(out, '\n')
		}
	}
	return out
}

// H_C08_stream: any bytes, any source split, any read sizes.
func H_C08_stream() {
	n := v.Case(v.Bound(5, 7) + 1)
	data := v.Bytes(n)
	src := u.Chunked(data, 1)
	r := replacecr.Reader(src)
	exp := want(data)
	var got []byte
	for i := 0; ; i++ {
		sz := 1 + v.Pick(3)
		p := make([]byte, sz)
		k, err := r.Read(p)
		v.Assert(k >= 0 && k <= sz, "read count within the buffer")
		got = append(got, p[:k]...)
		if err != nil {
			v.Assert(err == io.EOF, "stream ends with io.EOF")
			break
		}
		v.Assert(k > 0, "progress")
		v.Assert(len(got) <= 2*n, "no more than one inserted byte per source byte")
	}
	v.Reach("eof")
	v.Assert(u.EqBytes(got, exp), "output is the source with lone CR completed to CRLF")
}

// H_C08_edge: three (four) arbitrary bytes after text that fills the source buffer (16 or 4096 bytes) to every point around its end, read in pieces around the same sizes.
func H_C08_edge() {
	size := []int{16, 4096}[v.Case(2)]
	off := v.Case(6)
	v.Steps(30000000)
	var data []byte
	for len(data) < size-4+off {
		data = append(data, 'x')
	}
	if v.Pick(2) == 1 {
		data[0] = '\r'
	}
	data = append(data, v.Bytes(v.Bound(3, 4))...)
	data = append(data, "yz"...)
	src := &u.Src{Data: data}
	if v.Pick(2) == 1 {
		src.Split = []int{size - 1, size, size + 1}
	}
	r := replacecr.Reader(src)
	if size == 16 {
		r = replacecr.ReaderWithSize(src, 16)
	}
	sz := []int{size - 1, size, size + 1, size + 2, 3 * size}[v.Pick(5)]
	exp := want(data)
	var got []byte
	for {
		p := make([]byte, sz)
		k, err := r.Read(p)
		v.Assert(k >= 0 && k <= sz, "read count within the buffer")
		got = append(got, p[:k]...)
		if err != nil {
			v.Assert(err == io.EOF, "stream ends with io.EOF")
			break
		}
		v.Assert(k > 0, "progress")
		v.Assert(len(got) <= 2*len(data), "no more than one inserted byte per source byte")
	}
	v.Assert(u.EqBytes(got, exp), "output is the source with lone CR completed to CRLF")
	v.Reach("edge")
}

// H_C08_runs: runs of 1 to 40 carriage returns (some followed by line feeds) with an arbitrary byte within, read in pieces of 1 to 17 bytes.
func H_C08_runs() {
	n := []int{1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 40}[v.Case(11)]
	every := 1 + v.Pick(3)
	var data []byte
	at := v.Pick(n)
	for i := 0; i < n; i++ {
		data = append(data, '\r')
		if i%every == 1 {
			data = append(data, '\n')
		}
		if i == at {
			data = append(data, v.Byte())
		}
	}
	r := replacecr.ReaderWithSize(&u.Src{Data: data}, 16)
	sz := []int{1, 2, 15, 16, 17}[v.Pick(5)]
	var got []byte
	for {
		p := make([]byte, sz)
		k, err := r.Read(p)
		got = append(got, p[:k]...)
		if err != nil {
			v.Assert(err == io.EOF, "stream ends with io.EOF")
			break
		}
		v.Assert(k > 0 && k <= sz, "progress")
		v.Assert(len(got) <= 2*len(data), "no more than one inserted byte per source byte")
	}
	v.Assert(u.EqBytes(got, want(data)), "output is the source with lone CR completed to CRLF")
	v.Reach("runs")
}
