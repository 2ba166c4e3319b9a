package model

import "io"

// IoCopyN stands for io.CopyN: it copies one byte at a time, so that a symbolic n is only
// compared with the number of bytes available.
func IoCopyN(dst io.Writer, src io.Reader, n int64) (int64, error) {
	var written int64
	buf := make([]byte, 1)
	for written < n {
		k, err := src.Read(buf)
		if k > 0 {
			w, werr := dst.Write(buf[:k])
			written += int64(w)
			if werr != nil {
				return written, werr
			}
		}
		if err != nil {
			if written == n {
				return written, nil
			}
			return written, err
		}
	}
	return written, nil
}
