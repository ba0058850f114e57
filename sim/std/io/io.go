package io

import "errors"

var EOF = errors.New("EOF")

type Reader interface {
	Read(p []byte) (n int, err error)
}
type Writer interface {
	Write(p []byte) (n int, err error)
}

func Copy(dst Writer, src Reader) (int64, error) {
	b := make([]byte, 10)
	n, _ := src.Read(b)
	_, err := dst.Write(b[:n])
	return int64(n), err
}

func WriteString(w Writer, s string) (int, error) { return w.Write([]byte(s)) }
