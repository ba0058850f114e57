package net

import "syscall"

type Conn interface {
	Read(b []byte) (n int, err error)
	Write(b []byte) (n int, err error)
	Close() error
}

type conn struct{ fd int }

func (c *conn) Read(b []byte) (int, error)  { return syscall.Read(c.fd, b) }
func (c *conn) Write(b []byte) (int, error) { return syscall.Read(c.fd, b) }
func (c *conn) Close() error                { return nil }

type IP []byte

func (ip IP) String() string { return string(ip) }

func Dial(network, address string) (Conn, error) { return &conn{}, nil }
func LookupHost(host string) ([]string, error)   { return nil, nil }
func JoinHostPort(host, port string) string      { return host + port }
func ParseIP(s string) IP                        { return IP(s) }
