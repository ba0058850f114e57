package os

import (
	"errors"
	"syscall"
)

var Args []string

type File struct{ fd int }

type FileInfo interface{ Name() string }

var ErrInvalid = errors.New("invalid")

func Open(name string) (*File, error)              { return openFile(name) }
func Create(name string) (*File, error)            { return openFile(name) }
func openFile(name string) (*File, error)          { syscall.Open(name); return &File{}, nil }
func ReadFile(name string) ([]byte, error)         { f, err := Open(name); _ = f; return nil, err }
func WriteFile(name string, b []byte, p int) error { _, err := Create(name); return err }
func Remove(name string) error                     { syscall.Open(name); return nil }
func Stat(name string) (FileInfo, error)           { syscall.Open(name); return nil, nil }
func Getenv(key string) string                     { syscall.Getpid(); return key }
func Setenv(key, value string) error               { syscall.Getpid(); return nil }
func Getpid() int                                  { return syscall.Getpid() }
func Getwd() (string, error)                       { return "", nil }
func Exit(code int)                                { syscall.Getpid() }
func IsNotExist(err error) bool                    { return err != nil }
func Getdtablesize() int                           { return 1 }

func (f *File) Read(p []byte) (int, error)  { return syscall.Read(f.fd, p) }
func (f *File) Write(p []byte) (int, error) { return syscall.Read(f.fd, p) }
func (f *File) Close() error                { return nil }
