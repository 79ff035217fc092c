// Package vserial replaces github.com/tarm/serial; the harness provides the port.
package vserial

import (
	"errors"
	"time"
)

type Parity byte
type StopBits byte

const (
	Stop1     StopBits = 1
	Stop1Half StopBits = 15
	Stop2     StopBits = 2

	ParityNone Parity = 'N'
	ParityOdd  Parity = 'O'
	ParityEven Parity = 'E'
)

type Config struct {
	Name        string
	Baud        int
	ReadTimeout time.Duration
	Size        byte
	Parity      Parity
	StopBits    StopBits
}

// RWC is what the harness supplies as the opened port.
type RWC interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Close() error
}

type Port struct{ RWC }

func (p *Port) Flush() error { return nil }

// Opener is set by the harness.
var Opener func(c *Config) (RWC, error)

func OpenPort(c *Config) (*Port, error) {
	if Opener == nil {
		return nil, errors.New("vserial: no port")
	}
	r, err := Opener(c)
	if err != nil {
		return nil, err
	}
	return &Port{r}, nil
}
