// Package vuuid replaces github.com/pborman/uuid with deterministic ids.
package vuuid

import (
	"fmt"

	"gzmc/vs"
)

type UUID []byte

func (u UUID) String() string { return string(u) }

var n, ep int

func New() string {
	if e := vs.Epoch(); e != ep {
		ep, n = e, 0
	}
	n++
	return fmt.Sprintf("00000000-0000-4000-8000-%012d", n)
}
func NewRandom() UUID { return UUID(New()) }
func NewUUID() UUID   { return UUID(New()) }
