// Package vhttp takes the handler of a web server instead of letting it listen to the network.
package vhttp

import (
	"net/http"
	"time"

	"gzmc/vs"
)

// Address and Handler are what is served.
var (
	Address string
	Handler http.Handler
)

// Reset forgets them.
func Reset() { Address, Handler = "", nil }

// Serve never returns, as a server that has nothing wrong.
func Serve(address string, h http.Handler) error {
	Address, Handler = address, h
	for {
		vs.Sleep(1000 * time.Hour)
	}
}
