package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"
)

// tool is a call of one of the commands of the repository. It has a minute, for work of milliseconds, and is
// ended when it does not stop printing or when we end.
func tool(name string, args ...string) (*exec.Cmd, func() error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	c := exec.CommandContext(ctx, filepath.Join(os.Getenv("GZ_TOOLS"), name), args...)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c, func() error {
		defer cancel()
		err := c.Run()
		if ctx.Err() != nil {
			return fmt.Errorf("no end after a minute")
		}
		return err
	}
}

// output collects what a tool prints.
type output struct{ bytes.Buffer }

func (o *output) Write(b []byte) (int, error) {
	if o.Len()+len(b) > 64<<20 {
		return 0, fmt.Errorf("more than 64 MB of output")
	}
	return o.Buffer.Write(b)
}
