// Package exec stands for os/exec in rewritten code: a command is run to its
// end the first time, and its output is kept and played back.
package exec

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	std "os/exec"
	"strings"

	"verif/mc/sched"
)

type (
	Error     = std.Error
	ExitError = std.ExitError
)

var ErrNotFound = std.ErrNotFound

type Cmd struct {
	Path           string
	Args           []string
	Env            []string
	Dir            string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
	Process        *os.Process
	ProcessState   *os.ProcessState
	Err            error

	pipes []func()
	wait  chan struct{}
	err   error
}

func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...)}
}

func CommandContext(ctx context.Context, name string, args ...string) *Cmd {
	return Command(name, args...)
}

func LookPath(f string) (string, error) { return std.LookPath(f) }

type rec struct {
	key      string
	out, err []byte
	res      error
	next     *rec
	e        sched.Edge
}

var recs *rec

// Chunk is the size of the pieces output is written in, 0 for all at once.
var Chunk int

// Fresh forgets all outputs.
//
//go:norace
func Fresh() { recs = nil }

//go:norace
func lookup(key string) *rec {
	for r := recs; r != nil; r = r.next {
		if r.key == key {
			return r
		}
	}
	return nil
}

//go:norace
func keep(r *rec) { r.next = recs; recs = r }

func (c *Cmd) play() (*rec, error) {
	if c.Stdin != nil {
		return nil, fmt.Errorf("standard input is not supported here")
	}
	key := strings.Join(c.Args, "\x00") + "\x01" + c.Dir + "\x01" + strings.Join(c.Env, "\x00")
	if r := lookup(key); r != nil {
		r.e.Acquire()
		return r, nil
	}
	x := std.Command(c.Path, c.Args[1:]...)
	x.Dir, x.Env = c.Dir, c.Env
	var o, e bytes.Buffer
	x.Stdout, x.Stderr = &o, &e
	r := &rec{key: key}
	r.res = x.Run()
	r.out, r.err = o.Bytes(), e.Bytes()
	r.e.Release()
	keep(r)
	return r, nil
}

func write(w io.Writer, b []byte) error {
	for len(b) > 0 {
		n := len(b)
		if Chunk > 0 && n > Chunk {
			n = Chunk
		}
		// the writer must not change or keep what it is given
		if _, err := w.Write(append([]byte(nil), b[:n]...)); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func (c *Cmd) Run() error {
	sched.Point("start of a process")
	r, err := c.play()
	if err != nil {
		return err
	}
	if c.Stderr != nil {
		if err := write(c.Stderr, r.err); err != nil && r.res == nil {
			return err
		}
	}
	if c.Stdout != nil {
		if err := write(c.Stdout, r.out); err != nil && r.res == nil {
			return err
		}
	}
	return r.res
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	r, w := sched.Pipe()
	c.Stdout = w
	c.pipes = append(c.pipes, func() { w.Close() })
	return r, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	r, w := sched.Pipe()
	c.Stderr = w
	c.pipes = append(c.pipes, func() { w.Close() })
	return r, nil
}

func (c *Cmd) Start() error {
	c.wait = sched.Reg(make(chan struct{}))
	sched.Go(func() {
		c.err = c.Run()
		for _, f := range c.pipes {
			f()
		}
		sched.Close(c.wait)
	})
	return nil
}

func (c *Cmd) Wait() error {
	sched.Recv(c.wait)
	return c.err
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return append(os.Environ(), c.Env...) }
