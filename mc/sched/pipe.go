package sched

import "io"

type pipe struct {
	data         []byte
	has          bool
	wdone, rdone bool
	werr, rerr   error
	busy         bool
	in, out      edge
}

type pipeWait struct {
	p    *pipe
	kind int
}

//go:norace
func (w pipeWait) Ready() bool {
	p := w.p
	switch w.kind {
	case 0: // may start writing
		return !p.busy || p.rdone || p.wdone
	case 1: // all written
		return !p.has || p.rdone || p.wdone
	default:
		return p.has || p.wdone || p.rdone
	}
}

// PipeReader and PipeWriter are the halves of a pipe.
type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

//go:norace
func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	Until(pipeWait{p, 0}, "pipe write")
	if p.wdone {
		return 0, io.ErrClosedPipe
	}
	if p.rdone {
		acquire(&p.out.b)
		return 0, p.rerr
	}
	p.busy, p.has, p.data = true, true, b
	release(&p.in.b)
	Until(pipeWait{p, 1}, "pipe write")
	p.busy = false
	acquire(&p.out.b)
	if p.has {
		p.has = false
		if p.rdone {
			return len(b) - len(p.data), p.rerr
		}
		return len(b) - len(p.data), io.ErrClosedPipe
	}
	return len(b), nil
}

// Close ends the data.
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

//go:norace
func (w *PipeWriter) CloseWithError(err error) error {
	Point("pipe close")
	if err == nil {
		err = io.EOF
	}
	if !w.p.wdone {
		w.p.wdone, w.p.werr = true, err
		release(&w.p.in.b)
	}
	return nil
}

//go:norace
func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	Until(pipeWait{p, 2}, "pipe read")
	if p.rdone {
		return 0, io.ErrClosedPipe
	}
	acquire(&p.in.b)
	if p.has {
		n := copy(b, p.data)
		p.data = p.data[n:]
		if len(p.data) == 0 {
			p.has = false
			release(&p.out.b)
		}
		return n, nil
	}
	return 0, p.werr
}

// Close makes writes fail.
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

//go:norace
func (r *PipeReader) CloseWithError(err error) error {
	Point("pipe close")
	if err == nil {
		err = io.ErrClosedPipe
	}
	if !r.p.rdone {
		r.p.rdone, r.p.rerr = true, err
		release(&r.p.out.b)
	}
	return nil
}
