// Package zio stands in for the blocking parts of package io.
package zio

import (
	"io"

	"robpike.io/ivy/zzsim"
	"robpike.io/ivy/zzsim/zsync"
)

type pipe struct {
	wrMu zsync.Mutex
	ch   chan []byte
	ack  chan int
	done chan struct{}
	once zsync.Once
	rerr error
	werr error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{
		ch:   zzsim.MakeChan[chan []byte](0),
		ack:  zzsim.MakeChan[chan int](0),
		done: zzsim.MakeChan[chan struct{}](0),
	}
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) isDone() bool {
	d := zzsim.RecvCase(p.done)
	return zzsim.Select(true, d) == 0
}

func (p *pipe) readErr() error {
	if p.rerr == nil && p.werr != nil {
		return p.werr
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeErr() error {
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return io.ErrClosedPipe
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if p.isDone() {
		return 0, p.readErr()
	}
	c := zzsim.RecvCase(p.ch)
	d := zzsim.RecvCase(p.done)
	if zzsim.Select(false, c, d) == 0 {
		n := copy(b, c.Val)
		zzsim.Sender(p.ack)(n)
		return n, nil
	}
	return 0, p.readErr()
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.once.Do(func() { zzsim.Close(r.p.done) })
	return nil
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	if p.isDone() {
		return 0, p.writeErr()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		s := zzsim.SendCase(p.ch)
		s.Set(b)
		d := zzsim.RecvCase(p.done)
		if zzsim.Select(false, s, d) == 0 {
			nw := zzsim.Recv(p.ack)
			b = b[nw:]
			n += nw
		} else {
			return n, p.writeErr()
		}
	}
	return n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.once.Do(func() { zzsim.Close(w.p.done) })
	return nil
}
