package gotsrpc

import (
	"context"
	stderrors "errors"
	"fmt"
	"net/http"

	"github.com/pkg/errors"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

type vfLeaf struct{ Text string }

func (l *vfLeaf) Error() string { return l.Text }

type vfValLeaf struct{ Text string }

func (l vfValLeaf) Error() string { return "val " + l.Text }

type vfWrapper struct {
	Op  string
	Err error
}

func (w *vfWrapper) Error() string { return w.Op + ": " + w.Err.Error() }
func (w *vfWrapper) Unwrap() error { return w.Err }

func vfLeafErr() error {
	s := zzvf.Str("leaf", zzvf.Choose("leaflen", 3))
	switch zzvf.Choose("leafkind", 4) {
	case 0:
		return stderrors.New(s)
	case 1:
		return &vfLeaf{s}
	case 2:
		return vfValLeaf{s}
	default:
		return errors.New(s)
	}
}

func vfWrapErr(err error, kinds int) error {
	s := func() string { return zzvf.Str("msg", zzvf.Choose("msglen", 3)) }
	switch zzvf.Choose("wrap", kinds) {
	case 0:
		return errors.WithStack(err)
	case 1:
		return errors.Wrap(err, s())
	case 2:
		return errors.WithMessage(err, s())
	case 3:
		return &vfWrapper{s(), err}
	case 4:
		return fmt.Errorf("%s: %w", s(), err)
	case 5:
		return fmt.Errorf("%w%s", err, s())
	case 6:
		return &vfStack{s(), err}
	default:
		return NewError(err)
	}
}

// vfStack has a stack and a message of its own.
type vfStack struct {
	Msg string
	Err error
}

func (w *vfStack) Error() string                 { return w.Msg + w.Err.Error() }
func (w *vfStack) Unwrap() error                 { return w.Err }
func (w *vfStack) StackTrace() errors.StackTrace { return nil }

func vfChain(layers int) error {
	err := vfLeafErr()
	n := zzvf.Choose("layers", layers+1)
	for i := 0; i < n; i++ {
		err = vfWrapErr(err, 8)
	}
	return err
}

// vfTransport sends a reply of one error through Reply and a client call.
func vfTransport(err error, enc ClientEncoding) (error, error) {
	rw := newVFRW()
	rets := []interface{}{err}
	if e := Reply(rets, nil, vfPost("POST", "/e/m", vfTypeOf(enc), nil), rw); e != nil {
		return nil, e
	}
	c := NewClientWithHttpClient(&http.Client{Transport: vfRT(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Header: rw.h, Body: newVFBody(rw.body)}, nil
	})})
	c.SetClientEncoding(enc)
	var got error
	e := c.Call(context.Background(), "http://h", "/e", "m", nil, []interface{}{&got})
	return got, e
}
