package gotsrpc

//vf:bound wrap chains of up to n layers (bound "layers") over any leaf, every layer any of: errors.New leaf, struct leaf, fmt.Errorf %w, pkg/errors WithMessage, Wrap, WithStack, a wrapper with fields of its own, fmt.Errorf with %w first, a wrapper with a stack and a message of its own, an error that is already transported, all messages of up to 2 arbitrary bytes; JSON and msgpack transport through Reply and Client.Call
//vf:outside errors.Join and several %w below other layers (they are leaves), longer chains and messages, formatting verbs other than v, s and q

import (
	"errors"
	"fmt"
	"strings"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C12_Message: conversion keeps the message.
func VF_C12_Message() {
	err := vfChain(zzvf.Bound("layers", 3, 4))
	want := err.Error()
	e := NewError(err)
	zzvf.Assert(e.Error() == want, "the transported error says what the original says")
	zzvf.Assert(NewError(e) == e, "converting a converted error changes nothing")
	zzvf.ObsStr("msg", e.Error())
	zzvf.Reach("end")
}

// VF_C12_Transport: the same through the wire.
func VF_C12_Transport() {
	err := vfChain(zzvf.Bound("wire_layers", 2, 3))
	got, e := vfTransport(err, EncodingMsgpack)
	zzvf.Assert(e == nil, "an error is transported")
	zzvf.Assert(got != nil && got.Error() == err.Error(), "the error that arrives says what the original says")
	zzvf.ObsStr("msg", got.Error())
	zzvf.Reach("end")
}

// VF_C12_Joined: errors of several errors.
func VF_C12_Joined() {
	a, b := vfLeafErr(), vfChain(1)
	err := errors.Join(a, b)
	if zzvf.Bool("several verbs") {
		err = fmt.Errorf("%w, then %w", a, b)
	}
	if zzvf.Bool("wrapped") {
		err = fmt.Errorf("both: %w", err)
	}
	zzvf.Assert(NewError(err).Error() == err.Error(), "the transported error says what all of the original errors say")
	got, e := vfTransport(err, EncodingMsgpack)
	zzvf.Assert(e == nil && got != nil && got.Error() == err.Error(), "the error that arrives says what all of the original errors say")
	zzvf.Reach("end")
}

// vfState is a fmt.State that keeps what is written.
type vfState struct {
	text []byte
	plus bool
}

func (s *vfState) Write(b []byte) (int, error) {
	s.text = append(s.text, b...)
	return len(b), nil
}
func (s *vfState) Width() (int, bool)     { return 0, false }
func (s *vfState) Precision() (int, bool) { return 0, false }
func (s *vfState) Flag(c int) bool        { return c == '+' && s.plus }

// VF_C12_Printed: printing a transported error prints its message.
func VF_C12_Printed() {
	err := vfChain(zzvf.Bound("printed layers", 2, 3))
	e := NewError(err)
	verb := []rune{'v', 's', 'q'}[zzvf.Choose("verb", 3)]
	st := &vfState{plus: zzvf.Bool("plus")}
	if st.plus {
		e.Data = nil // whatever it prints
	}
	e.Format(st, verb)
	got := string(st.text)
	if st.plus && verb == 'v' {
		zzvf.Assert(strings.HasSuffix(got, err.Error()), "the details of an error end in its message")
		zzvf.Assert(strings.Contains(got, e.Type), "the details of an error name its type")
	} else {
		zzvf.Assert(got == err.Error(), "a transported error prints as its message")
	}
	zzvf.Reach("end")
}
