package gotsrpc

//vf:bound wrap chains of up to n layers (bound "layers"), messages of up to 2 arbitrary bytes; targets: every error of the chain, and any leaf or once-wrapped error with any message of up to 2 bytes
//vf:outside multi-errors, error types with their own Is method

import (
	stderrors "errors"
	"fmt"
	"reflect"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

// VF_C13_Present: every error of the chain is found.
func VF_C13_Present() {
	err := vfChain(zzvf.Bound("layers", 3, 4))
	e := NewError(err)
	for c := err; c != nil; c = stderrors.Unwrap(c) {
		zzvf.Assert(stderrors.Is(e, c), "errors.Is finds every error of the original chain")
	}
	zzvf.Reach("end")
}

// VF_C13_Wire: the same through the wire.
func VF_C13_Wire() {
	err := vfChain(zzvf.Bound("wire_layers", 2, 3))
	got, e := vfTransport(err, EncodingMsgpack)
	zzvf.Assert(e == nil, "an error is transported")
	for c := err; c != nil; c = stderrors.Unwrap(c) {
		zzvf.Assert(stderrors.Is(got, c), "errors.Is finds every error of the original chain after transport")
	}
	zzvf.Reach("end")
}

func vfPkgPath(err error) string {
	t := reflect.TypeOf(err)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.PkgPath()
}

// VF_C13_Absent: what is not in the chain is not found.
func VF_C13_Absent() {
	err := vfChain(zzvf.Bound("absent_layers", 2, 2))
	var target error
	s := zzvf.Str("target", zzvf.Choose("targetlen", 3))
	switch zzvf.Choose("targetkind", 4) {
	case 0:
		target = stderrors.New(s)
	case 1:
		target = &vfLeaf{s}
	case 2:
		target = vfValLeaf{s}
	default:
		target = fmt.Errorf("%s: %w", s, stderrors.New("x"))
	}
	e := NewError(err)
	is := stderrors.Is(e, target)
	found := false
	for c := err; c != nil; c = stderrors.Unwrap(c) {
		typ, pkg := reflect.TypeOf(c).String(), vfPkgPath(c)
		if t, ok := c.(*Error); ok {
			typ, pkg = t.Type, t.Pkg
		}
		if typ == reflect.TypeOf(target).String() && pkg == vfPkgPath(target) && c.Error() == target.Error() {
			found = true
		}
	}
	if is {
		zzvf.Assert(found, "errors.Is is false for a target found nowhere in the chain")
		zzvf.Reach("found")
	} else {
		zzvf.Reach("absent")
	}
}

// VF_C13_Nothing: an error is not the absence of one, and the other way round.
func VF_C13_Nothing() {
	var none *Error
	sentinel := vfLeafErr()
	zzvf.Assert(!none.Is(sentinel), "no error is found in nothing")
	var e error = none
	zzvf.Assert(!stderrors.Is(e, sentinel), "no error is found in nothing")
	zzvf.Assert(!NewError(sentinel).Is(nil), "nothing is not found in an error")
	zzvf.Assert(!stderrors.Is(NewError(sentinel), nil), "nothing is not found in an error")
	zzvf.Reach("end")
}
