package gotsrpc

//vf:bound wrap chains of up to n layers (bound "layers") as for C12, converted and through msgpack transport
//vf:assume errors.Cause is the one of github.com/pkg/errors

import (
	stderrors "errors"

	"github.com/pkg/errors"

	"github.com/foomo/gotsrpc/v2/zzvf"
)

func vfCause(err error, got error) {
	root, depth := err, 1
	for c := stderrors.Unwrap(err); c != nil; c = stderrors.Unwrap(c) {
		root = c
		depth++
	}
	n := 0
	for c := got; c != nil; c = stderrors.Unwrap(c) {
		n++
		zzvf.Assert(n <= depth, "unwrapping a transported error ends")
	}
	cause := errors.Cause(got)
	zzvf.Assert(cause != nil, "a transported error has a root cause")
	zzvf.Assert(cause.Error() == root.Error(), "the root cause says what the root cause of the original says")
	zzvf.Assert(stderrors.Is(cause, root), "errors.Is knows the root cause")
	zzvf.Assert(stderrors.Is(got, cause), "errors.Is finds the root cause in the error")
	zzvf.Assert(NewError(cause).Error() == root.Error(), "the root cause can be transported")
	zzvf.Assert(stderrors.Is(NewError(cause), root), "errors.Is knows the root cause transported again")
	zzvf.Reach("end")
}

// VF_C36_Cause: the causes of a transported error.
func VF_C36_Cause() {
	err := vfChain(zzvf.Bound("layers", 2, 3))
	vfCause(err, NewError(err))
}

// VF_C36_Wire: the same through the wire.
func VF_C36_Wire() {
	err := vfChain(zzvf.Bound("wire_layers", 1, 2))
	got, e := vfTransport(err, EncodingMsgpack)
	zzvf.Assert(e == nil, "an error is transported")
	vfCause(err, got)
}
