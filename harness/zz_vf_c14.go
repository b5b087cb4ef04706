package gotsrpc

//vf:bound chains of up to n layers (bound "layers") over errors of six types in two packages of equal name, arbitrary field values (int64, strings of up to 2 bytes, slice of up to 2, nested struct), through msgpack transport and unsent
//vf:outside error types with fields the codec cannot carry (unexported ones), JSON transport (no typed errors there, see C01)

import (
	stderrors "errors"

	"github.com/foomo/gotsrpc/v2/zzvf"
	aerrs "github.com/foomo/gotsrpc/v2/zzvferr/a/errs"
	berrs "github.com/foomo/gotsrpc/v2/zzvferr/b/errs"
)

// VF_C14_As: which types are found, with what data.
func VF_C14_As() {
	text := vfText("text", 3)
	code := zzvf.Int64("code")
	flag := zzvf.Bool("flag")
	kind := zzvf.Choose("kind", 6)
	var err error
	ae, av, as := &aerrs.E{Code: code, Text: text}, aerrs.V{Text: text, Flag: flag}, aerrs.S(text)
	be, bv, bs := &berrs.E{Code: code, Text: text}, berrs.V{Text: text, Flag: flag}, berrs.S(text)
	if zzvf.Bool("tags") {
		ae.Tags, be.Tags = []string{"t", text}, []string{"t", text}
	}
	if zzvf.Bool("sub") {
		n := zzvf.Uint8("n")
		ae.Sub, be.Sub = &aerrs.Sub{N: n}, &berrs.Sub{N: n}
	}
	switch kind {
	case 0:
		err = ae
	case 1:
		err = av
	case 2:
		err = as
	case 3:
		err = be
	case 4:
		err = bv
	default:
		err = bs
	}
	n := zzvf.Choose("layers", zzvf.Bound("layers", 2, 3))
	for i := 0; i < n; i++ {
		err = vfWrapErr(err, 8)
	}
	var got error = NewError(err)
	if zzvf.Bool("sent") {
		g, e := vfTransport(err, EncodingMsgpack)
		zzvf.Assert(e == nil, "an error is transported")
		got = g
	}
	var (
		gae *aerrs.E
		gav aerrs.V
		gas aerrs.S
		gbe *berrs.E
		gbv berrs.V
		gbs berrs.S
	)
	switch zzvf.Choose("target", 6) {
	case 0:
		ok := stderrors.As(got, &gae)
		zzvf.Assert(ok == (kind == 0), "errors.As finds exactly the types in the chain")
		if ok {
			zzvf.Assert(gae != nil && gae.Code == ae.Code && gae.Text == ae.Text, "errors.As fills in the data of the error")
			zzvf.Assert(len(gae.Tags) == len(ae.Tags) && (gae.Sub == nil) == (ae.Sub == nil), "errors.As fills in nested data of the error")
			if gae.Sub != nil {
				zzvf.Assert(gae.Sub.N == ae.Sub.N, "errors.As fills in nested data of the error")
			}
			if len(gae.Tags) == 2 {
				zzvf.Assert(gae.Tags[1] == text, "errors.As fills in nested data of the error")
			}
			zzvf.Reach("E")
		}
	case 1:
		ok := stderrors.As(got, &gav)
		zzvf.Assert(ok == (kind == 1), "errors.As finds exactly the types in the chain")
		if ok {
			zzvf.Assert(gav == av, "errors.As fills in the data of the error")
			zzvf.Reach("V")
		}
	case 2:
		ok := stderrors.As(got, &gas)
		zzvf.Assert(ok == (kind == 2), "errors.As finds exactly the types in the chain")
		if ok {
			zzvf.Assert(gas == as, "errors.As fills in the data of the error")
			zzvf.Reach("S")
		}
	case 3:
		ok := stderrors.As(got, &gbe)
		zzvf.Assert(ok == (kind == 3), "errors.As finds exactly the types in the chain")
		if ok {
			zzvf.Assert(gbe != nil && gbe.Code == be.Code && gbe.Text == be.Text, "errors.As fills in the data of the error")
		}
	case 4:
		ok := stderrors.As(got, &gbv)
		zzvf.Assert(ok == (kind == 4), "errors.As finds exactly the types in the chain")
		if ok {
			zzvf.Assert(gbv == bv, "errors.As fills in the data of the error")
		}
	default:
		ok := stderrors.As(got, &gbs)
		zzvf.Assert(ok == (kind == 5), "errors.As finds exactly the types in the chain")
		if ok {
			zzvf.Assert(gbs == bs, "errors.As fills in the data of the error")
		}
	}
	zzvf.Reach("end")
}

// VF_C14_Pointer: a type and a pointer to it are two types, both of which can be errors.
func VF_C14_Pointer() {
	text, flag := vfText("text", 2), zzvf.Bool("flag")
	v, s := aerrs.V{Text: text, Flag: flag}, aerrs.S(text)
	kind := zzvf.Choose("kind", 4)
	err := []error{v, &v, s, &s}[kind]
	if zzvf.Bool("wrapped") {
		err = vfWrapErr(err, 8)
	}
	var got error = NewError(err)
	if zzvf.Bool("sent") {
		g, e := vfTransport(err, EncodingMsgpack)
		zzvf.Assert(e == nil, "an error is transported")
		got = g
	}
	target := zzvf.Choose("target", 4)
	ok, same := false, false
	switch target {
	case 0:
		var g aerrs.V
		ok = stderrors.As(got, &g)
		same = g == v
	case 1:
		var g *aerrs.V
		ok = stderrors.As(got, &g)
		same = g != nil && *g == v
	case 2:
		var g aerrs.S
		ok = stderrors.As(got, &g)
		same = g == s
	default:
		var g *aerrs.S
		ok = stderrors.As(got, &g)
		same = g != nil && *g == s
	}
	zzvf.Assert(ok == (kind == target), "errors.As finds exactly the types in the chain")
	zzvf.Assert(!ok || same, "errors.As fills in the data of the error")
	zzvf.Reach("end")
}

type vfTyped struct {
	Op  string
	N   int8
	err error
}

func (w *vfTyped) Error() string {
	if w.Op == "" {
		return w.err.Error()
	}
	return w.Op + ": " + w.err.Error()
}
func (w *vfTyped) Unwrap() error { return w.err }

// VF_C14_Middle: typed errors that wrap others are found, the outermost first.
func VF_C14_Middle() {
	leaf := &vfLeaf{zzvf.Str("leaf", 1)}
	var err error = leaf
	var outer *vfTyped
	n := zzvf.Choose("layers", zzvf.Bound("middle layers", 4, 5))
	for i := 0; i < n; i++ {
		switch zzvf.Choose("layer", 4) {
		case 0:
			outer = &vfTyped{zzvf.Str("op", zzvf.Choose("oplen", 2)), zzvf.Int8("n"), err}
			err = outer
		case 1:
			err = vfWrapErr(err, 1)
		case 2:
			err = vfWrapErr(err, 2)
		default:
			err = NewError(err)
		}
	}
	var got error = NewError(err)
	if zzvf.Bool("sent") {
		g, e := vfTransport(err, EncodingMsgpack)
		zzvf.Assert(e == nil, "an error is transported")
		got = g
	}
	var typed *vfTyped
	ok := stderrors.As(got, &typed)
	zzvf.Assert(ok == (outer != nil), "errors.As finds a wrapping error of the type")
	if ok {
		zzvf.Assert(typed.Op == outer.Op && typed.N == outer.N, "errors.As fills in the data of the outermost error of the type")
		zzvf.Reach("typed")
	}
	var l *vfLeaf
	zzvf.Assert(stderrors.As(got, &l) && l.Text == leaf.Text, "errors.As finds the innermost error")
	zzvf.Reach("end")
}

// VF_C14_Nothing: no error is of no type.
func VF_C14_Nothing() {
	var none *Error
	var l *vfLeaf
	zzvf.Assert(!none.As(&l) && l == nil, "no error has no type")
	zzvf.Assert(!NewError(&vfLeaf{zzvf.Str("text", 1)}).As(nil), "an error is not of no type")
	var e error = none
	zzvf.Assert(!stderrors.As(e, &l), "no error has no type")
	zzvf.Reach("end")
}
