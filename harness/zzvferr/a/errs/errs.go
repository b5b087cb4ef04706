// Package errs is one of two packages with the same name.
package errs

// E is an error type that exists under the same name in two packages.
type E struct {
	Code int64
	Text string `json:"text_of_error"`
	Tags []string
	Sub  *Sub
}

type Sub struct{ N uint8 }

func (e *E) Error() string { return "E " + e.Text }

// V is an error with a value receiver.
type V struct {
	Text string
	Flag bool
}

func (e V) Error() string { return "V " + e.Text }

// S is an error whose kind is string.
type S string

func (e S) Error() string { return string(e) }

// Same are sentinels of equal text.
var Same = S("same")
