package zzvfsvc

import (
	"net/http"
	"time"
)

type Point struct {
	X     int64  `json:"x"`
	Label string `json:"label"`
	Next  *Point `json:"next,omitempty"`
}

type Kind string

type Level int

type Failure struct {
	Code int    `json:"code"`
	Why  string `json:"why"`
}

func (f *Failure) Error() string { return f.Why }

type Reason string

func (r Reason) Error() string { return "reason: " + string(r) }

type Service interface {
	Nothing()
	Get(id int64) string
	GetAll(from int64, to int64) (list []int64, total int)
	Swap(a string, b string) (string, string)
	Flags(a, b bool, c uint8) (x, y bool, z uint8)
	Move(p Point, d *Point) (moved *Point, n Point)
	Index(m map[string]int64, kinds []Kind) (map[Kind]Level, []*Point)
	Blob(data []byte, f float64) ([]byte, float64)
	When(t time.Time) time.Time
	Try(n int64) (int64, error)
	TryFailure(n int64) (s string, failure *Failure)
	TryReason(n int64) (reason Reason)
	Session(w http.ResponseWriter, r *http.Request, name string) (string, bool)
	SessionOnly(w http.ResponseWriter, r *http.Request)
	Names(args string, rets string, ctx string) (reply string, response string)
}

// Other has methods of the same names.
type Other struct {
	log *vfLog
}

func (o *Other) Get(id string) int64 {
	o.log.call("Other.Get", id)
	return o.log.n
}

func (o *Other) Nothing() {
	o.log.call("Other.Nothing")
}
