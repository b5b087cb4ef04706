package zzvfsvc

import (
	"net/http"

	"github.com/foomo/gotsrpc/v2/zzvfsvc/sub"
)

type Base struct {
	ID int64 `json:"id"`
}

type Embedding struct {
	Base   `json:",inline"`
	Named  Base             `json:"named"`
	Omit   string           `json:"omit,omitempty"`
	Ptr    *Base            `json:"ptr"`
	Plain  bool             // as it is named
	Inner  struct{ N int8 } `json:"inner"`
	Items  []sub.Item       `json:"items"`
	ByName map[string]*Base `json:"byName"`
}

type Wide interface {
	Ints(a int8, b int16, c int32, d int, e uint, f uint16, g uint32, h uint64) (int8, int16, int32, int, uint, uint16, uint32, uint64)
	Floats(a float32, b float64) (float64, float32)
	Nested(l [][]int64, m map[string][]string, n map[int]Point) (map[string]map[string]int64, [][]string)
	Pointers(a *int64, b *string, c *bool) (*bool, *string)
	Foreign(p sub.Item, l []sub.Item, k sub.Kind) (map[sub.Kind]sub.Item, *sub.Item)
	Structs(e Embedding) Embedding
	OnlyError() error
	Middle() (int64, error, string)
	SessionError(w http.ResponseWriter, r *http.Request, n int64) (int64, error)
	Same(s string, t string, u string, v string) (string, string, string, string)
	GoTSRPC(x int64) (y int64)
	Untyped(v interface{}) (w interface{})
}
