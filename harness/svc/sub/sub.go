package sub

type Kind string

type Item struct {
	Name  string `json:"name"`
	Count uint32 `json:"count,omitempty"`
	Kind  Kind   `json:"kind"`
}
