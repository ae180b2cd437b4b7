package operator

import (
	"strings"
	"testing"

	"reduction.dev/reduction/partitioning"
)

// A namespace longer than 255 bytes was read back truncated, as another namespace.
func TestFindingLongNamespace(t *testing.T) {
	s := NewKeyedStateStore(nil, partitioning.NewKeySpace(8, 1))
	for _, n := range []int{0, 1, 127, 128, 255, 256, 300, 70000} {
		ns := strings.Repeat("n", n)
		got, data := s.decodeKey(s.encodeDBKey([]byte("key"), ns, []byte("data")))
		if string(got) != ns || string(data) != "data" {
			t.Fatalf("namespace of %d bytes: read %d, data %q", n, len(got), data)
		}
	}
}
