package partitioning_test

import (
	"testing"

	"reduction.dev/reduction/partitioning"
)

// Checkpoints are recorded in the order the operators acknowledge them.
func TestFindingAssignRangesAnyOrder(t *testing.T) {
	to := []partitioning.KeyGroupRange{{0, 128}, {128, 256}}
	got := partitioning.AssignRanges(to, []partitioning.KeyGroupRange{{128, 256}, {0, 128}})
	if len(got[0]) != 1 || got[0][0] != 1 || len(got[1]) != 1 || got[1][0] != 0 {
		t.Fatalf("assignments: %v", got)
	}
}
