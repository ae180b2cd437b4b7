package snapshots_test

import (
	"context"
	"strings"
	"testing"

	"github.com/aws/aws-sdk-go-v2/service/s3"
	"github.com/stretchr/testify/require"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	dkvstorage "reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/locations"
	"reduction.dev/reduction/storage/objstore"
	"reduction.dev/reduction/storage/snapshots"
)

// C14: a savepoint in S3 restores after the working storage is deleted.
func TestS3Savepoint(t *testing.T) {
	svc := objstore.NewMemoryS3Service()
	fs, err := locations.NewS3Location(svc, "s3://bucket/work")
	require.NoError(t, err)
	checkpointEvents := make(chan string)
	errChan := make(chan error)
	store := snapshots.NewStore(&snapshots.NewStoreParams{
		CheckpointEvents: checkpointEvents, ErrChan: errChan, FileStore: fs,
		SavepointsPath: "savepoints", CheckpointsPath: "checkpoints",
	})
	store.RegisterSourceSplitter(&nilCheckpointingSourceSplitter{})
	db := dkv.Open(dkv.DBOptions{FileSystem: dkvstorage.NewS3FileSystem(svc, "bucket", "work/op1"), MemTableSize: 64}, nil)
	db.Put([]byte("a"), []byte("1"))
	h, err := db.Checkpoint(1)()
	require.NoError(t, err)
	cpID, _, err := store.CreateSavepoint([]string{"op1"}, []string{"sr1"})
	require.NoError(t, err)
	require.NoError(t, store.AddOperatorSnapshot(&snapshotpb.OperatorCheckpoint{CheckpointId: cpID, OperatorId: "op1", DkvFileUri: h.URI, KeyGroupRange: &snapshotpb.KeyGroupRange{}}))
	require.NoError(t, store.AddSourceSnapshot(&jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: cpID, SourceRunnerId: "sr1", SplitStates: [][]byte{{}}}))
	select {
	case err := <-errChan:
		require.NoError(t, err)
	case <-checkpointEvents:
	}
	spURI, err := store.SavepointURIForID(cpID)
	require.NoError(t, err)
	t.Log(spURI)
	// delete the working storage
	out, err := svc.ListObjectsV2(context.Background(), &s3.ListObjectsV2Input{Bucket: p("bucket"), Prefix: p("")})
	require.NoError(t, err)
	for _, o := range out.Contents {
		t.Log(*o.Key)
		if !strings.HasPrefix(*o.Key, "work/savepoints") {
			svc.DeleteObject(context.Background(), &s3.DeleteObjectInput{Bucket: p("bucket"), Key: o.Key})
		}
	}
	store2 := snapshots.NewStore(&snapshots.NewStoreParams{FileStore: fs, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints", SavepointURI: spURI})
	require.NoError(t, store2.LoadCheckpoint())
	db2 := dkv.Open(dkv.DBOptions{FileSystem: dkvstorage.NewS3FileSystem(svc, "bucket", "work/op2")}, []recovery.CheckpointHandle{{CheckpointID: 1, URI: store2.CurrentCheckpoint().OperatorCheckpoints[0].DkvFileUri}})
	e, err := db2.Get([]byte("a"))
	require.NoError(t, err)
	require.Equal(t, "1", string(e.Value()))
}

func p(s string) *string { return &s }
