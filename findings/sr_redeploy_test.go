package sourcerunner

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/workerpb"
)

type fReader struct {
	connectors.UnimplementedSourceReader
	n   int
	dep string
}

func (f *fReader) ReadEvents() ([][]byte, error) {
	f.n++
	time.Sleep(time.Millisecond)
	return [][]byte{[]byte(fmt.Sprintf("%s-%d", f.dep, f.n))}, nil
}
func (f *fReader) AssignSplits([]*workerpb.SourceSplit) error { return nil }
func (f *fReader) Checkpoint() [][]byte                      { return nil }

type fHandler struct{ proto.Handler }

func (fHandler) KeyEventBatch(ctx context.Context, ev [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	out := make([][]*handlerpb.KeyedEvent, len(ev))
	for i, e := range ev {
		out[i] = []*handlerpb.KeyedEvent{{Key: []byte("k"), Value: e}}
	}
	return out, nil
}

type fOp struct {
	proto.UnimplementedOperator
	dep string
	mu  *sync.Mutex
	got *[]string
}

func (o *fOp) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, e := range batch {
		if k := e.GetKeyedEvent(); k != nil {
			*o.got = append(*o.got, o.dep+"<"+string(k.Value))
		}
	}
	return nil
}

// Redeploying a source runner must not forward anything of the previous deployment.
func TestFindingRedeploy(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	var got []string
	dep := 0
	sr := New(NewParams{
		Host: "h", UserHandler: fHandler{}, Job: proto.NoopJob{},
		OperatorFactory: func(id string, n *jobpb.NodeIdentity) proto.Operator {
			return &fOp{dep: fmt.Sprintf("d%d", dep), mu: &mu, got: &got}
		},
		SourceReaderFactory: func(*jobconfigpb.Source) connectors.SourceReader {
			dep++
			return &fReader{dep: fmt.Sprintf("d%d", dep)}
		},
		EventBatching: batching.EventBatcherParams{MaxSize: 3, MaxDelay: 5 * time.Millisecond},
	})
	done := make(chan error, 1)
	go func() { done <- sr.Start(ctx) }()
	for i := 0; i < 3; i++ {
		if err := sr.HandleDeploy(ctx, &workerpb.DeploySourceRunnerRequest{Operators: []*jobpb.NodeIdentity{{Id: "o"}}, KeyGroupCount: 8, Sources: []*jobconfigpb.Source{{}}}); err != nil {
			t.Fatal(err)
		}
		if err := sr.HandleAssignSplits([]*workerpb.SourceSplit{{SplitId: "s"}}); err != nil {
			t.Fatal(err)
		}
		sr.HandleStartCheckpoint(ctx, 1)
		time.Sleep(100 * time.Millisecond)
	}
	cancel()
	<-done
	mu.Lock()
	defer mu.Unlock()
	per := map[string]int{}
	for _, g := range got {
		var a, b string
		var n int
		a, b = g[:2], g[3:5]
		fmt.Sscanf(g[6:], "%d", &n)
		if a != b {
			t.Fatal("leftover:", g)
		}
		if n != per[a]+1 {
			t.Fatal("order", g)
		}
		per[a] = n
	}
	t.Log(per)
	if per["d3"] < 10 {
		t.Fatal("stuck", per)
	}
}
