// Package topology is a stand-in for reduction-go's topology package: only what
// jobs/jobstest needs in order to type-check offline.
package topology

type Config struct{}

func (Config) Marshal() []byte { return nil }

type Synthesis struct{ Config Config }

type Job struct{}

func (*Job) Synthesize() (*Synthesis, error) { return &Synthesis{}, nil }
