package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// JobLimit is the time without progress after which a job counts as stuck.
var JobLimit = 150 * time.Second

// beat tells the pool that the job advances (set in workers).
var beat = func() {}

// WorkerFunc handles one job in a worker process.
type WorkerFunc func(arg json.RawMessage) (any, error)

var workerFuncs = map[string]WorkerFunc{}

// RegisterWorker makes a job kind available; call it from init or main before MaybeWorker.
func RegisterWorker(kind string, f WorkerFunc) { workerFuncs[kind] = f }

type jobMsg struct {
	N    int             `json:"n"`
	Kind string          `json:"k"`
	Arg  json.RawMessage `json:"a"`
}
type resMsg struct {
	N   int             `json:"n"`
	Res json.RawMessage `json:"r,omitempty"`
	Err string          `json:"e,omitempty"`
}

// MaybeWorker turns the process into a worker when it was started as one.
func MaybeWorker() {
	if len(os.Args) < 2 || os.Args[1] != "-worker" {
		return
	}
	debug.SetGCPercent(200)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	// Results go to the inherited descriptor 3, so that prints of the code under test
	// cannot mix with them.
	outF := os.NewFile(3, "results")
	out := bufio.NewWriterSize(outF, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	var mu sync.Mutex
	var last time.Time
	beat = func() {
		mu.Lock()
		defer mu.Unlock()
		if now := time.Now(); now.Sub(last) > time.Second {
			last = now
			enc.Encode(&resMsg{N: -1})
			out.Flush()
		}
	}
	for {
		var j jobMsg
		if err := dec.Decode(&j); err != nil {
			os.Exit(0)
		}
		r := resMsg{N: j.N}
		f := workerFuncs[j.Kind]
		if f == nil {
			r.Err = "unknown job " + j.Kind
		} else {
			v, err := guarded(f, j.Arg)
			if err != nil {
				r.Err = err.Error()
			} else if b, err := json.Marshal(v); err != nil {
				r.Err = err.Error()
			} else {
				r.Res = b
			}
		}
		mu.Lock()
		if err := enc.Encode(&r); err != nil {
			os.Exit(0)
		}
		out.Flush()
		mu.Unlock()
	}
}

// guarded turns a panic of the harness itself into an error of the check.
func guarded(f WorkerFunc, arg json.RawMessage) (v any, err error) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(string); ok && strings.HasPrefix(s, "harness:") {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(p)
		}
	}()
	return f(arg)
}

// Pool is a set of worker processes.
type Pool struct {
	ws  []*worker
	bin string
}
type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	enc  *json.Encoder
	dec  *json.Decoder
	tail *tailBuf
}

// tailBuf keeps what a worker last wrote to its standard error, from the panic message on.
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = append([]byte{}, t.b[len(t.b)-32<<10:]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	for _, m := range []string{"panic:", "fatal error:", "DATA RACE"} {
		if i := strings.LastIndex(s, m); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// NumWorkers is the number of worker processes used.
func NumWorkers() int {
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		if n, _ := strconv.Atoi(s); n > 0 {
			return n
		}
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func NewPool() (*Pool, error) { return NewPoolOf(os.Args[0]) }

// NewPoolOf starts workers of another build of the same program.
func NewPoolOf(bin string) (*Pool, error) {
	p := &Pool{bin: bin}
	for i := 0; i < NumWorkers(); i++ {
		w, err := startWorker(bin)
		if err != nil {
			return nil, err
		}
		p.ws = append(p.ws, w)
	}
	return p, nil
}

func startWorker(bin string) (*worker, error) {
	c := exec.Command(bin, "-worker")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.ExtraFiles = []*os.File{pw}
	if os.Getenv("VERIF_DEBUG") != "" {
		c.Stdout = os.Stderr
	}
	tail := &tailBuf{}
	c.Stderr = tail
	if os.Getenv("VERIF_DEBUG") != "" {
		c.Stderr = os.Stderr
	}
	c.Env = append(os.Environ(), "GOMAXPROCS=2")
	if err := c.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	return &worker{cmd: c, tail: tail, in: in, enc: json.NewEncoder(in), dec: json.NewDecoder(bufio.NewReaderSize(pr, 1<<20))}, nil
}

func (p *Pool) Close() {
	for _, w := range p.ws {
		w.in.Close()
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
}

// Job is one unit of work.
type Job struct {
	Kind string
	Arg  any
}

// Map runs the jobs on the workers and calls each(i, result) in completion order (one at a
// time). stop, when it returns true, leaves the remaining jobs unstarted.
func (p *Pool) Map(jobs []Job, stop func() bool, each func(i int, res json.RawMessage, err error)) {
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for k := range p.ws {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || (stop != nil && stop()) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				a, err := json.Marshal(jobs[i].Arg)
				tries := 0
				var w *worker
				var r resMsg
			again:
				w = p.ws[k]
				if err == nil {
					err = w.enc.Encode(jobMsg{N: i, Kind: jobs[i].Kind, Arg: a})
				}
				r = resMsg{}
				if err == nil {
					// One execution takes seconds at most; a worker that reports no progress is
					// stuck in the code under test.
					wd := time.AfterFunc(JobLimit, func() { w.cmd.Process.Kill() })
					for {
						r = resMsg{}
						if err = w.dec.Decode(&r); err != nil || r.N >= 0 {
							break
						}
						wd.Reset(JobLimit)
					}
					wd.Stop()
				}
				if err != nil {
					// The worker died: replace it and report the job.
					w.in.Close()
					werr := w.cmd.Wait()
					nw, e2 := startWorker(p.bin)
					if e2 == nil && tries == 0 {
						tries++
						p.ws[k] = nw
						err = nil
						goto again
					}
					mu.Lock()
					each(i, nil, &WorkerDied{fmt.Sprintf("worker ended: %v (%v) %s", err, werr, w.tail)})
					if e2 == nil {
						p.ws[k] = nw
					}
					mu.Unlock()
					if e2 != nil {
						return
					}
					continue
				}
				mu.Lock()
				if r.Err != "" {
					each(i, nil, fmt.Errorf("%s", r.Err))
				} else {
					each(i, r.Res, nil)
				}
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
}

// WorkerDied is the error for a job whose worker process ended.
type WorkerDied struct{ Msg string }

func (w *WorkerDied) Error() string { return w.Msg }
