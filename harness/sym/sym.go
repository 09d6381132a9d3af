// Package sym is how a harness names its arbitrary inputs and states its property.
// The symbolic engine intercepts these functions; this native form feeds them the values
// the solver found, so that every counterexample is replayed against the real build.
package sym

import (
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Input is one recorded input.
type Input struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	V    []uint64 `json:"v"`
}

// Ob is one observation.
type Ob struct {
	Name string `json:"name"`
	V    string `json:"v"`
}

var (
	queue   []Input
	Obs     []Ob
	Reached int
	KnownID []string
)

// Failure is what Assert panics with.
type Failure struct{ Msg string }

// Outside is what Assume panics with.
type Outside struct{}

// Mismatch is what an input of another kind than recorded panics with.
type Mismatch struct{ Msg string }

// Reset loads the inputs of the next run.
func Reset(in []Input) {
	queue = in
	Obs = nil
	Reached = 0
	KnownID = nil
	nativeStdout()
}

var out []byte

// Wrote is where the engine's stand-in for os.File leaves what is written to any file.
func Wrote(b []byte) { out = append(out, b...) }

// Stdout is what was written to the standard output since the last call.
func Stdout() string {
	if Native() {
		return nativeStdout()
	}
	s := string(out)
	out = nil
	return s
}

func nativeStdout() string {
	os.Stdout.Seek(0, 0)
	b, _ := io.ReadAll(os.Stdout)
	os.Stdout.Truncate(0)
	os.Stdout.Seek(0, 0)
	return string(b)
}

func next(name, kind string, n int) []uint64 {
	if len(queue) == 0 {
		// past what was recorded: zero
		return make([]uint64, n)
	}
	in := queue[0]
	queue = queue[1:]
	if in.Kind != kind || len(in.V) != n {
		panic(Mismatch{fmt.Sprintf("input %s: recorded %s/%d, asked %s/%d", name, in.Kind, len(in.V), kind, n)})
	}
	return in.V
}

func Byte(name string) byte       { return byte(next(name, "u8", 1)[0]) }
func Int8(name string) int8       { return int8(next(name, "i8", 1)[0]) }
func Uint16(name string) uint16   { return uint16(next(name, "u16", 1)[0]) }
func Int16(name string) int16     { return int16(next(name, "i16", 1)[0]) }
func Uint32(name string) uint32   { return uint32(next(name, "u32", 1)[0]) }
func Int32(name string) int32     { return int32(next(name, "i32", 1)[0]) }
func Uint64(name string) uint64   { return next(name, "u64", 1)[0] }
func Int64(name string) int64     { return int64(next(name, "i64", 1)[0]) }
func Int(name string) int         { return int(next(name, "i64", 1)[0]) }
func Float64(name string) float64 { return math.Float64frombits(next(name, "f64", 1)[0]) }

// Real is any finite float64; the engine computes with it as with a real number, without rounding.
func Real(name string) float64 { return math.Float64frombits(next(name, "f64", 1)[0]) }

func Bool(name string) bool { return next(name, "bool", 1)[0] != 0 }

// Range is any integer in [lo, hi].
func Range(name string, lo, hi int) int { return lo + int(next(name, "range", 1)[0]) }

// Choose is any integer in [0, n), every value on a path of its own.
func Choose(name string, n int) int { return int(next(name, "choose", 1)[0]) }

// String is any string of exactly n bytes.
func String(name string, n int) string {
	if n == 0 {
		return ""
	}
	v := next(name, "str", n)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v[i])
	}
	return string(b)
}

// Letters is any string of n letters a to z.
func Letters(name string, n int) string { return String(name, n) }

// Bytes is any slice of exactly n bytes.
func Bytes(name string, n int) []byte { return []byte(String(name, n)) }

// Assume restricts the claim to inputs for which c holds.
func Assume(c bool) {
	if !c {
		panic(Outside{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(Failure{msg}) }

// Together runs the functions at the same time, with up to n preemptions in the engine, which
// also decides whether any order of what they do has a data race.
func Together(n int, fs ...func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var died any
	trace(n)
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer caught(&mu, &died)
			f()
		}()
	}
	wg.Wait()
	trace(-1)
	if died != nil {
		panic(died)
	}
}

func caught(mu *sync.Mutex, died *any) {
	if p := recover(); p != nil {
		mu.Lock()
		*died = p
		mu.Unlock()
	}
}

func trace(int) {}

// RunTest runs a test until it returns or is stopped by FailNow.
func RunTest(f func()) {
	testFailed = false
	if Native() {
		var died any
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() { died = recover() }()
			f()
		}()
		<-done
		if died != nil {
			panic(died)
		}
		return
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(Stopped); !ok {
				panic(p)
			}
		}
	}()
	f()
}

// Stopped is what the stand-in for FailNow panics with.
type Stopped struct{}

var testFailed bool

// TestFails is what the stand-in for testing.T.Fail does.
func TestFails() { testFailed = true }

// TestFailed reports whether the test failed in the engine.
func TestFailed() bool { return testFailed }

// Yield is a place where another goroutine may run.
func Yield() {
	switch rand.IntN(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rand.IntN(50)) * time.Microsecond)
	}
}

// Reach marks that a path came to the end of the harness.
func Reach(string) { Reached++ }

// Finding is Assert(c, msg), but that c does not hold when the defect known as id says so
// is a known finding. Everything after it is checked all the same.
func Finding(id string, when, c bool, msg string) {
	if c {
		return
	}
	if !when {
		panic(Failure{msg})
	}
	KnownID = append(KnownID, id)
}

// Native reports whether this is the native build.
func Native() bool { return true }

// ObserveString records a value to be compared between the engine and the native build.
func ObserveString(name, v string) { Obs = append(Obs, Ob{name, strconv.Quote(v)}) }

// ObserveInt records a number.
func ObserveInt(name string, v int) { Obs = append(Obs, Ob{name, fmt.Sprint(v)}) }

// MapOrder makes iteration over small maps take any order.
func MapOrder(bool) {}

var (
	files  map[string]string
	opened map[*os.File]*strings.Reader
)

// File makes a file that os.Open finds under the name it returns.
func File(name, content string) string {
	if !Native() {
		if files == nil {
			files, opened = map[string]string{}, map[*os.File]*strings.Reader{}
		}
		files[name] = content
		return name
	}
	f, err := os.CreateTemp("", "zzverif-"+name)
	if err == nil {
		_, err = f.WriteString(content)
	}
	if err == nil {
		err = f.Close()
	}
	if err != nil {
		panic(err)
	}
	made = append(made, f.Name())
	return f.Name()
}

var made []string

// Remove removes the files.
func Remove() {
	for _, f := range made {
		os.Remove(f)
	}
	made = nil
}

// Open is what the engine calls for os.Open.
func Open(name string) (*os.File, error) {
	if c, found := files[name]; found {
		f := new(os.File)
		opened[f] = strings.NewReader(c)
		return f, nil
	}
	return nil, &os.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

// Read is what the engine calls for (*os.File).Read.
func Read(f *os.File, b []byte) (int, error) {
	if r := opened[f]; r != nil {
		return r.Read(b)
	}
	return 0, io.EOF
}
