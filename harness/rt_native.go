package notify

import (
	"encoding/json"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Native twin of rt_sym.go: plays one recorded assignment.

type zchoice struct {
	Name string
	K    int
}

type zreplayState struct {
	mu      sync.Mutex
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Values  map[string]uint64 `json:"values"`
	Choices []zchoice         `json:"choices"`
	names   map[string]int
	out     struct {
		Failed  []string `json:"failed"`
		Known   []string `json:"known"`
		Asserts int      `json:"asserts"`
		Reached []string `json:"reached"`
		Ended   bool     `json:"ended"`
		Done    bool     `json:"done"`
	}
}

var zr zreplayState

func zreplayMain(m map[string]func()) {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &zr); err != nil {
		panic(err)
	}
	zr.names = map[string]int{}
	defer func() {
		zflush()
		if r := recover(); r != nil {
			panic(r)
		}
		os.Exit(0)
	}()
	m[zr.Harness]()
	zr.out.Done = true
}

func zflush() {
	zr.mu.Lock()
	defer zr.mu.Unlock()
	b, _ := json.Marshal(zr.out)
	os.WriteFile(os.Getenv("VERIF_REPLAY_OUT"), b, 0644)
}

func zfresh(name string) uint64 {
	zr.mu.Lock()
	defer zr.mu.Unlock()
	zr.names[name]++
	return zr.Values[name+"#"+strconv.Itoa(zr.names[name])]
}

func vU8(name string) uint8   { return uint8(zfresh(name)) }
func vU16(name string) uint16 { return uint16(zfresh(name)) }
func vU32(name string) uint32 { return uint32(zfresh(name)) }
func vI32(name string) int32  { return int32(zfresh(name)) }
func vU64(name string) uint64 { return zfresh(name) }
func vBool(name string) bool  { return zfresh(name) == 1 }
func vStr(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(zfresh(name))
	}
	return string(b)
}

func vChoose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	zr.mu.Lock()
	defer zr.mu.Unlock()
	if len(zr.Choices) == 0 {
		return 0
	}
	c := zr.Choices[0]
	zr.Choices = zr.Choices[1:]
	if c.Name != name {
		panic("replay divergence: " + c.Name + " vs " + name)
	}
	return c.K
}

func zfail(label string) {
	zr.mu.Lock()
	zr.out.Failed = append(zr.out.Failed, label)
	zr.mu.Unlock()
	zflush()
}

func vAssume(c bool) {
	if !c {
		vEnd()
	}
}

func vAssert(c bool, label string) {
	zr.mu.Lock()
	zr.out.Asserts++
	zr.mu.Unlock()
	if !c {
		zfail(label)
	}
}

func vAssertKF(c, known bool, label, finding string) {
	if !c && known {
		zr.mu.Lock()
		zr.out.Known = append(zr.out.Known, finding)
		zr.out.Asserts++
		zr.mu.Unlock()
		return
	}
	vAssert(c, label)
}

func vFail(label string) { vAssert(false, label) }

func vReach(label string) {
	zr.mu.Lock()
	zr.out.Reached = append(zr.out.Reached, label)
	zr.mu.Unlock()
}

// zstates returns the state and creator of every goroutine but the caller's.
func zstates() (r [][2]string) {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	for i, s := range strings.Split(string(b), "\n\n") {
		if i == 0 {
			continue
		}
		a, z := strings.IndexByte(s, '['), strings.IndexByte(s, ']')
		if a < 0 || z < a {
			continue
		}
		c := ""
		if k := strings.LastIndex(s, "created by "); k >= 0 {
			c = s[k+len("created by "):]
			if n := strings.IndexAny(c, "\n "); n >= 0 {
				c = c[:n]
			}
		}
		r = append(r, [2]string{s[a+1 : z], c})
	}
	return
}

func zbusy(s string) bool {
	return strings.HasPrefix(s, "running") || strings.HasPrefix(s, "runnable") || strings.HasPrefix(s, "syscall") || strings.HasPrefix(s, "sleep") || strings.HasPrefix(s, "GC ")
}

func vSettle() {
	quiet := 0
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end) && quiet < 2; {
		runtime.Gosched()
		time.Sleep(200 * time.Microsecond)
		quiet++
		for _, s := range zstates() {
			if zbusy(s[0]) {
				quiet = 0
			}
		}
	}
}

func zours(c string) bool {
	i := strings.Index(c, "/notify.")
	if i < 0 {
		return false
	}
	c = c[i+len("/notify."):]
	return c != "" && c[0] != 'H' && c[0] != 'z' && !strings.HasPrefix(c, "(*z") && !strings.HasPrefix(c, "TestVerif")
}

func vBlocked() int {
	n := 0
	for _, s := range zstates() {
		if zours(s[1]) && (strings.HasPrefix(s[0], "chan send") || strings.HasPrefix(s[0], "semacquire") || strings.HasPrefix(s[0], "sync.")) {
			n++
		}
	}
	return n
}

func vLive() int {
	n := 0
	for _, s := range zstates() {
		if zours(s[1]) {
			n++
		}
	}
	return n
}

func vYield()            { runtime.Gosched() }
func vRace(on bool)      {}
func vExplore(n int)     {}
func vNewest(on bool)    {}
func vMapOrder(mode int) {}
func vEnd() {
	zr.out.Ended = true
	zflush()
	os.Exit(0)
}
func vAnd(a, b bool) bool     { return a && b }
func vOr(a, b bool) bool      { return a || b }
func vNot(a bool) bool        { return !a }
func vImplies(a, b bool) bool { return !a || b }
func vEq(a, b string) bool    { return a == b }
func vIte32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}
func vIteB(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func vParam(name string, def int) int {
	if v, ok := zr.Params[name]; ok {
		return v
	}
	return def
}
func vTrace(a ...interface{}) {}
func vNative() bool           { return true }
func vConc(x uint32) uint32   { return x }
