// Package props holds the monitors: every property has a driver that runs
// the real jlib code under a generated workload and an oracle that judges
// what was observed.
package props

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Violation is a refuted property with its witness.
type Violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Case   any    `json:"case"`
}

// Run collects what one check observed.
type Run struct {
	T      *testing.T
	Prop   string
	Tier   string
	Seed   uint64
	Shard  int
	Shards int
	Only   int // case index to replay, -1 for all

	mu        sync.Mutex
	evals     int64
	distinct  map[uint64]struct{}
	samples   []any
	counters  map[string]int64
	viols     []Violation
	vsigs     map[string]int
	inconc    []string
	rule      string
	assume    []string
	out       string
	errs      []string
	refuted   bool      // a violation which isn't known
	refutedAt time.Time // when a case after it began
	tainted   atomic.Bool
	muted     atomic.Bool // violations belong to another property
	seq       int64       // cases of this worker begun so far
	skip      int64       // cases a former run of this worker went through
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func newRun(t *testing.T) *Run {
	r := &Run{
		T:        t,
		Prop:     os.Getenv("VERIF_PROP"),
		Tier:     os.Getenv("VERIF_TIER"),
		Seed:     uint64(envInt("VERIF_SEED", 1)),
		Shard:    envInt("VERIF_SHARD", 0),
		Shards:   envInt("VERIF_SHARDS", 1),
		Only:     envInt("VERIF_ONLY", -1),
		distinct: map[uint64]struct{}{},
		counters: map[string]int64{},
		vsigs:    map[string]int{},
		out:      os.Getenv("VERIF_OUT"),
		skip:     int64(envInt("VERIF_SKIP", 0)),
	}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	return r
}

// N picks a number of cases by tier, split over shards by Mine.
func (r *Run) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Mine tells if case i belongs to this shard.
func (r *Run) Mine(i int) bool {
	if r.Only >= 0 {
		return i == r.Only
	}
	if i%r.Shards != r.Shard {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.refuted {
		if r.refutedAt.IsZero() {
			r.refutedAt = time.Now()
		}
		if time.Since(r.refutedAt) > 2*time.Minute {
			return false // the verdict stands, and what is broken may be slow
		}
	}
	r.seq++
	return r.seq > r.skip
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Rand is the PRNG of one case: it depends on seed, property and index only.
func (r *Run) Rand(label string, i int) *rand.Rand {
	return rand.New(rand.NewPCG(r.Seed*0x9E3779B97F4A7C15+uint64(i), hash64(r.Prop+"/"+label)))
}

func (r *Run) Rule(s string)   { r.rule = s }
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Eval records one evaluated case, a non-empty key names a non-trivial one.
func (r *Run) Eval(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if key != "" {
		r.distinct[hash64(key)] = struct{}{}
	}
	progress.Add(1)
}

func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counters[name] += int64(n)
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// Violate records a violation. At most a few of one signature are kept.
func (r *Run) Violate(sig string, c any, format string, args ...any) {
	if r.tainted.Load() || r.muted.Load() {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.vsigs[sig]++
	if r.vsigs[sig] > 3 || len(r.viols) > 40 {
		return
	}
	r.viols = append(r.viols, Violation{Sig: sig, Detail: clip(fmt.Sprintf(format, args...), 6000), Case: jsonSafe(c)})
	if !known[sig] {
		r.refuted = true
		if r.out != "" {
			r.flushLocked()
		}
	}
}

// known are the signatures of the known findings of this property.
var known = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range strings.Fields(os.Getenv("VERIF_KNOWN")) {
		m[s] = true
	}
	return m
}()

func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viols)
}

func (r *Run) Inconclusive(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.inconc) < 20 {
		r.inconc = append(r.inconc, clip(fmt.Sprintf(format, args...), 2000))
	}
}

// taint marks the running case as one the harness cannot observe: it gets
// no verdict.
func (r *Run) taint(why string) {
	if !r.tainted.Swap(true) {
		r.Count("cases_without_verdict", 1)
	}
	r.Count("untestable: "+why, 1)
}

// HarnessError is a failure of the machinery itself.
func (r *Run) HarnessError(format string, args ...any) {
	if r.tainted.Load() {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.errs) < 20 {
		r.errs = append(r.errs, clip(fmt.Sprintf(format, args...), 4000))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func jsonSafe(v any) any {
	if _, err := json.Marshal(v); err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return v
}

func (r *Run) flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.flushLocked()
}

func (r *Run) flushLocked() {
	rep := map[string]any{
		"prop": r.Prop, "evaluations": r.evals, "rule": r.rule,
		"samples": r.samples, "counters": r.counters, "violations": r.viols,
		"sigcounts": r.vsigs, "inconclusive": r.inconc, "errors": r.errs,
		"assumptions": r.assume, "seq": r.seq,
	}
	ds := make([]string, 0, len(r.distinct))
	for h := range r.distinct {
		ds = append(ds, strconv.FormatUint(h, 36))
	}
	rep["distinct"] = ds
	data, err := json.Marshal(rep)
	if err != nil {
		rep["samples"] = []any{fmt.Sprintf("%+v", r.samples)}
		data, _ = json.Marshal(rep)
	}
	if r.out != "" {
		os.WriteFile(r.out+".tmp", data, 0o644)
		os.Rename(r.out+".tmp", r.out)
	} else {
		delete(rep, "distinct")
		data, _ = json.MarshalIndent(rep, "", " ")
		fmt.Printf("%s\ndistinct=%d\n", data, len(ds))
	}
}

// journal keeps the label of the running case where the supervisor finds
// it when the process dies.
var journalMu sync.Mutex

var lastJournal string

func (r *Run) Journal(c any) {
	if r.out == "" {
		return
	}
	data, _ := json.Marshal(jsonSafe(c))
	progress.Add(1)
	journalMu.Lock()
	defer journalMu.Unlock()
	lastJournal = string(data)
	os.WriteFile(r.out+".journal", data, 0o644)
}

// --- protected calls ---

// Guard runs f and turns a panic of the code under test into a violation.
func (r *Run) Guard(sig string, c any, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, false)]
			r.Violate(sig+":panic", c, "panic: %v\n%s", p, buf)
			ok = false
		}
	}()
	f()
	return true
}

// --- bubbles ---

var progress atomic.Int64

// bubble state watched by the real time watchdog
var bubbleStart atomic.Int64
var bubbleName atomic.Value

// Bubble runs f within a synctest bubble: time is virtual, a wait nobody can
// end is detected at once.  A deadlock is reported under sig.
func (r *Run) Bubble(sig string, c any, f func(t *testing.T)) {
	r.Journal(c)
	bubbleName.Store(fmt.Sprintf("%s %v", sig, jsonSafe(c)))
	bubbleStart.Store(time.Now().UnixNano())
	defer bubbleStart.Store(0)
	// a test that fails (the race detector makes it) ends its goroutine
	done := make(chan struct{})
	go func() {
		defer close(done)
		r.bubble(sig, c, f)
	}()
	<-done
}

func (r *Run) bubble(sig string, c any, f func(t *testing.T)) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if strings.HasPrefix(s, "deadlock:") {
				all := bubbleStacks(lastBubble.Load())
				if st := jlibStacks(all); st != "" {
					r.Violate(sig+":deadlock", c, "%s\n%s", s, st)
				} else {
					r.HarnessError("bubble %s %v: %s\n%s", sig, jsonSafe(c), s, clip(all, 4000))
				}
				return
			}
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, false)]
			r.HarnessError("bubble %s %v: panic %v\n%s", sig, jsonSafe(c), p, buf)
		}
	}()
	synctest.Test(r.T, func(t *testing.T) {
		lastBubble.Store(currentBubble())
		f(t)
		// whatever is still there cannot be ended by passing time below
		time.Sleep(30 * time.Minute)
		synctest.Wait()
	})
}

var lastBubble atomic.Int64

// currentBubble parses the bubble number out of the goroutine header.
func currentBubble() int64 {
	buf := make([]byte, 256)
	s := string(buf[:runtime.Stack(buf, false)])
	const mark = "synctest bubble "
	i := strings.Index(s, mark)
	if i < 0 {
		return -1
	}
	n := int64(0)
	for _, ch := range s[i+len(mark):] {
		if ch < '0' || ch > '9' {
			break
		}
		n = n*10 + int64(ch-'0')
	}
	return n
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) || len(buf) >= 64<<20 {
			return string(buf[:n])
		}
		buf = make([]byte, len(buf)*2)
	}
}

// bubbleStacks returns the goroutines of a bubble other than its runner.
func bubbleStacks(id int64) string {
	mark := fmt.Sprintf("synctest bubble %d]", id)
	var out []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.Contains(head, mark) || strings.Contains(head, "synctest.Run") ||
			strings.Contains(g, "props.currentBubble") || strings.Contains(g, "props.allStacks") ||
			strings.Contains(g, "testing.testingSynctestTest") || strings.Contains(g, "synctest.testingSynctestTest") && !strings.Contains(g, "jlib") {
			continue
		}
		out = append(out, g)
	}
	return strings.Join(out, "\n\n")
}

// jlibStacks keeps the goroutines with frames of the code under test.
func jlibStacks(st string) string {
	var out []string
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, "superisaac/jlib") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

// stackShape drops addresses and minutes from a goroutine dump so two dumps
// of the same blocked goroutines compare equal.
func stackShape(st string) string {
	var out []string
	for _, line := range strings.Split(st, "\n") {
		if strings.HasPrefix(line, "goroutine ") {
			f := strings.Fields(line)
			if len(f) > 2 {
				line = "goroutine " + f[1] + " " + strings.TrimRight(strings.SplitN(f[2], ",", 2)[0], "]:")
			}
		} else if i := strings.LastIndex(line, "("); i > 0 && !strings.HasPrefix(line, "\t") {
			line = line[:i]
		}
		out = append(out, line)
	}
	return strings.Join(out, "\n")
}

// lockWaiters counts the goroutines waiting for a lock.
func lockWaiters(st string) int {
	n := 0
	for _, g := range strings.Split(st, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "[sync.Mutex") || strings.Contains(head, "[sync.RWMutex") || strings.Contains(head, "[semacquire") {
			n++
		} else if (strings.Contains(head, "[chan ") || strings.Contains(head, "[select")) && !strings.Contains(head, "(durable)") && strings.Contains(firstFrame(g), "superisaac/jlib") {
			n++ // a channel of the whole process
		}
	}
	return n
}

// timeMatters tells if a goroutine of the running bubble waits for time in
// the harness: on the network or in a handler.
func timeMatters() bool {
	if n := curNet.Load(); n != nil && n.timed.Load() {
		return true
	}
	st := bubbleStacks(lastBubble.Load())
	for _, g := range strings.Split(st, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "[select") && strings.Contains(firstFrame(g), "http2.(*Transport).RoundTripOpt") {
			return true // backing off before another try
		}
		if strings.Contains(head, "[sleep") && strings.Contains(g, "superisaac/jlib") {
			return true
		}
	}
	return false
}

// watchdog decides on a process that stopped making progress: goroutines of
// the bubble that hold still on a mutex can't be seen by synctest.
func (r *Run) watchdog(stop chan struct{}) {
	go r.plainWatchdog(stop)
	limit := 12 * time.Second
	spin := 150 * time.Second
	hard := 400 * time.Second
	for n := 1; ; n++ {
		if n%30 == 0 {
			r.flush() // what has been seen counts if time runs out
		}
		select {
		case <-stop:
			return
		case <-time.After(2 * time.Second):
		}
		st := bubbleStart.Load()
		if st == 0 {
			continue
		}
		age := time.Since(time.Unix(0, st))
		if age < limit {
			continue
		}
		d1 := jlibStacks(bubbleStacks(lastBubble.Load()))
		s1 := stackShape(d1)
		p1 := progress.Load()
		time.Sleep(4 * time.Second)
		if bubbleStart.Load() != st || progress.Load() != p1 {
			continue
		}
		d2 := jlibStacks(bubbleStacks(lastBubble.Load()))
		s2 := stackShape(d2)
		idle := !strings.Contains(d2, "[running") && !strings.Contains(d2, "[runnable")
		locked := lockWaiters(d2) > 0
		if !locked && lockWaiters(bubbleStacks(lastBubble.Load())) > 0 && s1 == s2 && idle {
			// a lock of a library or the harness
			r.Count("cases_without_verdict", 1)
			r.flush()
			os.Exit(9)
		}
		if s1 == s2 && s1 != "" && idle && locked && timeMatters() {
			// who holds the lock may wait for time, which can't pass as
			// long as somebody waits for the lock: the bubble can't
			// settle this case, a further run goes on with the next one
			r.Count("cases_without_verdict", 1)
			r.flush()
			os.Exit(9)
		}
		if s1 == s2 && s1 != "" && idle && locked {
			name, _ := bubbleName.Load().(string)
			r.Violate("mutex-deadlock", name, "goroutines of the code under test hold still on locks\n%s", clip(lockFirst(d2), 5000))
			r.flush()
			os.Exit(7)
		}
		if age > spin {
			if g := spinning(st); g != "" {
				name, _ := bubbleName.Load().(string)
				r.Violate("endless-loop", name, "after %v a goroutine of the code under test runs on and on\n%s", age, clip(g, 5000))
				r.flush()
				os.Exit(7)
			}
		}
		if age > hard {
			name, _ := bubbleName.Load().(string)
			r.Inconclusive("bubble %s did not end: %s", name, clip(allStacks(), 20000))
			r.flush()
			os.Exit(8)
		}
	}
}

// spinning gives a goroutine which has been running in the code under test
// most times it was looked at for half a minute, long after its bubble should have
// ended.
func spinning(st int64) string {
	const looks = 30
	seen, last := map[string]int{}, map[string]string{}
	for n := 0; n < looks; n++ {
		time.Sleep(time.Second)
		if bubbleStart.Load() != st {
			return ""
		}
		stacks := allStacks()
		if st != 0 {
			stacks = bubbleStacks(lastBubble.Load())
		}
		for _, g := range strings.Split(jlibStacks(stacks), "\n\n") {
			head, _, _ := strings.Cut(g, "\n")
			f := strings.Fields(head)
			if len(f) < 3 {
				continue
			}
			switch {
			case strings.Contains(head, "[running"), strings.Contains(head, "[runnable"):
				// it runs whenever looked at
				seen[f[1]+" runs"]++
				last[f[1]+" runs"] = g
			case st == 0 && strings.Contains(head, "[sync.") && lockedIn(g):
				seen[f[1]+" waits"]++
				last[f[1]+" waits"] = g
			}
		}
	}
	for id, n := range seen {
		if n >= looks*2/3 {
			return last[id]
		}
	}
	return ""
}

// lockedIn tells if it is the code under test which asks for the lock its
// goroutine waits for.
func lockedIn(g string) bool {
	for _, line := range strings.Split(g, "\n")[1:] {
		if strings.HasPrefix(line, "\t") || strings.HasPrefix(line, "sync.") || strings.HasPrefix(line, "internal/") {
			continue
		}
		return strings.Contains(line, "superisaac/jlib")
	}
	return false
}

// plainWatchdog decides on a process which is stuck outside of a bubble.
func (r *Run) plainWatchdog(stop chan struct{}) {
	p, since := progress.Load(), time.Now()
	for {
		select {
		case <-stop:
			return
		case <-time.After(5 * time.Second):
		}
		if now := progress.Load(); now != p || bubbleStart.Load() != 0 {
			p, since = now, time.Now()
			continue
		}
		if time.Since(since) < 150*time.Second {
			continue
		}
		if g := spinning(0); g != "" && progress.Load() == p {
			r.Violate("stuck", r.lastCase(), "nothing has been going on for %v but this\n%s", time.Since(since), clip(g, 5000))
			r.flush()
			os.Exit(7)
		}
	}
}

// lastCase is the case journaled last.
func (r *Run) lastCase() any {
	journalMu.Lock()
	defer journalMu.Unlock()
	return lastJournal
}

// lockFirst sorts the goroutines which wait for locks to the front.
func lockFirst(st string) string {
	var a, b []string
	for _, g := range strings.Split(st, "\n\n") {
		if lockWaiters(g) > 0 || strings.Contains(g, "ensureConn(") {
			a = append(a, g)
		} else {
			b = append(b, g)
		}
	}
	return strings.Join(append(a, b...), "\n\n")
}

// firstFrame is the innermost function of a goroutine.
func firstFrame(g string) string {
	l := strings.SplitN(g, "\n", 3)
	if len(l) < 2 {
		return ""
	}
	return l[1]
}
