// Package vk is the monitoring kit shared by all checks: it runs a workload in
// supervised child processes, collects what the monitors observed, turns
// violations, crashes and sanitizer reports into a verdict and writes the
// evidence file.
package vk

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Spec describes one check.
type Spec struct {
	Prop        string
	Rule        string
	Assumptions []string
	Shards      func(tier string) int // child processes (default 1)
	MinEvals    int64                 // fewer than this: inconclusive
	Run         func(c *C)
	// Alt tells whether shard i runs the alternative build ($VK_ALT, made with
	// the flags in ALTFLAGS).
	Alt func(shard int) bool
	// Width bounds the number of child processes at a time (0: no bound).
	Width int
	// Env is added to the environment of shard i.
	Env func(tier string, shard int) []string
}

// Violation is a refuted property with its witness.
type Violation struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Stack  string `json:"stack,omitempty"`
}

type stat struct {
	N   int64   `json:"n"`
	Sq  float64 `json:"sum_sq"`
	Sum float64 `json:"sum"`
	Max float64 `json:"max_abs"`
}

type result struct {
	Evals    int64             `json:"evals"`
	Counters map[string]int64  `json:"counters"`
	Stats    map[string]*stat  `json:"stats"`
	Samples  []any             `json:"samples"`
	Known    map[string]string `json:"known"`
	Viol     *Violation        `json:"violation"`
	Notes    []string          `json:"notes"`
	Done     bool              `json:"done"`
}

// C is the context of one child.
type C struct {
	Prop    string
	Tier    string
	Seed    int64
	Shard   int
	NShards int

	mu    sync.Mutex
	sigs  map[uint64]struct{}
	once  map[string]bool
	seen  int
	res   result
	out   string
	known map[string]string
}

// Quick tells whether this is the quick tier.
func (c *C) Quick() bool { return c.Tier != "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (c *C) Pick(q, t int) int {
	if c.Quick() {
		return q
	}
	return t
}

// Mine tells whether case i belongs to this shard.
func (c *C) Mine(i int) bool { return i%c.NShards == c.Shard }

// Rand returns a generator determined by the seed, the label and the shard.
func (c *C) Rand(format string, args ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%d|", c.Seed, c.Shard)
	fmt.Fprintf(h, format, args...)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Seen records one evaluation with its signature.
func (c *C) Seen(format string, args ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, args...)
	c.SeenHash(h.Sum64())
	c.mu.Lock()
	c.seen++
	k := c.seen
	c.mu.Unlock()
	if k%97 == 1 && k < 400 { // a few signatures as samples
		c.Sample(fmt.Sprintf(format, args...))
	}
}

// SeenHash records one evaluation whose signature is already hashed.
func (c *C) SeenHash(s uint64) {
	c.mu.Lock()
	c.res.Evals++
	if len(c.sigs) < 2000000 {
		c.sigs[s] = struct{}{}
	}
	c.mu.Unlock()
}

// Count adds n to a named counter of observed events.
func (c *C) Count(name string, n int64) {
	c.mu.Lock()
	c.res.Counters[name] += n
	c.mu.Unlock()
}

// Noise records a phase error (fraction of the torus) under a key.
func (c *C) Noise(key string, e float64) {
	c.mu.Lock()
	s := c.res.Stats[key]
	if s == nil {
		s = &stat{}
		c.res.Stats[key] = s
	}
	s.N++
	s.Sq += e * e
	s.Sum += e
	if a := math.Abs(e); a > s.Max {
		s.Max = a
	}
	c.mu.Unlock()
}

// NoiseOnce records a phase error unless the same ciphertext (by its hash) was
// recorded before: equal inputs give equal results, which are no samples.
func (c *C) NoiseOnce(key string, hash uint64, e float64) {
	c.mu.Lock()
	k := key + strconv.FormatUint(hash, 16)
	dup := c.once[k]
	c.once[k] = true
	c.mu.Unlock()
	if !dup {
		c.Noise(key, e)
	}
}

// RMS returns the root mean square and the number of values recorded.
func (c *C) RMS(key string) (float64, int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.res.Stats[key]
	if s == nil || s.N == 0 {
		return 0, 0
	}
	return math.Sqrt(s.Sq / float64(s.N)), s.N
}

// SD returns the standard deviation about the mean, the mean and the number of
// values recorded. The noise of ciphertexts made with one key has a common part
// (the errors of key entries that every operation adds up alike), so a bound on
// the root mean square is a bound on luck; the spread is what an operation adds.
func (c *C) SD(key string) (sd, mean float64, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.res.Stats[key]
	if s == nil || s.N < 2 {
		return 0, 0, 0
	}
	mean = s.Sum / float64(s.N)
	return math.Sqrt(math.Max(0, s.Sq/float64(s.N)-mean*mean)), mean, s.N
}

// Mean returns the mean and the number of values recorded.
func (c *C) Mean(key string) (float64, int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.res.Stats[key]
	if s == nil || s.N == 0 {
		return 0, 0
	}
	return s.Sum / float64(s.N), s.N
}

// Sample keeps a few actual cases for the evidence.
func (c *C) Sample(v any) {
	c.mu.Lock()
	if len(c.res.Samples) < 8 {
		c.res.Samples = append(c.res.Samples, v)
	}
	c.mu.Unlock()
}

// Note adds a free-form remark to the evidence.
func (c *C) Note(format string, args ...any) {
	c.mu.Lock()
	c.res.Notes = append(c.res.Notes, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

// Fail records a violation and ends this child.
func (c *C) Fail(caseName, format string, args ...any) {
	c.fail(&Violation{Case: caseName, Detail: fmt.Sprintf(format, args...)})
}

func (c *C) fail(v *Violation) {
	c.mu.Lock() // never released: the process ends here
	c.res.Viol = v
	c.flush()
	os.Exit(3)
}

// Finding reports a failure that may be listed in known_findings.json under
// (property, key); if it is not listed it is a violation.
func (c *C) Finding(key, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if _, ok := c.known[c.Prop+"/"+key]; ok {
		c.mu.Lock()
		c.res.Known[key] = c.known[c.Prop+"/"+key] + " [observed: " + msg + "]"
		c.mu.Unlock()
		return
	}
	c.Fail(key, "%s", msg)
}

// Guard runs f and turns a panic into a violation.
func (c *C) Guard(caseName string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.fail(&Violation{Case: caseName, Detail: fmt.Sprintf("panic: %v", r), Stack: string(debug.Stack())})
		}
	}()
	f()
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Par runs f(0..n-1) on up to w goroutines under Guard.
func (c *C) Par(caseName string, w, n int, f func(worker, i int)) {
	if w > n {
		w = n
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c.Guard(caseName, func() {
				for {
					mu.Lock()
					i := next
					next++
					mu.Unlock()
					if i >= n {
						return
					}
					f(k, i)
				}
			})
		}(k)
	}
	wg.Wait()
}

func (c *C) flush() {
	b, err := json.Marshal(&c.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vk: cannot encode result:", err)
		os.Exit(9)
	}
	if err := os.WriteFile(c.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "vk:", err)
		os.Exit(9)
	}
	f, err := os.Create(c.out + ".sig")
	if err != nil {
		return
	}
	w := bufio.NewWriter(f)
	var buf [8]byte
	for s := range c.sigs {
		binary.LittleEndian.PutUint64(buf[:], s)
		w.Write(buf[:])
	}
	w.Flush()
	f.Close()
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
}

func loadKnown() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return m
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "vk: known_findings.json:", err)
		os.Exit(9)
	}
	for _, f := range k.Findings {
		m[f.Property+"/"+f.Key] = f.What
	}
	return m
}

// Main runs the check.
func Main(s Spec) {
	if ch := os.Getenv("VK_CHILD"); ch != "" {
		child(s, ch)
		return
	}
	os.Exit(parent(s))
}

func child(s Spec, ch string) {
	parts := strings.Split(ch, "/")
	i, _ := strconv.Atoi(parts[0])
	n, _ := strconv.Atoi(parts[1])
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &C{Prop: s.Prop, Tier: os.Getenv("VERIF_TIER"), Seed: seed, Shard: i, NShards: n,
		sigs: map[uint64]struct{}{}, once: map[string]bool{}, out: os.Getenv("VK_OUT"), known: loadKnown()}
	c.res = result{Counters: map[string]int64{}, Stats: map[string]*stat{}, Known: map[string]string{}}
	c.Guard("workload", func() { s.Run(c) })
	c.mu.Lock()
	c.res.Done = true
	c.flush()
	os.Exit(0)
}

func parent(s Spec) int {
	start := time.Now()
	tier := "quick"
	if len(os.Args) > 1 && os.Args[1] != "" {
		tier = os.Args[1]
	} else if t := os.Getenv("VERIF_TIER"); t != "" {
		tier = t
	}
	if tier != "quick" && tier != "thorough" {
		fmt.Fprintln(os.Stderr, "tier must be quick or thorough")
		return 9
	}
	seed := os.Getenv("VERIF_SEED")
	if _, err := strconv.ParseInt(seed, 10, 64); err != nil {
		seed = "1"
	}
	seedN, _ := strconv.ParseInt(seed, 10, 64)
	shards := 1
	if s.Shards != nil {
		shards = s.Shards(tier)
	}
	dir, err := os.MkdirTemp("", "vk-"+s.Prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 9
	}
	defer os.RemoveAll(dir)
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()

	type outT struct {
		res    result
		have   bool
		stderr string
		err    error
		wall   float64
		first  bool // ended before the others were stopped
	}
	outs := make([]outT, shards)
	var wg sync.WaitGroup
	width := s.Width
	if width <= 0 || width > shards {
		width = shards
	}
	slots := make(chan struct{}, width)
	var again sync.Mutex // a process ended for lack of memory runs again, alone among such
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- struct{}{}
			defer func() { <-slots }()
			if ctx.Err() != nil {
				outs[i].err = ctx.Err()
				return
			}
			out := filepath.Join(dir, fmt.Sprintf("r%d.json", i))
			bin := os.Args[0]
			if s.Alt != nil && s.Alt(i) && os.Getenv("VK_ALT") != "" {
				bin = os.Getenv("VK_ALT")
			}
			t0 := time.Now()
			for try := 0; try < 2; try++ {
				cmd := exec.CommandContext(ctx, bin, tier)
				cmd.Env = append(os.Environ(), fmt.Sprintf("VK_CHILD=%d/%d", i, shards), "VK_OUT="+out,
					"VERIF_TIER="+tier, "VERIF_SEED="+seed, "GOTRACEBACK=all",
					"GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+dir)
				if s.Env != nil {
					cmd.Env = append(cmd.Env, s.Env(tier, i)...)
				}
				var eb bytes.Buffer
				cmd.Stderr = &eb
				cmd.Stdout = os.Stderr
				outs[i].err = cmd.Run()
				outs[i].stderr = eb.String()
				if try == 1 || ctx.Err() != nil || !killed(outs[i].err) {
					break
				}
				again.Lock()
				defer again.Unlock()
			}
			outs[i].wall = math.Round(time.Since(t0).Seconds()*10) / 10
			if b, err := os.ReadFile(out); err == nil {
				if json.Unmarshal(b, &outs[i].res) == nil {
					outs[i].have = true
				}
			}
			if outs[i].err != nil {
				// one refuted shard decides: stop the others
				if ctx.Err() == nil {
					outs[i].first = true
				}
				cancel()
			}
		}(i)
	}
	wg.Wait()
	timedOut := ctx.Err() == context.DeadlineExceeded

	var viol *Violation
	crashed := ""
	tot := result{Counters: map[string]int64{}, Stats: map[string]*stat{}, Known: map[string]string{}}
	distinct := map[uint64]struct{}{}
	for i := range outs {
		o := &outs[i]
		tot.Evals += o.res.Evals
		for k, v := range o.res.Counters {
			tot.Counters[k] += v
		}
		for k, v := range o.res.Stats {
			t := tot.Stats[k]
			if t == nil {
				t = &stat{}
				tot.Stats[k] = t
			}
			t.N += v.N
			t.Sq += v.Sq
			t.Sum += v.Sum
			t.Max = math.Max(t.Max, v.Max)
		}
		if len(tot.Samples) < 12 {
			tot.Samples = append(tot.Samples, o.res.Samples...)
		}
		for k, v := range o.res.Known {
			tot.Known[k] = v
		}
		tot.Notes = append(tot.Notes, o.res.Notes...)
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("r%d.json.sig", i))); err == nil {
			for j := 0; j+8 <= len(b); j += 8 {
				distinct[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
			}
		}
		if o.res.Viol != nil && viol == nil {
			viol = o.res.Viol
		}
		if o.err != nil && o.res.Viol == nil && viol == nil {
			// the child died: a panic in a goroutine of the code under test, a
			// runtime fault or a sanitizer report
			for _, mark := range []string{"WARNING: DATA RACE", "ERROR: AddressSanitizer", "fatal error:", "panic:", "checkptr:", "unexpected fault address", "SIGSEGV"} {
				if k := strings.Index(o.stderr, mark); k >= 0 {
					if strings.Contains(o.stderr, "out of memory") {
						break
					}
					viol = &Violation{Case: "process of the workload died", Detail: mark, Stack: clip(o.stderr[k:], 12000)}
					break
				}
			}
			if viol == nil && crashed == "" && o.first {
				crashed = fmt.Sprintf("shard %d: %v\n%s", i, o.err, clip(o.stderr, 4000))
			}
		}
	}
	incomplete := 0
	for i := range outs {
		if !outs[i].res.Done {
			incomplete++
		}
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	if len(tot.Samples) > 12 {
		tot.Samples = tot.Samples[:12]
	}
	observed := map[string]any{}
	for k, v := range tot.Counters {
		observed[k] = v
	}
	noise := map[string]any{}
	for k, v := range tot.Stats {
		if v.N > 0 {
			noise[k] = map[string]any{"n": v.N, "rms": sci(math.Sqrt(v.Sq / float64(v.N))), "mean": sci(v.Sum / float64(v.N)), "max_abs": sci(v.Max)}
		}
	}
	cov := map[string]any{
		"evaluations":         tot.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                s.Rule,
		"samples":             append([]any{}, tot.Samples...),
		"observed_events":     observed,
		"processes":           shards,
		"go":                  runtime.Version(),
	}
	walls := []float64{}
	for i := range outs {
		walls = append(walls, outs[i].wall)
	}
	cov["process_wall_s"] = walls
	if len(noise) > 0 {
		cov["measured_noise"] = noise
	}
	if len(tot.Notes) > 0 {
		cov["notes"] = tot.Notes
	}
	kf := []string{}
	for _, v := range tot.Known {
		kf = append(kf, v)
	}
	sort.Strings(kf)
	if len(kf) > 0 {
		cov["known_findings_observed"] = kf
	}
	assum := s.Assumptions
	if assum == nil {
		assum = []string{}
	}
	ev := map[string]any{
		"property": s.Prop, "tier": tier, "seed": seedN, "level": "exploration",
		"coverage": cov, "assumptions": assum,
		"wall_s": math.Round(time.Since(start).Seconds()*100) / 100, "violations": nviol,
	}
	evDir := filepath.Join(verifDir(), "evidence")
	if d := os.Getenv("VERIF_EVDIR"); d != "" { // development only
		evDir = d
	}
	os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, s.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 9
	}
	for k := range tot.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.Prop, tot.Known[k])
	}
	if viol != nil {
		replay := filepath.Join(evDir, "replay-"+s.Prop+".json")
		rb, _ := json.MarshalIndent(map[string]any{
			"property": s.Prop, "tier": tier, "seed": seedN, "violation": viol,
			"rerun": fmt.Sprintf("VERIF_SEED=%d bash check.sh %s %s", seedN, s.Prop, tier),
		}, "", " ")
		os.WriteFile(replay, append(rb, '\n'), 0o644)
		fmt.Printf("%s: %s\n", viol.Case, clip(viol.Detail, 1500))
		if viol.Stack != "" {
			fmt.Println(clip(viol.Stack, 2500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.Prop, replay)
		return 1
	}
	if timedOut {
		fmt.Printf("INCONCLUSIVE property=%s: the watchdog ended the run\n", s.Prop)
		return 2
	}
	if crashed != "" || incomplete > 0 {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", s.Prop, crashed)
		return 2
	}
	if tot.Evals < s.MinEvals || tot.Evals == 0 {
		fmt.Printf("INCONCLUSIVE property=%s: only %d evaluations observed\n", s.Prop, tot.Evals)
		return 2
	}
	fmt.Printf("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", s.Prop, tier, seedN, tot.Evals, len(distinct), time.Since(start).Seconds())
	return 0
}

// killed tells whether a process was ended from outside (no memory left).
func killed(err error) bool {
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		return false
	}
	ws, ok := ee.Sys().(syscall.WaitStatus)
	return ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL
}

func sci(v float64) string { return strconv.FormatFloat(v, 'e', 4, 64) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
