// C04: batch gates equal the individual gates, item by item.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

var shardCfg = []struct {
	prof string
	proc int
	cost int // relative cost of one item
}{
	{"128", 8, 2}, {"128", 1, 4}, {"80", 2, 3}, {"110", 16, 2}, {"uint2", 4, 1}, {"uint2", 8, 1}, {"uint1", 8, 3}, {"uint3", 3, 2}, {"uint4", 8, 6}, {"uint5", 5, 9},
}

func main() {
	vk.Main(vk.Spec{
		Prop: "C04",
		Rule: "one evaluation = one item of one batch, decrypted, its phase measured and its storage compared with that of all other results; signature (profile, processors, gate, batch length, position, input values, overlap)",
		Assumptions: []string{
			"phase errors up to 9 times the profile's noise constant are bootstrap noise",
		},
		Shards: func(string) int { return len(shardCfg) },
		Env: func(_ string, i int) []string {
			return []string{fmt.Sprintf("GOMAXPROCS=%d", shardCfg[i].proc)}
		},
		MinEvals: 1000,
		Run:      run,
	})
}

type in struct {
	ct *gates.Ciphertext
	v  bool
}

type mon struct {
	c    *vk.C
	p    orc.Profile
	k    *orc.Keys
	proc int
}

func run(c *vk.C) {
	cfg := shardCfg[c.Shard]
	p := orc.ByName(cfg.prof)
	m := &mon{c, p, orc.KeysFor(p), cfg.proc}
	r := c.Rand("batch")
	alpha := params.GetTLWELv0().ALPHA
	pool := []in{{gates.Constant(false), false}, {gates.Constant(true), true}}
	for i := 0; i < 14; i++ {
		v := i%2 == 0
		pool = append(pool, in{tlwe.NewTLWELv0().EncryptBool(v, alpha, m.k.SK.KeyLv0), v})
	}
	type kept struct {
		ct   *gates.Ciphertext
		h    uint64
		name string
	}
	var old []kept
	// garbage collections empty the evaluator pool at odd moments
	stop := make(chan struct{})
	var gcwg sync.WaitGroup
	if c.Shard%2 == 0 {
		gcwg.Add(1)
		go func() {
			defer gcwg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
					time.Sleep(15 * time.Millisecond)
				}
			}
		}()
	}
	sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 24, 31, 32, 33, 47, 64, 65, 100, 129}
	budget := c.Pick(840, 40000) / cfg.cost
	used := 0
	large := 0 // rounds that take place whatever the budget
	if cfg.prof == "uint2" && cfg.proc == 8 {
		large = c.Pick(21, 22)
	}
	for round := 0; used < budget || round < large; round++ {
		size := 0
		switch {
		case round < 12: // every gate, twice, on short batches
			size = []int{4, 9}[round/6]
		case round < 18:
			size = round - 18 + 6
			size %= 3
		default:
			size = sizes[r.Intn(len(sizes))]
			if size > budget-used && size > 9 {
				size = 9
			}
		}
		if round == 18 && cfg.prof == "uint2" { // far beyond the number of processors
			size = 257
			if cfg.proc == 4 {
				size = 600 + r.Intn(60)
			}
		}
		if round == 19 && cfg.prof == "uint2" {
			size = 1025 + r.Intn(40)
			if cfg.proc == 4 {
				size = 512
			}
		}
		if round >= 20 && round < large {
			size = []int{2049, 4097}[round-20] + r.Intn(60)
		}
		g := orc.Batches[round%6]
		if round >= 18 {
			g = orc.Batches[r.Intn(6)]
		}
		ni := 1
		if round >= 12 && r.Intn(3) == 0 && size <= 33 {
			ni = 2 + r.Intn(3)
		}
		procs := cfg.proc
		if (cfg.proc == 4 || cfg.proc == 3) && round >= 6 { // the number changes while the process lives
			procs = []int{1, 2, 3, 4, 7, 8, 12, 16, 24, 48, 100}[r.Intn(11)]
			runtime.GOMAXPROCS(procs)
			c.Count("batches_after_the_number_of_processors_changed", 1)
		}
		// ni batches run at the same time
		type job struct {
			g   orc.Batch
			in  [][2]*gates.Ciphertext
			v   []bool
			vs  [][2]bool
			out []*gates.Ciphertext
		}
		jobs := make([]job, ni)
		for j := range jobs {
			jg, js := g, size
			if j > 0 {
				jg, js = orc.Batches[r.Intn(6)], r.Intn(size+2)
			}
			jobs[j] = m.mk(r, jg, js, pool)
		}
		hin := hashIn(pool)
		name := fmt.Sprintf("%s of %d items, profile=%s processors=%d overlapping=%d round=%d", g.Name, size, p.Name, procs, ni, round)
		c.Guard(name, func() {
			if ni == 1 {
				jobs[0].out = jobs[0].g.F(jobs[0].in, m.k.CK)
				return
			}
			var wg sync.WaitGroup
			for j := range jobs {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					jobs[j].out = jobs[j].g.F(jobs[j].in, m.k.CK)
				}(j)
			}
			wg.Wait()
		})
		store := map[*T]string{}
		for _, o := range old {
			store[&o.ct.P[0]] = o.name
		}
		for _, x := range pool {
			store[&x.ct.P[0]] = "an input"
		}
		for j, jb := range jobs {
			if len(jb.out) != len(jb.in) {
				c.Fail(name, "batch %d returned %d results for %d pairs", j, len(jb.out), len(jb.in))
			}
			content := map[uint64]uint64{}
			for i, ct := range jb.out {
				iname := fmt.Sprintf("%s batch %d (%s) item %d", name, j, jb.g.Name, i)
				if ct == nil || len(ct.P) != len(m.k.SK.KeyLv0)+1 {
					c.Fail(iname, "not a ciphertext of this profile")
				}
				if w, dup := store[&ct.P[0]]; dup {
					c.Fail(iname, "shares its storage with %s", w)
				}
				store[&ct.P[0]] = iname
				e := orc.Err(orc.Phase0(ct, m.k.SK.KeyLv0), orc.BoolMu(jb.v[i]))
				if got := ct.DecryptBool(m.k.SK.KeyLv0); got != jb.v[i] {
					c.Fail(iname, "%v on %v decrypts to %v (phase error %g)", jb.g.Name, jb.vs[i], got, e)
				}
				if math.Abs(e) > 9*p.Sig {
					c.Fail(iname, "phase error %g, bound %g", e, 9*p.Sig)
				}
				// pairs of different masks never give the same ciphertext
				n := len(ct.P) - 1
				pair := orc.HashT(jb.in[i][0].P[:n]) + orc.HashT(jb.in[i][1].P[:n])
				if h := orc.HashT(ct.P); !trivial(ct) {
					if q, dup := content[h]; dup && q != pair {
						c.Fail(iname, "gives the same ciphertext as another pair of the batch")
					}
					content[h] = pair
				}
				c.NoiseOnce("output "+p.Name, orc.HashT(ct.P), e)
				c.Seen("%s|%d|%s|%d|%d|%v|%d", p.Name, procs, jb.g.Name, len(jb.in), i, jb.vs[i], ni)
				if round < 18 || round > 19 {
					used++
				}
			}
			c.Count("batches_"+jb.g.Name, 1)
		}
		if ni > 1 {
			c.Count("overlapping_groups", 1)
		}
		if hashIn(pool) != hin {
			c.Fail(name, "an input ciphertext changed")
		}
		for _, o := range old {
			if orc.HashT(o.ct.P) != o.h {
				c.Fail(name, "a result of an earlier batch changed: %s", o.name)
			}
		}
		for _, jb := range jobs {
			for i, ct := range jb.out {
				if len(old) < 150 {
					old = append(old, kept{ct, orc.HashT(ct.P), name})
				} else {
					old[r.Intn(len(old))] = kept{ct, orc.HashT(ct.P), name}
				}
				if i%3 == 0 { // results become inputs of later batches
					pool[2+r.Intn(len(pool)-2)] = in{ct, jb.v[i]}
				}
			}
		}
		used++
	}
	close(stop)
	gcwg.Wait()
	orc.JudgeNoise(c, "profile="+p.Name, "output "+p.Name, p)
}

// trivial: a mask of zeros, as of a gate on two constants
func trivial(ct *gates.Ciphertext) bool {
	for _, a := range ct.P[:len(ct.P)-1] {
		if a != 0 {
			return false
		}
	}
	return true
}

func hashIn(p []in) uint64 {
	var h uint64
	for _, x := range p {
		h = h*1099511628211 + orc.HashT(x.ct.P)
	}
	return h
}

func (m *mon) mk(r *rand.Rand, g orc.Batch, size int, pool []in) (jb struct {
	g   orc.Batch
	in  [][2]*gates.Ciphertext
	v   []bool
	vs  [][2]bool
	out []*gates.Ciphertext
}) {
	jb.g = g
	jb.in = make([][2]*gates.Ciphertext, size)
	mode := r.Intn(4)
	one := pool[r.Intn(len(pool))]
	for i := range jb.in {
		a, b := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
		switch {
		case mode == 1: // one ciphertext shared by all pairs
			a = one
		case mode == 2 && i%2 == 1: // the same ciphertext twice
			b = a
		case mode == 3 && i > 0: // the same pair again
			k := r.Intn(i)
			jb.in[i] = jb.in[k]
			jb.vs = append(jb.vs, jb.vs[k])
			jb.v = append(jb.v, jb.v[k])
			continue
		case i < 4: // all four value pairs first
			for t := 0; t < 50 && (a.v != (i&1 != 0) || b.v != (i&2 != 0)); t++ {
				a, b = pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			}
		}
		jb.in[i] = [2]*gates.Ciphertext{a.ct, b.ct}
		jb.vs = append(jb.vs, [2]bool{a.v, b.v})
		jb.v = append(jb.v, g.T(a.v, b.v))
	}
	return
}
