// C28: homomorphic integer arithmetic matches integer arithmetic.
package main

import (
	"fmt"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus
type CT = gates.Ciphertext

func main() {
	vk.Main(vk.Spec{
		Prop: "C28",
		Rule: "one evaluation = one homomorphic integer operation (addition, subtraction, comparison, selection, product, digit addition) decrypted and compared with integer arithmetic; the signature is (profile, operation, circuit, width, operands)",
		Assumptions: []string{
			"digit arithmetic is judged where the rounding of the bootstrap's input, computed exactly from the secret key, stays inside the message's slot; the parameters make anything else a one in a hundred thousand event, and the others are counted",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 100,
		Run:      run,
	})
}

func run(c *vk.C) {
	budget := c.Pick(720, 26000) // bootstraps per process, at N=1024
	switch c.Shard {
	case 0:
		boolean(c, "128", budget)
	case 1:
		boolean(c, "80", budget)
	case 2:
		boolean(c, "110", budget/2)
		boolean(c, "uint1", budget/2)
	case 3:
		boolean(c, "uint3", budget/2)
		boolean(c, "uint2", budget/2)
	case 4, 5:
		digits(c, "uint5", budget/4)
	case 6:
		digits(c, "uint4", budget/4)
		boolean(c, "uint5", budget/12)
	case 7:
		digits(c, "uint3", budget/3)
		digits(c, "uint2", budget/3)
		boolean(c, "uint4", budget/12)
	}
}

// word is an encrypted integer with what it should hold.
type word struct {
	b []*CT
	v uint64
}

type alu struct {
	c    *vk.C
	k    *orc.Keys
	r    *rand.Rand
	used int
}

func (m *alu) xor(x, y *CT) *CT   { m.used++; return gates.XOR(x, y, m.k.CK) }
func (m *alu) and(x, y *CT) *CT   { m.used++; return gates.AND(x, y, m.k.CK) }
func (m *alu) or(x, y *CT) *CT    { m.used++; return gates.OR(x, y, m.k.CK) }
func (m *alu) nand(x, y *CT) *CT  { m.used++; return gates.NAND(x, y, m.k.CK) }
func (m *alu) nor(x, y *CT) *CT   { m.used++; return gates.NOR(x, y, m.k.CK) }
func (m *alu) xnor(x, y *CT) *CT  { m.used++; return gates.XNOR(x, y, m.k.CK) }
func (m *alu) andny(x, y *CT) *CT { m.used++; return gates.ANDNY(x, y, m.k.CK) }
func (m *alu) andyn(x, y *CT) *CT { m.used++; return gates.ANDYN(x, y, m.k.CK) }
func (m *alu) orny(x, y *CT) *CT  { m.used++; return gates.ORNY(x, y, m.k.CK) }
func (m *alu) oryn(x, y *CT) *CT  { m.used++; return gates.ORYN(x, y, m.k.CK) }
func (m *alu) mux(s, x, y *CT) *CT {
	m.used += 3
	return gates.MUX(s, x, y, m.k.CK)
}
func (m *alu) batch(f int, in [][2]*CT) []*CT {
	m.used += len(in)
	return orc.Batches[f].F(in, m.k.CK)
}

// full adders, all equivalent
var adders = []string{"textbook", "mux", "nand", "negated", "majority"}

func (m *alu) full(kind string, x, y, ci *CT) (s, co *CT) {
	switch kind {
	case "mux":
		h := m.xor(x, y)
		return m.xor(h, ci), m.mux(h, ci, x)
	case "nand":
		n1 := m.nand(x, y)
		h := m.nand(m.nand(x, n1), m.nand(y, n1))
		n2 := m.nand(h, ci)
		return m.nand(m.nand(h, n2), m.nand(ci, n2)), m.nand(n1, n2)
	case "negated": // on negated halves: all gates with one negated input
		h := m.xnor(x, y)
		s = m.xnor(h, ci)
		// carry = x and y, or ci and not h
		return s, m.oryn(m.andny(h, ci), m.orny(x, gates.NOT(y)))
	case "majority":
		h := m.xor(x, y)
		return m.xor(ci, h), m.or(m.and(x, y), m.and(ci, m.or(x, y)))
	default:
		h := m.xor(x, y)
		return m.xor(h, ci), m.or(m.and(x, y), m.and(h, ci))
	}
}

func (m *alu) add(kind string, x, y []*CT, ci *CT) ([]*CT, *CT) {
	out := make([]*CT, len(x))
	for i := range x {
		out[i], ci = m.full(kind, x[i], y[i], ci)
	}
	return out, ci
}

func mask(w int) uint64 { return 1<<uint(w) - 1 }

func (m *alu) operand(w int) uint64 {
	switch m.r.Intn(6) {
	case 0:
		return mask(w)
	case 1:
		return uint64(m.r.Intn(2))
	case 2:
		return 0xaaaaaaaaaaaaaaaa & mask(w)
	case 3:
		return 1 << uint(m.r.Intn(w))
	default:
		return m.r.Uint64() & mask(w)
	}
}

func (m *alu) encrypt(v uint64, w int) word {
	a := params.GetTLWELv0().ALPHA
	return word{bitutils.EncryptBits(bitutils.ToBits(v, w), a, m.k.SK.KeyLv0), v}
}

func (m *alu) read(b []*CT) uint64 {
	bits := bitutils.DecryptBits(b, m.k.SK.KeyLv0)
	if len(b) <= 8 {
		return uint64(bitutils.ConvertU8(bits))
	}
	return bitutils.ConvertU64(bits)
}

func (m *alu) check(op, circuit string, w int, got []*CT, want uint64, args ...uint64) {
	g := m.read(got)
	if g != want {
		m.c.Fail(fmt.Sprintf("%s of %d-bit integers by %s, profile %s", op, w, circuit, m.k.P.Name), "operands %v: got %d, want %d", args, g, want)
	}
	m.c.Count("op: "+op, 1)
	m.c.Seen("%s|%s|%s|%d|%v", m.k.P.Name, op, circuit, w, args)
}

func boolean(c *vk.C, profile string, budget int) {
	k := orc.KeysFor(orc.ByName(profile))
	m := &alu{c: c, k: k, r: c.Rand("bool %s", profile)}
	// registers that keep the results of earlier operations
	widths := []int{3, 4, 5, 8, 4, 6}
	if !c.Quick() {
		widths = []int{3, 4, 5, 8, 6, 16, 32, 8}
	}
	w := widths[m.r.Intn(len(widths))]
	regs := []word{m.encrypt(m.operand(w), w), m.encrypt(m.operand(w), w), m.encrypt(m.operand(w), w)}
	constant := func(v uint64) []*CT {
		o := make([]*CT, w)
		for i := range o {
			o[i] = gates.Constant(v>>uint(i)&1 == 1)
		}
		return o
	}
	depth := 0
	for step := 0; m.used < budget; step++ {
		if step%7 == 6 { // another width, fresh registers
			w = widths[m.r.Intn(len(widths))]
			regs = []word{m.encrypt(m.operand(w), w), m.encrypt(m.operand(w), w), m.encrypt(m.operand(w), w)}
			depth = 0
		}
		i, j, d := m.r.Intn(3), m.r.Intn(3), m.r.Intn(3)
		x, y := regs[i], regs[j]
		kind := adders[m.r.Intn(len(adders))]
		var res word
		switch m.r.Intn(9) {
		case 0: // addition with carry
			ci := m.r.Intn(2) == 1
			s, co := m.add(kind, x.b, y.b, gates.Constant(ci))
			t := x.v + y.v
			if ci {
				t++
			}
			m.check("addition", kind, w, s, t&mask(w), x.v, y.v)
			m.check("carry", kind, w, []*CT{co}, t>>uint(w)&1, x.v, y.v)
			res = word{s, t & mask(w)}
		case 1: // subtraction
			n := make([]*CT, w)
			for q := range n {
				n[q] = gates.NOT(y.b[q])
			}
			s, co := m.add(kind, x.b, n, gates.Constant(true))
			m.check("subtraction", kind, w, s, (x.v-y.v)&mask(w), x.v, y.v)
			no := uint64(0)
			if x.v >= y.v {
				no = 1
			}
			m.check("no borrow", kind, w, []*CT{co}, no, x.v, y.v)
			res = word{s, (x.v - y.v) & mask(w)}
		case 2: // addition of a constant
			v := m.operand(w)
			s, _ := m.add(kind, x.b, constant(v), gates.Constant(false))
			m.check("constant addition", kind, w, s, (x.v+v)&mask(w), x.v, v)
			res = word{s, (x.v + v) & mask(w)}
		case 3: // comparison and selection of the larger
			lt := gates.Constant(false)
			for q := 0; q < w; q++ { // x < y
				eq := m.xnor(x.b[q], y.b[q])
				lt = m.mux(eq, lt, y.b[q])
			}
			cmp := uint64(0)
			if x.v < y.v {
				cmp = 1
			}
			m.check("comparison", "mux chain", w, []*CT{lt}, cmp, x.v, y.v)
			s := make([]*CT, w)
			for q := range s {
				if q%2 == 0 {
					s[q] = m.mux(lt, y.b[q], x.b[q])
				} else {
					s[q] = m.or(m.and(lt, y.b[q]), m.andny(lt, x.b[q]))
				}
			}
			m.check("maximum", "selection", w, s, max(x.v, y.v), x.v, y.v)
			res = word{s, max(x.v, y.v)}
		case 4: // equality through a tree of batch gates
			in := make([][2]*CT, w)
			for q := range in {
				in[q] = [2]*CT{x.b[q], y.b[q]}
			}
			t := m.batch(5, in) // XNOR
			for len(t) > 1 {
				var nx [][2]*CT
				for q := 0; q+1 < len(t); q += 2 {
					nx = append(nx, [2]*CT{t[q], t[q+1]})
				}
				u := m.batch(1, nx) // AND
				if len(t)%2 == 1 {
					u = append(u, t[len(t)-1])
				}
				t = u
			}
			eq := uint64(0)
			if x.v == y.v {
				eq = 1
			}
			m.check("equality", "batch tree", w, t, eq, x.v, y.v)
			continue
		case 5: // bitwise operations by batch
			f := m.r.Intn(len(orc.Batches))
			in := make([][2]*CT, w)
			for q := range in {
				in[q] = [2]*CT{x.b[q], y.b[q]}
			}
			s := m.batch(f, in)
			var v uint64
			for q := 0; q < w; q++ {
				if orc.Batches[f].T(x.v>>uint(q)&1 == 1, y.v>>uint(q)&1 == 1) {
					v |= 1 << uint(q)
				}
			}
			m.check("bitwise", orc.Batches[f].Name, w, s, v, x.v, y.v)
			res = word{s, v}
		case 6: // carry-save sum of three words: batches, then a ripple
			z := regs[3-1-d%3]
			a, b := make([][2]*CT, w), make([][2]*CT, w)
			for q := range a {
				a[q] = [2]*CT{x.b[q], y.b[q]}
			}
			h := m.batch(3, a)  // XOR
			xy := m.batch(1, a) // AND
			for q := range b {
				b[q] = [2]*CT{h[q], z.b[q]}
			}
			s := m.batch(3, b)
			hz := m.batch(1, b)
			cs := make([][2]*CT, w)
			for q := range cs {
				cs[q] = [2]*CT{xy[q], hz[q]}
			}
			cc := m.batch(2, cs) // OR
			sh := append([]*CT{gates.Constant(false)}, cc[:w-1]...)
			sum, _ := m.add(kind, s, sh, gates.Constant(false))
			v := (x.v + y.v + z.v) & mask(w)
			m.check("sum of three", "carry save, "+kind, w, sum, v, x.v, y.v, z.v)
			res = word{sum, v}
		case 7: // small product
			if w > 8 {
				continue
			}
			h := min(w, 4)
			acc := constant(0)
			for q := 0; q < h; q++ {
				row := constant(0)
				for p := 0; p+q < w; p++ {
					row[p+q] = m.and(x.b[p], y.b[q])
				}
				acc, _ = m.add(kind, acc, row, gates.Constant(false))
			}
			v := x.v * (y.v & mask(h)) & mask(w)
			m.check("product", kind, w, acc, v, x.v, y.v)
			res = word{acc, v}
		default: // zero test and negation
			z := x.b[0]
			for q := 1; q < w; q++ {
				z = m.or(z, x.b[q])
			}
			zt := m.nor(z, z)
			iz := uint64(0)
			if x.v == 0 {
				iz = 1
			}
			m.check("zero test", "or chain", w, []*CT{zt}, iz, x.v)
			one := constant(1)
			n := make([]*CT, w)
			for q := range n {
				n[q] = m.nand(x.b[q], x.b[q])
			}
			s, _ := m.add(kind, n, one, gates.Constant(false))
			m.check("negation", kind, w, s, -x.v&mask(w), x.v)
			res = word{s, -x.v & mask(w)}
		}
		depth++
		regs[d] = res
		c.Count("chained_results", 1)
	}
	c.Count("bootstraps", int64(m.used))
	// the registers are intact
	for i, x := range regs {
		m.check("register", fmt.Sprint(i), len(x.b), x.b, x.v)
	}
}

// digits: radix arithmetic with ciphertext additions and programmable
// bootstraps, the construction of the library's nibble adder.
func digits(c *vk.C, profile string, budget int) {
	p := orc.ByName(profile)
	k := orc.KeysFor(p)
	r := c.Rand("digits %s", profile)
	M := p.M
	B := M / 2 // digit base
	n := params.GetTRGSWLv1().N
	ev := evaluator.NewEvaluator(n)
	gen := lut.NewGenerator(M)
	low := gen.GenLookUpTable(func(x int) int { return x % B })
	carry := gen.GenLookUpTable(func(x int) int { return x / B })
	sk := k.SK.KeyLv0
	alpha := params.GetTLWELv0().ALPHA
	type num struct {
		d []*CT
		v uint64
	}
	enc := func(v uint64, w int) num {
		o := num{v: v}
		for i := 0; i < w; i++ {
			o.d = append(o.d, tlwe.NewTLWELv0().EncryptLWEMessage(int(v%uint64(B)), M, alpha, sk))
			v /= uint64(B)
		}
		return o
	}
	used, skipped, total := 0, 0, 0
	ok := true // false when the parameters themselves make a digit unreadable
	// apply bootstraps the sum x, which should hold the message v
	apply := func(what string, x *CT, v int, f func(*CT) *CT, g func(int) int) *CT {
		total++
		if e := orc.Err(orc.Phase0(x, sk), orc.MsgMu(v, M)); e > 14*p.Sig+8*alpha || e < -14*p.Sig-8*alpha {
			c.Fail(fmt.Sprintf("input of %s, profile %s", what, profile), "the sum is off by %g of the torus", e)
		}
		idx := orc.RotPhase(x, sk, n)
		slot := 2 * n / (2 * M)
		d := idx - v*slot
		if d > n {
			d -= 2 * n
		}
		if 2*d >= slot || 2*d < -slot {
			skipped++
			ok = false
			return x
		}
		used++
		o := f(x)
		if got, want := o.DecryptLWEMessage(M, sk), g(v); got != want {
			c.Fail(fmt.Sprintf("%s, profile %s, modulus %d", what, profile, M), "message %d: got %d, want %d", v, got, want)
		}
		e := orc.Err(orc.Phase0(o, sk), orc.MsgMu(g(v), M))
		c.Noise("digit "+profile, e)
		if e > 8*p.Sig || e < -8*p.Sig {
			c.Fail(fmt.Sprintf("%s, profile %s", what, profile), "the result is off by %g of the torus, bound %g", e, 8*p.Sig)
		}
		return o
	}
	tab := func(t *lut.LookUpTable) func(*CT) *CT {
		return func(x *CT) *CT {
			return ev.BootstrapLUT(x, t, k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset)
		}
	}
	fun := func(f func(int) int) func(*CT) *CT {
		return func(x *CT) *CT {
			return ev.BootstrapFunc(x, f, M, k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset)
		}
	}
	val := func(d []*CT) uint64 {
		var v uint64
		for i := len(d) - 1; i >= 0; i-- {
			v = v*uint64(B) + uint64(d[i].DecryptLWEMessage(M, sk))
		}
		return v
	}
	pow := func(w int) uint64 {
		v := uint64(1)
		for i := 0; i < w; i++ {
			v *= uint64(B)
		}
		return v
	}
	for round := 0; used < budget; round++ {
		w := 2 + r.Intn(4)
		lim := pow(w)
		pick := func() uint64 {
			switch r.Intn(4) {
			case 0:
				return lim - 1
			case 1:
				return uint64(r.Intn(2))
			}
			return r.Uint64() % lim
		}
		acc := enc(pick(), w)
		for step := 0; step < 6 && used < budget; step++ {
			x := enc(pick(), w)
			ok = true
			xd := func(i int) int { return int(x.v / pow(i) % uint64(B)) }
			ad := func(i int) int { return int(acc.v / pow(i) % uint64(B)) }
			op := r.Intn(3)
			out := make([]*CT, w)
			var cy *CT
			cv := 0
			var want uint64
			switch op {
			case 0: // addition
				want = (acc.v + x.v) % lim
				for i := 0; i < w && ok; i++ {
					t := acc.d[i].Add(x.d[i])
					v := ad(i) + xd(i)
					if cy != nil {
						t.AddAssign(cy, t)
						v += cv
					}
					out[i] = apply("sum digit", t, v, tab(low), func(x int) int { return x % B })
					if i+1 < w && ok {
						cy = apply("carry", t, v, tab(carry), func(x int) int { return x / B })
						cv = v / B
					}
				}
			case 1: // subtraction: add the complement of every digit
				want = (acc.v - x.v%lim + lim) % lim
				cv = 1
				for i := 0; i < w && ok; i++ {
					comp := func(x int) int { return (B - 1 - x%B + B) % B }
					nd := apply("complement", x.d[i], xd(i), fun(comp), comp)
					if !ok {
						break
					}
					t := acc.d[i].Add(nd)
					v := ad(i) + B - 1 - xd(i)
					if cy != nil {
						t.AddAssign(cy, t)
					} else {
						t.SetB(t.B() + orc.MsgMu(1, M))
					}
					v += cv
					out[i] = apply("difference digit", t, v, tab(low), func(x int) int { return x % B })
					if i+1 < w && ok {
						cy = apply("no borrow", t, v, tab(carry), func(x int) int { return x / B })
						cv = v / B
					}
				}
			case 2: // digit-wise function of the accumulator
				a, b := 1+r.Intn(B), r.Intn(B)
				f := func(x int) int { return (a*x + b) % B }
				for i := w - 1; i >= 0; i-- {
					want = want*uint64(B) + uint64(f(ad(i)))
				}
				for i := 0; i < w && ok; i++ {
					out[i] = apply("digit function", acc.d[i], ad(i), fun(f), f)
				}
			}
			if !ok {
				acc = enc(acc.v, w)
				continue
			}
			if got := val(out); got != want {
				c.Fail(fmt.Sprintf("radix-%d arithmetic, profile %s, operation %d", B, profile, op), "%d digits, operands %d and %d: got %d, want %d", w, acc.v, x.v, got, want)
			}
			c.Count(fmt.Sprintf("digit op: %s", []string{"addition", "subtraction", "function"}[op]), 1)
			c.Count("chained_results", 1)
			c.Seen("%s|digit|%d|%d|%d|%d", profile, op, w, acc.v, x.v)
			acc = num{out, want}
		}
	}
	c.Count("bootstraps", int64(used))
	c.Count("unreadable_after_rounding "+profile, int64(skipped))
	if skipped > 3+total/500 {
		c.Fail("readable digits, profile "+profile, "%d of %d sums fall outside their slot after rounding", skipped, total)
	}
}
