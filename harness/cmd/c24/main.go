// C24: integers survive conversion to bits and encrypted bits.
package main

import (
	"fmt"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"

	"verif/orc"
	"verif/vk"
)

func main() {
	vk.Main(vk.Spec{
		Prop:     "C24",
		Rule:     "one evaluation = one integer converted to bits and back, one bit list converted, or one list of bits encrypted and decrypted; the signature is (width, value) or (profile, key, list)",
		Shards:   func(string) int { return 8 },
		MinEvals: 100000,
		Run:      run,
	})
}

func bitsOf(c *vk.C, name string, v uint64, got []bool, size int) {
	if len(got) != size {
		c.Fail(name, "%d gives %d bits, want %d", v, len(got), size)
	}
	for i, b := range got {
		want := i < 64 && v>>uint(i)&1 == 1
		if b != want {
			c.Fail(name, "bit %d of %#x is %v", i, v, b)
		}
	}
}

func value(bits []bool) uint64 { // modulo 2^64
	var v uint64
	for i, b := range bits {
		if b && i < 64 {
			v |= 1 << uint(i)
		}
	}
	return v
}

func lists(c *vk.C, bits []bool) {
	v := value(bits)
	keep := append([]bool(nil), bits...)
	if g := bitutils.ConvertU8(bits); g != uint8(v) {
		c.Fail("ConvertU8", "%d bits of %#x give %#x", len(bits), v, g)
	}
	if g := bitutils.ConvertU16(bits); g != uint16(v) {
		c.Fail("ConvertU16", "%d bits of %#x give %#x", len(bits), v, g)
	}
	if g := bitutils.ConvertU32(bits); g != uint32(v) {
		c.Fail("ConvertU32", "%d bits of %#x give %#x", len(bits), v, g)
	}
	if g := bitutils.ConvertU64(bits); g != v {
		c.Fail("ConvertU64", "%d bits of %#x give %#x", len(bits), v, g)
	}
	for i := range keep {
		if keep[i] != bits[i] {
			c.Fail("Convert", "the bit list changed at %d", i)
		}
	}
	c.Seen("list|%d|%x", len(bits), v)
}

func run(c *vk.C) {
	r := c.Rand("bits")
	if c.Mine(0) {
		for v := 0; v < 256; v++ {
			b := bitutils.U8ToBits(uint8(v))
			bitsOf(c, "U8ToBits", uint64(v), b, 8)
			if g := bitutils.ConvertU8(b); g != uint8(v) {
				c.Fail("ConvertU8", "%d came back as %d", v, g)
			}
			c.Seen("u8|%d", v)
		}
		for v := 0; v < 65536; v++ {
			b := bitutils.U16ToBits(uint16(v))
			bitsOf(c, "U16ToBits", uint64(v), b, 16)
			if g := bitutils.ConvertU16(b); g != uint16(v) {
				c.Fail("ConvertU16", "%d came back as %d", v, g)
			}
			c.Seen("u16|%d", v)
		}
		c.Sample("all 8-bit and 16-bit values")
	}
	special := []uint64{0, 1, 1<<63 - 1, 1 << 63, ^uint64(0), 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1<<32 - 1, 1 << 32, 1<<31 - 1, 1 << 31}
	for i := 0; i < 64; i++ {
		special = append(special, 1<<uint(i), 1<<uint(i)-1, ^(uint64(1) << uint(i)))
	}
	for i := 0; i < c.Pick(40000, 1000000); i++ {
		v := r.Uint64()
		if i < len(special) {
			v = special[i]
		}
		b := bitutils.U32ToBits(uint32(v))
		bitsOf(c, "U32ToBits", v&0xffffffff, b, 32)
		if g := bitutils.ConvertU32(b); g != uint32(v) {
			c.Fail("ConvertU32", "%#x came back as %#x", uint32(v), g)
		}
		b = bitutils.U64ToBits(v)
		bitsOf(c, "U64ToBits", v, b, 64)
		if g := bitutils.ConvertU64(b); g != v {
			c.Fail("ConvertU64", "%#x came back as %#x", v, g)
		}
		size := r.Intn(80)
		b = bitutils.ToBits(v, size)
		bitsOf(c, fmt.Sprintf("ToBits(size %d)", size), v, b, size)
		lists(c, b)
		l := make([]bool, r.Intn(90))
		for j := range l {
			l[j] = r.Intn(2) == 0
		}
		lists(c, l)
		c.Seen("u64|%x", v)
	}
	lists(c, nil)
	lists(c, []bool{})
	for pi, p := range orc.Profiles {
		if !c.Mine(pi) {
			continue
		}
		p.Use()
		for k := 0; k < c.Pick(3, 20); k++ {
			sk := key.NewSecretKey()
			hk := orc.HashT(sk.KeyLv0)
			enc(c, p, sk, c.Rand("enc %s %d", p.Name, k))
			if orc.HashT(sk.KeyLv0) != hk {
				c.Fail("profile="+p.Name, "the key changed")
			}
		}
	}
}

func enc(c *vk.C, p orc.Profile, sk *key.SecretKey, r *rand.Rand) {
	alpha := params.GetTLWELv0().ALPHA
	for i := 0; i < 42; i++ {
		v := r.Uint64()
		size := []int{0, 1, 2, 7, 8, 16, 32, 64, 65, 100, 127, 129, 256, 300}[i%14]
		bits := bitutils.ToBits(v, size)
		for j := range bits { // lists wider than any integer
			if j >= 64 || i >= 28 {
				bits[j] = r.Intn(2) == 1 || i == 36
			}
		}
		cts := bitutils.EncryptBits(bits, alpha, sk.KeyLv0)
		name := fmt.Sprintf("profile=%s %d bits of %#x", p.Name, size, v)
		if len(cts) != size {
			c.Fail(name, "%d ciphertexts", len(cts))
		}
		for j, ct := range cts {
			if d := orc.Dist(orc.Phase0(ct, sk.KeyLv0), orc.BoolMu(bits[j])); float64(d) > 9*alpha*4294967296+2 {
				c.Fail(name, "ciphertext %d does not encrypt bit %v", j, bits[j])
			}
			for q := 0; q < j; q++ {
				if cts[q] == ct || &cts[q].P[0] == &ct.P[0] || (cts[q].P[0] == ct.P[0] && cts[q].P[1] == ct.P[1] && cts[q].P[2] == ct.P[2]) {
					c.Fail(name, "ciphertexts %d and %d share their storage or mask", q, j)
				}
			}
		}
		dec := bitutils.DecryptBits(cts, sk.KeyLv0)
		if len(dec) != size {
			c.Fail(name, "%d decrypted bits", len(dec))
		}
		for j := range dec {
			if dec[j] != bits[j] {
				c.Fail(name, "bit %d came back as %v", j, dec[j])
			}
		}
		c.Seen("enc|%s|%d|%x", p.Name, size, v)
		c.Count("encrypted_bits", int64(size))
	}
}
