package orc

import (
	"math"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
)

// Gate2 is a two-input gate with its truth table.
type Gate2 struct {
	Name string
	F    func(a, b *gates.Ciphertext, ck *cloudkey.CloudKey) *gates.Ciphertext
	T    func(a, b bool) bool
}

// Gates2 lists every bootstrapped two-input gate.
var Gates2 = []Gate2{
	{"NAND", gates.NAND, func(a, b bool) bool { return !(a && b) }},
	{"OR", gates.OR, func(a, b bool) bool { return a || b }},
	{"AND", gates.AND, func(a, b bool) bool { return a && b }},
	{"XOR", gates.XOR, func(a, b bool) bool { return a != b }},
	{"XNOR", gates.XNOR, func(a, b bool) bool { return a == b }},
	{"NOR", gates.NOR, func(a, b bool) bool { return !(a || b) }},
	{"ANDNY", gates.ANDNY, func(a, b bool) bool { return !a && b }},
	{"ANDYN", gates.ANDYN, func(a, b bool) bool { return a && !b }},
	{"ORNY", gates.ORNY, func(a, b bool) bool { return !a || b }},
	{"ORYN", gates.ORYN, func(a, b bool) bool { return a || !b }},
}

// Batch is a batch gate with its truth table.
type Batch struct {
	Name string
	F    func(in [][2]*gates.Ciphertext, ck *cloudkey.CloudKey) []*gates.Ciphertext
	T    func(a, b bool) bool
}

// Batches lists every batch gate.
var Batches = []Batch{
	{"BatchNAND", gates.BatchNAND, func(a, b bool) bool { return !(a && b) }},
	{"BatchAND", gates.BatchAND, func(a, b bool) bool { return a && b }},
	{"BatchOR", gates.BatchOR, func(a, b bool) bool { return a || b }},
	{"BatchXOR", gates.BatchXOR, func(a, b bool) bool { return a != b }},
	{"BatchNOR", gates.BatchNOR, func(a, b bool) bool { return !(a || b) }},
	{"BatchXNOR", gates.BatchXNOR, func(a, b bool) bool { return a == b }},
}

// SwitchSD is the standard deviation of the mod-switch error at the selected
// profile (half of the key bits set).
func SwitchSD() float64 {
	n0, n := params.GetTLWELv0().N, params.GetTRGSWLv1().N
	return math.Sqrt((float64(n0)/2+1)/12) / float64(2*n)
}
