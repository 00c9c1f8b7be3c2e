package main

import "math/big"

func bigI(v int64) *big.Int { return big.NewInt(v) }

func bigFromString(s string) (*Term, bool) {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		return zero, false
	}
	return IConst(v), true
}
