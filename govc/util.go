package main

import "math/big"

type bigInt = big.Int

func newBig(bits int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(bits)) }
