package main

import (
	"go/constant"
	"go/token"
)

const (
	eqTok = token.EQL
	ltTok = token.LSS
)

func sameKind(a, b constant.Value) bool {
	num := func(k constant.Kind) bool { return k == constant.Int || k == constant.Float }
	return a.Kind() == b.Kind() || (num(a.Kind()) && num(b.Kind()))
}
