//go:build !verif

package main

import (
	"errors"

	"github.com/glycerine/zygomys/v9/zygo"
)

const hookAvailable = false

var errBudget = errors.New("zmon: step budget exhausted")

var stepMon struct {
	steps, budget                       int64
	maxData, maxScope, maxAddr, maxLoop int
	sample                              bool
	frames, maxFrames                   int
	exhausted                           bool
}

func vmDepths(env *zygo.Zlisp) (d, s, a, l int, ok bool) { return 0, 0, 0, 0, false }

func vmCodeSize(env *zygo.Zlisp) (int, bool) { return 0, false }
