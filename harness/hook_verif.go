//go:build verif

package main

import (
	"errors"
	"runtime"

	"github.com/glycerine/zygomys/v9/zygo"
)

const hookAvailable = true

var framePCs [20000]uintptr

var errBudget = errors.New("zmon: step budget exhausted")

// stepMon is what the step hook observes during a guarded call.
var stepMon struct {
	steps, budget                       int64
	maxData, maxScope, maxAddr, maxLoop int
	sample                              bool
	frames, maxFrames                   int // Go frames, looked at every frames-th step
	exhausted                           bool
}

func init() {
	zygo.VerifStepHook = func(env *zygo.Zlisp) error {
		stepMon.steps++
		if stepMon.sample {
			d, s, a, l := env.VerifDepths()
			if d > stepMon.maxData {
				stepMon.maxData = d
			}
			if s > stepMon.maxScope {
				stepMon.maxScope = s
			}
			if a > stepMon.maxAddr {
				stepMon.maxAddr = a
			}
			if l > stepMon.maxLoop {
				stepMon.maxLoop = l
			}
		}
		if stepMon.frames > 0 && stepMon.steps%int64(stepMon.frames) == 0 {
			if n := runtime.Callers(0, framePCs[:]); n > stepMon.maxFrames {
				stepMon.maxFrames = n
			}
		}
		if stepMon.budget > 0 && stepMon.steps > stepMon.budget {
			stepMon.exhausted = true
			return errBudget
		}
		return nil
	}
}

func vmDepths(env *zygo.Zlisp) (d, s, a, l int, ok bool) {
	d, s, a, l = env.VerifDepths()
	return d, s, a, l, true
}

func vmCodeSize(env *zygo.Zlisp) (int, bool) { return env.VerifCodeSize(), true }
