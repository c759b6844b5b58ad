package main

// Trusted models of library functions.

import (
	"go/constant"
	"go/token"

	"strconv"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome

var models map[string]modelFn

func constStr(c *ssa.Const) string { return constant.StringVal(c.Value) }

func init() {
	models = map[string]modelFn{
		"fmt.Errorf": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.newErr(st, "errorf"))
		},
		"errors.New": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.newErr(st, "errnew"))
		},
		"math.Round": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return ret1(st, ex.fltRound(st, args[0].(*Term)))
		},
		"(*sync.Pool).Put": func(ex *Exec, fr *Frame, st *State, c *ssa.CallCommon, args []Value, pos token.Pos) []outcome {
			return []outcome{{st: st}}
		},
	}
}

func freshName(ex *Exec, hint string) string {
	ex.fresh++
	return "v" + strconv.Itoa(ex.fresh) + "!" + hint
}
