package main

import "golang.org/x/tools/go/ssa"

type ssaValue = ssa.Value
type ssaBlock = ssa.BasicBlock

func phiEdge(in ssa.Instruction, i int) ssa.Value { return in.(*ssa.Phi).Edges[i] }
