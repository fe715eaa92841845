package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"sync"
)

// VP_FORKS=1 counts where paths fork.
var forkProf = os.Getenv("VP_FORKS") != ""
var forkMu sync.Mutex
var forkAt = map[string]int{}

func (f *Frame) pos() token.Pos {
	if f.idx < len(f.block.Instrs) {
		for i := f.idx; i >= 0; i-- {
			if p := f.block.Instrs[i].Pos(); p != token.NoPos {
				return p
			}
		}
	}
	return f.fn.Pos()
}

func printForks() {
	var ks []string
	for k := range forkAt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkAt[ks[i]] > forkAt[ks[j]] })
	for i, k := range ks {
		if i > 15 {
			break
		}
		fmt.Printf("  forks %7d %s\n", forkAt[k], k)
	}
}
