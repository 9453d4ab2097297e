package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// sliceLoop describes a loop that counts an index up to the length of a slice.
type sliceLoop struct {
	Head  *ssa.BasicBlock
	Test  *ssa.BasicBlock // where the index is compared
	Over  ssa.Value       // the slice whose length bounds the loop
	Idx   ssa.Value       // the index inside the body
	First int64           // first index
	Step  int64
	Short int64 // how many elements at the end are left out
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// countsTo: the two sides of a comparison that bounds a counter, however it is written.
func countsTo(cond ssa.Value) (idx, lim ssa.Value) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond = u.X
	}
	cmp, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil, nil
	}
	switch cmp.Op {
	case token.LSS, token.GEQ:
		return cmp.X, cmp.Y
	case token.GTR, token.LEQ:
		return cmp.Y, cmp.X
	}
	return nil, nil
}

// loopAt recognises `for i := range s`, `for i := k; i < len(s); i += c` and
// `for i := range len(s)`.
func loopAt(h *ssa.BasicBlock) *sliceLoop {
	if l := loopTestedIn(h, h); l != nil {
		return l
	}
	// tested at the end of the body
	for _, b := range h.Preds {
		if isBackEdge(b, h) {
			if l := loopTestedIn(h, b); l != nil {
				return l
			}
		}
	}
	return nil
}

// countLoop describes a loop that counts an index up to a limit.
type countLoop struct {
	*sliceLoop
	Lim ssa.Value
}

func countAt(h *ssa.BasicBlock) *countLoop {
	if l := countTestedIn(h, h); l != nil {
		return l
	}
	for _, b := range h.Preds {
		if isBackEdge(b, h) {
			if l := countTestedIn(h, b); l != nil {
				return l
			}
		}
	}
	return nil
}

func countTestedIn(h, test *ssa.BasicBlock) *countLoop {
	if len(test.Instrs) == 0 {
		return nil
	}
	br, ok := test.Instrs[len(test.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	idx, lim := countsTo(br.Cond)
	if idx == nil {
		return nil
	}
	l := &countLoop{&sliceLoop{Head: h, Test: test, Idx: idx}, lim}
	if !l.counter(idx) {
		return nil
	}
	return l
}

func loopTestedIn(h, test *ssa.BasicBlock) *sliceLoop {
	if len(test.Instrs) == 0 {
		return nil
	}
	br, ok := test.Instrs[len(test.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	idx, lim := countsTo(br.Cond)
	short := int64(0)
	if sub, ok := lim.(*ssa.BinOp); ok && sub.Op == token.SUB {
		if k, ok := intConst(sub.Y); ok && k > 0 {
			lim, short = sub.X, k
		}
	}
	ln, ok := lim.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := ln.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	l := &sliceLoop{Head: h, Test: test, Over: ln.Call.Args[0], Idx: idx, Short: short}
	if !l.counter(idx) {
		return nil
	}
	return l
}

// counter finds where the index that is compared starts and how it advances.
func (l *sliceLoop) counter(idx ssa.Value) bool {
	phi, _ := idx.(*ssa.Phi)
	add, _ := idx.(*ssa.BinOp)
	if phi == nil && add != nil && add.Op == token.ADD {
		phi, _ = add.X.(*ssa.Phi)
	}
	if phi == nil || phi.Block() != l.Head {
		return false
	}
	atEnd := l.Test.Succs[0] == l.Head || l.Test.Succs[1] == l.Head
	if atEnd {
		if add == nil || ssa.Value(phi) == idx {
			return false
		}
		l.Idx = phi
	}
	for i, e := range phi.Edges {
		if isBackEdge(l.Head.Preds[i], l.Head) {
			a, ok := e.(*ssa.BinOp)
			if !ok || a.Op != token.ADD || a.X != phi {
				return false
			}
			if l.Step, ok = intConst(a.Y); !ok {
				return false
			}
			continue
		}
		k, ok := intConst(e)
		if !ok {
			return false
		}
		if add != nil && ssa.Value(phi) != idx && !atEnd {
			k++
		}
		l.First = k
	}
	return true
}

// loopBlocks is the natural loop of a header.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if isBackEdge(p, h) && !in[p] {
			in[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				work = append(work, p)
			}
		}
	}
	return in
}
