package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pcInfo is what a program counter stands for.
type pcInfo struct {
	fn, file string
	line     int
}

const pcBase = 0x400000

// runtimeName is the name the Go run time gives a function.
func runtimeName(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		i := strings.LastIndexByte(fn.Name(), '$')
		return runtimeName(p) + ".func" + fn.Name()[i+1:]
	}
	if r := fn.Signature.Recv(); r != nil {
		t, ptr := r.Type(), false
		if p, ok := t.(*types.Pointer); ok {
			t, ptr = p.Elem(), true
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			if ptr {
				return n.Obj().Pkg().Path() + ".(*" + n.Obj().Name() + ")." + fn.Name()
			}
			return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path() + "." + fn.Name()
	}
	return fn.String()
}

// pcOf gives the program counter of a frame.
func (w *Worker) pcOf(fr *Frame) uint64 {
	e := pcInfo{fn: runtimeName(fr.fi.fn)}
	if fr.block < len(fr.fi.blocks) && fr.pc < len(fr.fi.blocks[fr.block]) {
		p := w.eng.prog.Fset.Position(fr.fi.blocks[fr.block][fr.pc].in.Pos())
		e.file, e.line = p.Filename, p.Line
	}
	w.eng.mu.Lock()
	defer w.eng.mu.Unlock()
	key := e.fn + " " + e.file + " " + strconv.Itoa(e.line)
	id, ok := w.eng.pcIDs[key]
	if !ok {
		if w.eng.pcIDs == nil {
			w.eng.pcIDs = map[string]uint64{}
		}
		id = uint64(len(w.eng.pcs))
		w.eng.pcIDs[key] = id
		w.eng.pcs = append(w.eng.pcs, e)
	}
	return pcBase + 16*id
}

func (e *Engine) pcEnt(pc uint64) (pcInfo, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	i := (pc - pcBase) / 16
	if pc < pcBase || i >= uint64(len(e.pcs)) {
		return pcInfo{}, false
	}
	return e.pcs[i], true
}
