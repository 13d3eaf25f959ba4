package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// dump prints a state for debugging the analyser.
func (s *State) dump() {
	w := os.Stderr
	for _, f := range s.fr {
		fmt.Fprintf(w, "frame %s b%d i%d defers %d\n", fnName(f.fn), f.blk.Index, f.idx, len(f.defers))
		for v, t := range f.env {
			fmt.Fprintf(w, "   %s = %s\n", v.Name(), t)
		}
	}
	var l []string
	for a, v := range s.mem {
		l = append(l, fmt.Sprintf("   mem %s = %s", a, v))
	}
	for t, v := range s.facts.b {
		l = append(l, fmt.Sprintf("   fact %s = %v", t, v))
	}
	for t, v := range s.facts.iv {
		l = append(l, fmt.Sprintf("   iv %s = %v", t, v))
	}
	for t, v := range s.facts.ne {
		l = append(l, fmt.Sprintf("   ne %s = %v", t, v))
	}
	sort.Strings(l)
	fmt.Fprintln(w, strings.Join(l, "\n"))
	for _, m := range s.memb {
		fmt.Fprintf(w, "   memb %s in %s\n", m.elem, m.cont)
	}
	for _, t := range s.trav {
		fmt.Fprintf(w, "   trav %s full=%v last=%d seen=%v\n", t.cont, t.full, t.last, t.seen)
	}
	for _, m := range s.mons {
		fmt.Fprintf(w, "   mon %s\n", m.Key())
		if x, ok := m.(*M); ok {
			for k, v := range x.t {
				fmt.Fprintf(w, "      %s: %s\n", k, v)
			}
		}
	}
	fmt.Fprintln(w, "-----")
}

// maxStatesDefault bounds one exploration (CHK_MAX lowers it for debugging).
var maxStatesDefault = func() int {
	n := 150000
	fmt.Sscan(os.Getenv("CHK_MAX"), &n)
	return n
}()
