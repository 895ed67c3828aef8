package main

import (
	_ "embed"
	"encoding/json"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The inventory records the functions and struct fields of the tree the rules
// were written for. A name that disappeared is matched with a new one of the
// same receiver and signature (functions) or the same place and type
// (fields), so that renaming does not disturb the rules.

//go:embed inventory.json
var inventoryJSON []byte

type Inventory struct {
	Funcs   map[string]string      `json:"funcs"`   // name -> signature
	Structs map[string][][2]string `json:"structs"` // type -> field name, type
}

var fieldAlias = map[*types.Var]string{}
var fnAlias = map[*ssa.Function]string{}

func fieldName(f *types.Var) string {
	if n, ok := fieldAlias[f]; ok {
		return n
	}
	return f.Name()
}

func sigKey(f *ssa.Function) string {
	s := f.Signature
	var sb strings.Builder
	tup := func(t *types.Tuple) {
		sb.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			sb.WriteString(typeKey(t.At(i).Type()) + ",")
		}
		sb.WriteString(")")
	}
	tup(s.Params())
	tup(s.Results())
	if s.Variadic() {
		sb.WriteString("...")
	}
	return sb.String()
}

func recvOf(name string) string {
	if i := strings.Index(name, "."); i > 0 {
		return name[:i]
	}
	return ""
}

func takeInventory(w *World) *Inventory {
	inv := &Inventory{Funcs: map[string]string{}, Structs: map[string][][2]string{}}
	for n, f := range w.fns {
		if f.Parent() == nil && f.Synthetic == "" {
			inv.Funcs[n] = sigKey(f)
		}
	}
	sc := w.tpkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			if s, ok := tn.Type().Underlying().(*types.Struct); ok {
				var fs [][2]string
				for i := 0; i < s.NumFields(); i++ {
					fs = append(fs, [2]string{s.Field(i).Name(), typeKey(s.Field(i).Type())})
				}
				inv.Structs[n] = fs
			}
		}
	}
	return inv
}

func (w *World) applyInventory() {
	var inv Inventory
	if json.Unmarshal(inventoryJSON, &inv) != nil {
		return
	}
	now := takeInventory(w)
	// fields
	for tn, old := range inv.Structs {
		cur, ok := now.Structs[tn]
		if !ok {
			continue
		}
		s := w.tpkg.Scope().Lookup(tn).Type().Underlying().(*types.Struct)
		have := map[string]bool{}
		for _, f := range cur {
			have[f[0]] = true
		}
		oldNames := map[string]bool{}
		for _, f := range old {
			oldNames[f[0]] = true
		}
		used := map[int]bool{}
		for oi, f := range old {
			if have[f[0]] {
				continue
			}
			cand := -1
			// same position first, then unique type
			if oi < len(cur) && len(cur) == len(old) && cur[oi][1] == f[1] && !oldNames[cur[oi][0]] {
				cand = oi
			} else {
				n := 0
				for ci, cf := range cur {
					if !oldNames[cf[0]] && cf[1] == f[1] && !used[ci] {
						cand = ci
						n++
					}
				}
				if n != 1 {
					cand = -1
				}
			}
			if cand >= 0 {
				used[cand] = true
				fieldAlias[s.Field(cand)] = f[0]
			}
		}
	}
	// functions
	var missing []string
	for n := range inv.Funcs {
		if w.fns[n] == nil && w.fn(n) == nil {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	for _, n := range missing {
		var cand []string
		for m, sig := range now.Funcs {
			if _, known := inv.Funcs[m]; known {
				continue
			}
			if recvOf(m) == recvOf(n) && sig == inv.Funcs[n] && fnAlias[w.fns[m]] == "" {
				cand = append(cand, m)
			}
		}
		if len(cand) == 1 {
			f := w.fns[cand[0]]
			fnAlias[f] = n
			w.fns[n] = f
		}
	}
}
