package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "framework directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	a := flag.Args()
	if len(a) == 0 {
		fmt.Println("usage: lpgcheck [flags] check ID... | dump FUNC | inventory | list")
		os.Exit(2)
	}
	switch a[0] {
	case "check":
		rc := 0
		for _, id := range a[1:] {
			if r := runCheck(*repo, *verif, id, *tier); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	case "list":
		for id := range rules {
			fmt.Println(id)
		}
	case "mut":
		mutRun(*repo, *verif, a[1:])
	case "inventory":
		w, err := load(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		b, _ := json.MarshalIndent(takeInventory(w), "", " ")
		fmt.Println(string(b))
	case "dump":
		dumpLimit = 400000
		w, err := load(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fn := w.fn(a[1])
		if fn == nil {
			for k := range w.fns {
				fmt.Println(k)
			}
			os.Exit(2)
		}
		e := newEng(w)
		e.hook = hooks(stdModel, atoms(a[2:]...))
		st := e.newState()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, e.tt.Param(p.Name(), p.Type()))
		}
		for i, o := range e.Run(fn, args, st) {
			if w := os.Getenv("LPG_OUT"); w != "" && w != fmt.Sprint(i) {
				continue
			}
			fmt.Printf("=== outcome %d panic=%v %s ret=%v\n", i, o.panic, o.panicIs, o.ret)
			dumpTrace(w, o.st.tr.list(), "  ")
		}
		fmt.Println("steps", e.steps, "over", e.over)
	}
}

var dumpLimit int

func dumpTrace(w *World, evs []*Event, ind string) {
	for _, ev := range evs {
		if dumpLimit -= 60; dumpLimit < 0 {
			return
		}
		switch ev.kind {
		case EvLoop:
			fmt.Printf("%sLOOP %s entry{%s} leave{%s}\n", ind, w.pos(ev.pos), ev.loop.entry, ev.key)
			for i, s := range ev.loop.segs {
				fmt.Printf("%s  seg %d {%s} -> {%s}\n", ind, i, s.from, s.to)
				dumpTrace(w, s.events, ind+"    ")
			}
			fmt.Printf("%sENDLOOP\n", ind)
		case EvAssume:
			fmt.Printf("%sassume %v = %v  (%s)\n", ind, ev.args[0], ev.truth, w.pos(ev.pos))
		case EvEnter:
			fmt.Printf("%s> %s%v\n", ind, ev.name, ev.args)
		case EvLeave:
			fmt.Printf("%s< %s = %v\n", ind, ev.name, ev.res)
		case EvStore:
			fmt.Printf("%sstore %v := %v (%s)\n", ind, ev.args[0], ev.args[1], w.pos(ev.pos))
		default:
			fmt.Printf("%s[%d] %s%v = %v (%s)\n", ind, ev.kind, ev.name, ev.args, ev.res, w.pos(ev.pos))
		}
	}
}
