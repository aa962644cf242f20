// Command typastcheck decides the properties of /verif/properties.jsonl by
// static analysis of the source of the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"maps"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func main() {
	prop := flag.String("property", "", "property id, list separated by commas, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	obligations := flag.Bool("obligations", false, "print the obligations of one property without those it rests on")
	dump := flag.String("dump", "", "debug: dump something")
	without := flag.String("without", "", "summarise the reviewed source with the calls of the functions of the list, separated by commas, expanded")
	flag.Parse()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(memory)
	go watch()
	if f := os.Getenv("TYPASTCHECK_PROF"); f != "" {
		pf, _ := os.Create(f)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	if *without != "" {
		dir, err := reviewedSource()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer os.RemoveAll(dir)
		*repo = dir
	}
	w, err := Load(*repo)
	if err == nil {
		err = w.InitGlobals()
		w.initEnums()
	}
	if *dump != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugDump(w, *dump, flag.Args())
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	if *without != "" {
		w.reviewed = true
		w.expand(strings.Split(*without, ","))
		r := apply(&Report{collect: map[string][]*Case{}}, properties[*prop], w, err, *tier)
		json.NewEncoder(os.Stdout).Encode(outcome{Obls: r.obls, Cases: r.collect})
		return
	}
	if *obligations {
		r := analyse(properties[*prop], w, err, *tier)
		o := outcome{Obls: r.obls, Funcs: slices.Sorted(maps.Keys(r.funcs)), Notes: r.notes}
		json.NewEncoder(os.Stdout).Encode(o)
		return
	}
	fail := 0
	for _, id := range ids {
		p := properties[id]
		if p == nil {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
			os.Exit(2)
		}
		t := time.Now()
		if len(ids) == 1 {
			t = start
		}
		fail += runProperty(p, w, err, *repo, *verif, *tier, seed, t)
	}
	if fail > 0 {
		os.Exit(1)
	}
}

// memory is what an analysis should make do with; one which holds on to more
// is given up.
const memory = 5 << 30

var outOfMemory atomic.Bool

func watch() {
	high := 0
	for range time.Tick(time.Second) {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		// With the collector running all the time that is what is in use.
		if m.HeapAlloc > memory {
			high++
		} else {
			high = 0
		}
		outOfMemory.Store(high > 3)
	}
}

func debugDump(w *World, fn string, args []string) {
	f := w.Fn(fn)
	if f == nil {
		for n := range w.ByName {
			if strings.Contains(n, fn) {
				fmt.Println(n)
			}
		}
		return
	}
	f.WriteTo(os.Stdout)
	ip := NewInterp(w)
	var as []*Term
	for _, p := range f.Params {
		as = append(as, mkSym(p.Name(), p.Type()))
	}
	outs := ip.Call(f, as, nil, NewState(), "T")
	fmt.Println(ip.Failed, ip.steps)
	for _, o := range outs {
		fmt.Println(o.panic, o.val, o.msg, len(o.st.facts), o.st.ev)
		for f, v := range o.st.facts {
			fmt.Println("    ", v, f)
		}
	}
}
