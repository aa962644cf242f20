package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// The reviewed source is the source of the repository which the references were
// derived from. It serves when functions of it are gone whose calls the
// references show: then both it and the source are summarised with the bodies
// of those functions in place of their calls, and compared.

//go:embed ref/source.tar.gz
var sourceTar []byte

// reviewedSource unpacks the source into a new directory.
func reviewedSource() (string, error) {
	dir, err := os.MkdirTemp("", "typastcheck-source")
	if err != nil {
		return "", err
	}
	zr, err := gzip.NewReader(bytes.NewReader(sourceTar))
	if err != nil {
		return "", err
	}
	tr := tar.NewReader(zr)
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return dir, nil
		}
		if err != nil {
			return "", err
		}
		if h.Typeflag != tar.TypeReg || !filepath.IsLocal(h.Name) {
			continue
		}
		b, err := io.ReadAll(tr)
		if err != nil {
			return "", err
		}
		name := filepath.Join(dir, h.Name)
		if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
			return "", err
		}
		if err := os.WriteFile(name, b, 0o644); err != nil {
			return "", err
		}
	}
}

// expand makes the analysis look into the named functions, which are named as
// in the inventory.
func (w *World) expand(names []string) {
	w.expanded = functionNames(names)
}

// functionNames gives the names of functions as the analysis spells them.
func functionNames(names []string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
		i := strings.LastIndexByte(n, '/') + 1
		if p := strings.Split(n[i:], "."); len(p) == 3 {
			t := n[:i] + p[0] + "." + p[1]
			m["("+t+")."+p[2]] = true
			m["(*"+t+")."+p[2]] = true
		}
	}
	return m
}

// again decides a property for a source which has no longer all functions:
// by summaries of the reviewed source in which these are expanded too. What
// cannot be decided for the reviewed source that way is left out.
func again(p *Property, w *World, tier string) *Report {
	exe, err := os.Executable()
	if err != nil {
		return nil
	}
	c := exec.Command(exe, "-property", p.ID, "-tier", tier, "-without", strings.Join(w.Restored, ","))
	c.Stderr = os.Stderr
	b, err := c.Output()
	if err != nil {
		return nil
	}
	var o outcome
	if json.Unmarshal(b, &o) != nil {
		return nil
	}
	if o.Cases == nil {
		o.Cases = map[string][]*Case{}
	}
	w.expand(w.Restored)
	r := apply(&Report{refs: o.Cases}, p, w, nil, tier)
	open := map[string]bool{}
	place := func(x Obl) string {
		k := x.Construct
		if x.Rule == "bound" {
			k, _, _ = strings.Cut(k, " in ")
		}
		if x.Rule == "reference" {
			return "analysis|" + k
		}
		return x.Rule + "|" + k
	}
	for _, x := range o.Obls {
		if !x.OK {
			open[place(x)] = true
		}
	}
	if os.Getenv("TYPASTCHECK_AGAIN") != "" {
		fmt.Fprintln(os.Stderr, "again", p.ID, w.Restored, len(o.Cases), len(o.Obls), len(r.obls), r.failing())
		for _, x := range r.obls {
			if !x.OK {
				fmt.Fprintf(os.Stderr, "  %v %.300s\n", open[place(x)], place(x)+" "+x.Detail)
			}
		}
	}
	var keep []Obl
	left := 0
	for _, x := range r.obls {
		if !x.OK && open[place(x)] {
			left++
			continue
		}
		keep = append(keep, x)
	}
	r.obls = keep
	r.note("%d functions of the reviewed source are gone (%s): compared with its summaries in which they are expanded; %d obligations cannot be stated that way", len(w.Restored), strings.Join(w.Restored, ", "), left)
	return r
}
