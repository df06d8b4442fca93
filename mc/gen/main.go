// Command gen writes the overlay that places the harness (and, for the
// concurrency build, an instrumented copy of the sources of /repo) into the
// module without touching /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

var (
	repo   = flag.String("repo", "/repo", "repository")
	mc     = flag.String("mc", "/verif/mc", "machinery sources")
	out    = flag.String("out", "", "scratch directory")
	mode   = flag.String("mode", "seq", "seq or conc")
	nochan = flag.Bool("nochan", false, "leave channels alone")
)

func fatal(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(2) }

func main() {
	flag.Parse()
	repl := map[string]string{}
	add := func(pkg, dst string) {
		ms, _ := filepath.Glob(filepath.Join(*mc, pkg, "*.go"))
		for _, m := range ms {
			repl[filepath.Join(*repo, "zzverif", dst, filepath.Base(m))] = m
		}
	}
	add("rt", "rt")
	if *mode == "seq" {
		add("seq", "seq")
	} else if *mode == "work" {
		add("seq", "work")
		delete(repl, filepath.Join(*repo, "zzverif", "work", "registry.go"))
		add("wcount", "wcount")
		add("work", "work")
		countSteps(repl)
	} else {
		add("vsync", "vsync")
		add("vatomic", "vatomic")
		add("vrand", "vrand")
		add("vrand2", "vrand2")
		add("conc", "conc")
		ms, _ := filepath.Glob(filepath.Join(*mc, "seq", "*.go"))
		for _, m := range ms {
			if filepath.Base(m) != "registry.go" {
				harnessCopy(repl, m, filepath.Join(*repo, "zzverif", "conc", "seq_"+filepath.Base(m)))
			}
		}
		instrument(repl)
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(filepath.Join(*out, "overlay-"+*mode+".json"), b, 0o644); err != nil {
		fatal(err)
	}
}

// goFiles lists the non-test sources of the packages under check.
func goFiles() []string {
	var fs []string
	filepath.Walk(*repo, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		if i.IsDir() {
			b := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(b, ".") || b == "vendor" || b == "testdata" || b == "examples" || rel == "util/test" || b == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			fs = append(fs, p)
		}
		return nil
	})
	return fs
}
