package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// mutRun is for developing the rules: it runs checks on single-file variants
// of the source (DIR/*/FILE.go with DIR/*/desc) and says which are reported.
// args: DIR PROPS(comma separated or all) [regexp on desc]
func mutRun(repo, verif string, args []string) {
	dirs, _ := filepath.Glob(filepath.Join(args[0], "*"))
	sort.Strings(dirs)
	var ids []string
	if args[1] == "all" {
		for id := range rules {
			ids = append(ids, id)
		}
	} else {
		ids = strings.Split(args[1], ",")
	}
	sort.Strings(ids)
	var re *regexp.Regexp
	if len(args) > 2 {
		re = regexp.MustCompile(args[2])
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	out := make([]string, len(dirs))
	var wg sync.WaitGroup
	sem := make(chan bool, 7)
	for i, d := range dirs {
		b, err := os.ReadFile(filepath.Join(d, "desc"))
		if err != nil || re != nil && !re.Match(b) {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		ov := map[string][]byte{}
		for _, f := range fs {
			x, _ := os.ReadFile(f)
			ov[filepath.Join(repo, filepath.Base(f))] = x
		}
		wg.Add(1)
		sem <- true
		go func(i int, d, desc string) {
			defer wg.Done()
			defer func() { <-sem }()
			w, err := loadOverlay(repo, ov)
			var hit []string
			for _, id := range ids {
				c := evaluate(w, err, rules[id], "quick")
				msg := ""
				for _, k := range c.order {
					o := c.obls[k]
					if o.OK {
						continue
					}
					kn := false
					for _, f := range known {
						if f.prop == id && f.key == o.key() {
							kn = true
						}
					}
					if !kn {
						msg = o.key() + ": " + o.Msg
						break
					}
				}
				if msg != "" {
					if len(msg) > 150 {
						msg = msg[:150]
					}
					hit = append(hit, id+" "+msg)
				}
			}
			s := "MISS"
			if len(hit) > 0 {
				s = "HIT "
			}
			out[i] = fmt.Sprintf("%s %s %s\n", s, filepath.Base(d), strings.TrimSpace(desc))
			for _, h := range hit {
				out[i] += "        " + h + "\n"
			}
		}(i, d, string(b))
	}
	wg.Wait()
	n, miss := 0, 0
	for _, s := range out {
		if s == "" {
			continue
		}
		n++
		if strings.HasPrefix(s, "MISS") {
			miss++
		}
		fmt.Print(s)
	}
	fmt.Printf("%d variants, %d reported, %d not\n", n, n-miss, miss)
}
