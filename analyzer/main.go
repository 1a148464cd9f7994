package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

// checks by property.
var checks = map[string]func(*Check){}

func register(id string, f func(*Check)) { checks[id] = f }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: analyzer PROPERTY... | list | all")
		os.Exit(1)
	}

	if f := os.Getenv("CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()

		if s := os.Getenv("PROFSECONDS"); s != "" {
			d, _ := time.ParseDuration(s + "s")

			time.AfterFunc(d, func() { debug.SetTraceback("all"); pprof.StopCPUProfile(); panic("profile taken") })
		}
	}

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}

	ids := os.Args[1:]

	switch ids[0] {
	case "list", "all":
		var all []string
		for id := range checks {
			all = append(all, id)
		}

		sort.Strings(all)

		if ids[0] == "list" {
			for _, id := range all {
				fmt.Println(id)
			}

			return
		}

		ids = all
	case "debug":
		debugCmd(os.Args[2:])
		return
	}

	code := 0
	shared := map[string]*Prog{}

	for _, id := range ids {
		if runCheck(id, tier, shared) != 0 {
			code = 1
		}
	}

	pprof.StopCPUProfile()
	os.Exit(code)
}

func runCheck(id, tier string, shared map[string]*Prog) (code int) {
	start := time.Now()
	c := newCheck(id, tier)
	c.progs = shared

	f := checks[id]
	if f == nil {
		fmt.Printf("unknown property %s\n", id)
		return 1
	}

	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(anchorError); ok {
					c.fail("anchor", e.msg, "-", "the construct the rule is about could not be resolved: "+e.msg)
					return
				}

				stack := string(debug.Stack())
				if os.Getenv("ANALYZER_DEBUG") != "" {
					fmt.Println(stack)
				}

				c.fail("undecided", fmt.Sprint(r), "-", "the analysis could not decide the property: "+fmt.Sprint(r))
			}
		}()
		f(c)
	}()

	return c.finish(start)
}

func debugCmd(args []string) {}
