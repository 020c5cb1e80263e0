package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

var props = map[string]func(c *Check){}

func main() {
	tier := flag.String("tier", "quick", "quick|thorough")
	list := flag.Bool("list", false, "list properties")
	only := flag.String("only", "", "run only scenarios whose name contains this")
	flag.Parse()
	if *list {
		var ks []string
		for k := range props {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(ks)
		return
	}
	if flag.NArg() != 1 || props[flag.Arg(0)] == nil {
		fmt.Fprintln(os.Stderr, "usage: rpcheck [-tier quick|thorough] PROPERTY")
		os.Exit(2)
	}
	c := newCheck(flag.Arg(0), *tier)
	c.only = *only
	debug.SetGCPercent(200)
	go watchMemory()
	stop := startProfile()
	start := time.Now()
	c.start = start
	if err := c.load(); err != nil {
		c.violate("analysis-input", "packages", "the code under analysis does not type-check: "+err.Error())
	} else {
		props[c.prop](c)
		c.wait()
	}
	stop()
	os.Exit(c.finish())
}
