package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func (x *Explorer) debugHot() {
	if os.Getenv("AN_HOT") == "" {
		return
	}
	cnt := map[string]int{}
	ex := map[string][]string{}
	for k := range x.seen {
		p := strings.SplitN(k, "|", 4)
		h := p[0] + "|" + p[1] + "|" + p[2]
		cnt[h]++
		if len(ex[h]) < 12 {
			ex[h] = append(ex[h], p[3])
		}
	}
	var hs []string
	for h := range cnt {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return cnt[hs[i]] > cnt[hs[j]] })
	inv := map[int]string{}
	for v, id := range valIDs {
		nm := v.Name()
		if v.Parent() != nil {
			nm = v.Parent().Name() + "." + nm
		}
		inv[id] = nm
	}
	for i, h := range hs {
		if i > 4 {
			break
		}
		fmt.Println(cnt[h], h)
		for _, e := range ex[h] {
			fmt.Println("    ", e)
		}
	}
	if os.Getenv("AN_HOT") == "2" {
		for id, n := range inv {
			fmt.Println(id, n)
		}
	}
}

func debugf(f string, a ...any) {
	if os.Getenv("DBG") != "" {
		fmt.Printf("DBG "+f+"\n", a...)
	}
}
