package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Rule is one static rule; a property is decided by the conjunction of its rules.
type Rule struct {
	Desc string
	Run  func(*Report)
}

var properties = map[string][]Rule{}

func reg(prop, desc string, run func(*Report)) {
	properties[prop] = append(properties[prop], Rule{desc, run})
}

func main() {
	prop := flag.String("property", "", "property id, comma list, or 'all'")
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	dump := flag.String("dump", "", "dump SSA of functions whose short name contains this")
	sqlDump := flag.Bool("sql", false, "list SQL statements")
	cpu := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	p, err := Load(*repo)
	if *dump != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, f := range p.All {
			if strings.Contains(shortName(f), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *sqlDump {
		for _, st := range p.Statements() {
			fmt.Printf("%s %s tx=%v %s %s n=%d\n    %s\n", p.InstrPos(st.In), shortName(st.Fn), st.OnTx, st.Verb, st.Table, len(st.Params), st.Query)
		}
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	for _, id := range ids {
		st := start
		if len(ids) > 1 {
			st = time.Now()
		}
		c := runOne(p, err, *verif, id, st, tier, seed)
		if c != 0 {
			code = c
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func runOne(p *Prog, lerr error, verif, id string, start time.Time, tier string, seed int) int {
	if lerr != nil {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		rp := filepath.Join(verif, "evidence", id+".replay.json")
		os.WriteFile(rp, []byte(fmt.Sprintf("{\"error\": %q}\n", lerr.Error())), 0644)
		os.WriteFile(filepath.Join(verif, "evidence", id+".json"), []byte(fmt.Sprintf("{\"property\":%q,\"tier\":%q,\"seed\":%d,\"level\":\"other\",\"coverage\":{\"explanation\":%q},\"wall_s\":%f,\"violations\":1}\n", id, tier, seed, "the program could not be loaded: "+lerr.Error(), time.Since(start).Seconds())), 0644)
		fmt.Println("cannot load the program:", lerr)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	r := newReport(p, id)
	rules := properties[id]
	if len(rules) == 0 {
		r.Bad("anchor", id, "-", "no rules registered")
	}
	var descs []string
	for _, ru := range rules {
		descs = append(descs, ru.Desc)
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Bad("undecided", ru.Desc, "-", fmt.Sprintf("rule panicked: %v\n%s", e, debug.Stack()))
				}
			}()
			ru.Run(r)
		}()
	}
	return r.Finish(verif, start, descs, tier, seed)
}
