package main

import (
	"fmt"
	"os"
	"strconv"
	"runtime/pprof"
	"time"
)

func main() {
	dir := os.Getenv("REPO_DIR")
	if dir == "" {
		dir = "/repo"
	}
	start := time.Now()
	p, err := loadProgram(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		os.Exit(2)
	}
	if len(os.Args) > 1 && os.Args[1] == "sizes" {
		for _, f := range p.Funcs {
			fmt.Println(fnSize(f), fnName(f))
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		f := p.fnByName(os.Args[2])
		sz := 60
		if len(os.Args) > 3 {
			sz, _ = strconv.Atoi(os.Args[3])
		}
		ir := p.buildIR(f, inlineUpTo(sz))
		ir.promote()
		fmt.Print(ir.dump())
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(runCheck(p, os.Args[2], tier, start))
	}
	t0 := time.Now()
	if pf := os.Getenv("DXPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	s := newSummaries(p, inlineUpTo(60))
	s.solve()
	fmt.Println("solve", time.Since(t0), "cands", s.Cands, "alive", s.Alive, "rounds", s.Rounds, "functions", len(s.Order))
	if len(os.Args) > 2 && os.Args[1] == "sum" {
		fi := s.Funcs[p.fnByName(os.Args[2])]
		for _, im := range fi.Pre {
			if !im.dead {
				fmt.Println("pre ", im)
			}
		}
		for _, im := range fi.Post {
			if !im.dead {
				fmt.Println("post ", im)
			} else if os.Getenv("DXWHY") != "" {
				fmt.Println("dead ", im, im.why)
			}
		}
		for _, c := range fi.Inv {
			if !c.dead {
				fmt.Println("inv b", c.H.ID, c.F)
			} else if os.Getenv("DXWHY") != "" {
				fmt.Println("deadinv b", c.H.ID, c.F, c.why)
			}
		}
	}
	s.dischargeAll(5)
	fmt.Println("done", time.Since(t0))
	n, bad := 0, 0
	for _, fi := range s.Order {
		for _, o := range fi.Obs {
			n++
			if !o.Proved {
				bad++
				fmt.Println(p.pos(o.N.Pos), o.Kind, o.Desc, o.Failed, o.Why, "in", o.N.Frame.chain(p))
			}
		}
	}
	fmt.Println("obligations", n, "open", bad)
}
