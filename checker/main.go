package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "panics" {
		dbgPanics()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "errs" {
		dbgErrs()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		dump(os.Args[2:])
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2], os.Args[3], os.Args[4]))
	}
	if len(os.Args) > 1 && os.Args[1] == "ext" {
		dbgExt()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "pairs" {
		p, err := Load("/repo")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, pr := range p.pairs(os.Args[2]) {
			if len(os.Args) > 3 && !strings.Contains(pr.name, os.Args[3]) {
				continue
			}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if u, ok := x.(undecidedErr); ok {
							fmt.Println("UNDECIDED", pr.name, u.msg)
							return
						}
						panic(x)
					}
				}()
				t := time.Now()
				ds, fs, _ := comparePair(p, pr, nil, nil)
				n := len(fs)
				fmt.Println("==", pr.prop, pr.name, "functions", n, "diffs", len(ds), time.Since(t).Round(time.Millisecond))
				for _, d := range ds {
					fmt.Println("   ", d.what, "\n    got ", d.got, "\n    want", d.want)
				}
			}()
		}
		return
	}
}

func dump(args []string) {
	p, err := Load("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	u := NewUniv()
	e := NewEng(p, u, Cfg{})
	for _, a := range args {
		for _, f := range p.allF {
			if f.String() == a || f.RelString(nil) == a {
				r := e.Run(f, e.Params(f), nil)
				fmt.Println("==", f, "guard", r.G)
				for i, v := range r.Vals {
					fmt.Println("  ret", i, v.str(12))
				}
				for k, v := range r.St.mem {
					if k.path != "#" {
						fmt.Println("  mem", k.base, k.path, "=", v.str(12))
					}
				}
				printEffs(p, r.Effs, "  ")
			}
		}
	}
	fmt.Println("steps", e.Steps, "nodes", u.n)
}

func printEffs(p *Prog, es []*Eff, ind string) {
	for _, x := range es {
		fmt.Printf("%s[%s] %s %s recv=%v args=%v res=%v at %s\n", ind, x.Guard, x.Kind, x.Name, x.Recv, x.Args, x.Res, p.posStr(x.Pos))
		if x.Loop != nil {
			for _, v := range x.Loop.Vars {
				fmt.Printf("%s   %s: init %s next %s\n", ind, v.Mu, v.Init.str(8), v.Next.str(12))
			}
			fmt.Printf("%s   N=%v back=%s exits=%v\n", ind, x.Loop.N, x.Loop.Back, x.Loop.Exits)
			printEffs(p, x.Loop.Effs, ind+"    ")
		}
	}
}

func dbgPanics() {
	p, err := Load("/repo")
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, n := range [][2]string{{modPath, "ParseExpr"}, {modPath + "/mtex", "Parse"}, {modPath + "/mtex", "Render"}} {
		f := p.Func(n[0], n[1])
		for x, path := range p.loosePanics(f) {
			fmt.Println(n[1], p.posStr(x.Pos()), path)
		}
	}
}
