package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func methodType(obj types.Object, ptr bool) types.Type {
	if ptr {
		return types.NewPointer(obj.Type())
	}
	return obj.Type()
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	if len(os.Args) == 2 && os.Args[1] == "all" {
		os.Exit(runAll())
	}
	if len(os.Args) == 2 && os.Args[1] == "stdspec" {
		os.Exit(writeSpec())
	}
	if len(os.Args) > 3 && os.Args[1] == "dump" {
		p, err := Load(envOr("CAPSLOCK_REPO", "/repo"))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		e := NewEval(p)
		fn := p.fn(modulePath+"/"+os.Args[2], os.Args[3])
		if fn == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		for _, x := range os.Args[4:] {
			e.initPkg(modulePath + "/" + x)
		}
		if o := os.Getenv("OPAQUE"); o != "" {
			e.opaque = map[string]bool{}
			for _, x := range strings.Split(o, ",") {
				e.opaque[modulePath+"/"+x] = true
			}
		}
		dump(e, fn)
		return
	}
	fmt.Fprintln(os.Stderr, "usage: capverif check <property> | all | dump <package> <function> [init packages]")
	os.Exit(2)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func dump(e *Eval, fn *ssa.Function) {
	var args []*Term
	for i, p := range fn.Params {
		t := e.param(fn, i)
		for _, kv := range strings.Split(os.Getenv("ARGS"), ";") {
			if v, ok := strings.CutPrefix(kv, p.Name()+"="); ok {
				t = e.Const(v, p.Type())
			}
		}
		args = append(args, t)
	}
	f, _ := e.Run(fn, args)
	for _, ef := range e.effects {
		var ls []int
		for _, l := range ef.loops {
			ls = append(ls, l.id)
		}
		if ef.kind == "enter" && os.Getenv("V") == "" {
			continue
		}
		fmt.Printf("%s %s %s loops=%v\n", e.prog.pos(ef.instr.Pos()), ef.kind, ef.name, ls)
		for _, a := range ef.args {
			fmt.Printf("     arg %s\n", e.String(a))
		}
		fmt.Printf("     pc  %s\n", e.NStr(ef.pc))
	}
	for _, l := range e.allLoops {
		fmt.Printf("loop %d %s %s in %s container=%s cont=%s\n", l.id, l.kind, e.prog.pos(l.pos), l.frame.fn, e.String(l.container), e.NStr(l.cont))
		for lv, t := range l.init {
			fmt.Printf("    %s init %s\n", e.String(lv), e.String(t))
		}
		for lv, t := range l.back {
			fmt.Printf("    %s back %s\n", e.String(lv), e.String(t))
		}
		for _, x := range l.exits {
			fmt.Printf("    exit %s\n", e.NStr(x.cond))
		}
		if l.ret != nil {
			fmt.Printf("    ret %s\n", e.String(l.ret))
		}
	}
	for _, r := range f.rets {
		fmt.Printf("return pc=%s\n", e.NStr(r.st.pc))
		for _, v := range r.vals {
			fmt.Printf("    %s\n", e.String(v))
		}
	}
	fmt.Printf("problems: %q\nterms %d bdd %d steps %d frames %d\n", e.problems, len(e.list), len(e.bdd.nodes), e.steps, e.nframes)
}

// runAll runs every rule on one loaded tree; used while developing.
func runAll() int {
	bad := 0
	for _, r := range rules {
		if runCheck(r.id) != 0 {
			bad = 1
		}
	}
	return bad
}
