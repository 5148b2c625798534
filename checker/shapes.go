package main

import (
	"go/types"
	"strings"
)

// shapes decides tests on go/types types for one class of type. A class is
// written inside out: "alias:defined:uintptr" is an alias of a type defined as
// uintptr, "struct:reflect.Value" a struct with a field of type reflect.Value.
type shapes struct {
	e   *Eval
	env map[*Term]string // classes of known terms
	// more decides terms and atoms that are not about types
	term func(t *Term) (string, bool)
	atom func(a *Term) (val, known bool)
}

// under is the class of the underlying type.
func under(c string) string {
	for {
		switch {
		case strings.HasPrefix(c, "alias:"), strings.HasPrefix(c, "defined:"):
			_, c, _ = strings.Cut(c, ":")
		case c == "reflect.Value":
			return "struct:uintptr"
		default:
			return c
		}
	}
}

func unalias(c string) string {
	for strings.HasPrefix(c, "alias:") {
		c = c[len("alias:"):]
	}
	return c
}

// holdsValue: the class is reflect.Value or a struct or array containing one.
func holdsValue(c string) bool {
	for {
		if c == "reflect.Value" {
			return true
		}
		w, rest, ok := strings.Cut(c, ":")
		if !ok {
			return false
		}
		switch w {
		case "alias", "struct", "array":
			c = rest
		case "defined":
			// a type defined as reflect.Value is another type
			c = under(rest)
		default:
			return false
		}
	}
}

// isGoType reports whether a type of class c is represented by the go/types
// type named.
func isGoType(c, name string) (is, known bool) {
	name = strings.TrimPrefix(name, "*go/types.")
	head, _, _ := strings.Cut(c, ":")
	own := map[string]string{"alias": "Alias", "defined": "Named", "reflect.Value": "Named", "struct": "Struct", "array": "Array",
		"pointer": "Pointer", "slice": "Slice", "map": "Map", "chan": "Chan", "func": "Signature", "interface": "Interface",
		"int": "Basic", "string": "Basic", "uintptr": "Basic", "unsafe.Pointer": "Basic"}
	if c == "nil" {
		return false, true
	}
	o, ok := own[head]
	return o == name, ok
}

var kinds = map[string]string{"int": "2", "uintptr": "12", "string": "17", "unsafe.Pointer": "18"}

// class finds the class of the type a term stands for.
func (sh *shapes) class(t *Term) (string, bool) {
	if c, ok := sh.env[t]; ok {
		return c, true
	}
	if sh.term != nil {
		if c, ok := sh.term(t); ok {
			return c, true
		}
	}
	strip := func(x *Term, ws ...string) (string, bool) {
		c, ok := sh.class(x)
		if !ok {
			return "", false
		}
		for _, w := range ws {
			if r, ok := strings.CutPrefix(c, w+":"); ok {
				return r, true
			}
		}
		return "", false
	}
	switch t.op {
	case OConst:
		if t.aux == "nil" {
			return "nil", true
		}
	case OConv:
		if len(t.args) == 1 {
			return sh.class(t.args[0])
		}
	case OCall:
		name := t.aux
		switch {
		case strings.HasSuffix(name, ").Underlying"):
			c, ok := sh.class(t.args[0])
			return under(c), ok && c != "nil"
		case name == "go/types.Unalias":
			c, ok := sh.class(t.args[0])
			return unalias(c), ok
		case strings.HasSuffix(name, ").Elem"):
			return strip(t.args[0], "pointer", "array", "slice", "chan")
		case strings.HasSuffix(name, ").Type") && strings.HasPrefix(name, "(*go/types."):
			x := t.args[0]
			for x.op == OFAddr || x.op == OField {
				x = x.args[0]
			}
			if x.op == OCall && x.aux == "(*go/types.Struct).Field" {
				return strip(x.args[0], "struct")
			}
		}
	case OIndex:
		if g := t.args[0]; g.op == OGlobal && strings.HasSuffix(g.aux, "go/types.Typ") && t.args[1].op == OConst {
			for c, k := range kinds {
				if k == t.args[1].aux {
					return c, true
				}
			}
			return "int", true
		}
	}
	return "", false
}

// truth decides an atom.
func (sh *shapes) truth(a *Term) (val, known bool) {
	if sh.atom != nil {
		if v, ok := sh.atom(a); ok {
			return v, true
		}
	}
	switch a.op {
	case OTypeIs:
		c, ok := sh.class(a.args[0])
		if T, is := a.obj.(types.Type); ok && is {
			return isGoType(c, T.String())
		}
	case OEq:
		x, y := a.args[0], a.args[1]
		if y.op != OConst && x.op == OConst {
			x, y = y, x
		}
		if x.op == OCall && y.op == OConst {
			switch {
			case strings.HasSuffix(x.aux, "Basic).Kind"):
				c, ok := sh.class(x.args[0])
				k, basic := kinds[c]
				return k == y.aux, ok && basic
			case strings.HasSuffix(x.aux, ").String") || x.aux == "go/types.TypeString":
				if c, ok := sh.class(x.args[0]); ok {
					return c == "reflect.Value" && y.aux == `"reflect.Value"`, true
				}
			case strings.HasSuffix(x.aux, ".Path"), strings.HasSuffix(x.aux, ".Name"):
				// of the package or the object of a defined type
				z := x
				for z.op == OCall && len(z.args) > 0 && !strings.HasSuffix(z.aux, "Named).Obj") || z.op == OFAddr || z.op == OField {
					z = z.args[0]
				}
				if z.op == OCall && len(z.args) > 0 {
					if c, ok := sh.class(z.args[0]); ok {
						want := `"Value"`
						if strings.HasSuffix(x.aux, ".Path") {
							want = `"reflect"`
						}
						return c == "reflect.Value" && y.aux == want, true
					}
				}
			}
		}
		cx, ok1 := sh.class(x)
		cy, ok2 := sh.class(y)
		if ok1 && ok2 {
			return cx == cy, true
		}
	case OCall:
		if a.aux == "go/types.Identical" {
			cx, ok1 := sh.class(a.args[0])
			cy, ok2 := sh.class(a.args[1])
			if ok1 && ok2 {
				flat := func(c string) string { return strings.ReplaceAll(":"+c, ":alias", "") }
				return flat(cx) == flat(cy), true
			}
		}
	}
	return false, false
}

// decide evaluates a condition for the classes at hand.
func (sh *shapes) decide(n Node) (bool, *Term) { return sh.e.decide(n, sh.truth) }

// wrapped lists the classes made from the given ones by up to n of the given
// wrappers.
func wrapped(base []string, n int, by ...string) []string {
	out := append([]string(nil), base...)
	last := base
	for ; n > 0; n-- {
		var next []string
		for _, c := range last {
			for _, w := range by {
				next = append(next, w+":"+c)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}
