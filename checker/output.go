package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// piece is part of what a write prints: fixed text, or the value of a term
// printed with a verb.
type piece struct {
	text string
	term *Term
	verb string
}

// write is one effect that prints to a writer.
type write struct {
	ef     *Effect
	to     *Term // the writer; nil for standard output
	pieces []piece
}

// unquote gives the value of a string constant.
func unquote(t *Term) (string, bool) {
	if t.op != OConst {
		return "", false
	}
	s, err := strconv.Unquote(t.aux)
	return s, err == nil
}

// flat splits a printed value at concatenations and constants.
func flat(e *Eval, t *Term, verb string) []piece {
	if s, ok := unquote(t); ok && verb != "q" {
		return []piece{{text: s}}
	}
	if t.op == OBin && t.aux == "+" && verb != "q" {
		return append(flat(e, t.args[0], verb), flat(e, t.args[1], verb)...)
	}
	if t.op == OCall && t.aux == "fmt.Sprintf" && verb != "q" {
		if ps, ok := formatted(e, t.args); ok {
			return ps
		}
	}
	if t.op == OCall && (t.aux == "fmt.Sprint" || t.aux == "fmt.Sprintln") && verb != "q" {
		if ps, ok := spaced(e, t.args, t.aux == "fmt.Sprintln"); ok {
			return ps
		}
	}
	if t.op == OCall && t.aux == "strconv.Quote" {
		return []piece{{term: t.args[0], verb: "q"}}
	}
	if t.op == OGate && verb != "q" {
		if ps, ok := flatAlts(e, t, verb); ok {
			return ps
		}
	}
	return []piece{{term: t, verb: verb}}
}

// flatAlts splits a value whose alternatives have the same fixed text.
func flatAlts(e *Eval, t *Term, verb string) ([]piece, bool) {
	var out []piece
	var values [][]alt
	for i, a := range e.alts(t) {
		ps := flat(e, a.t, verb)
		if i == 0 {
			out, values = ps, make([][]alt, len(ps))
		}
		if len(ps) != len(out) || len(ps) < 2 {
			return nil, false
		}
		for j, p := range ps {
			if (p.term == nil) != (out[j].term == nil) || p.text != out[j].text || p.verb != out[j].verb {
				return nil, false
			}
			if p.term != nil {
				values[j] = append(values[j], alt{a.c, p.term})
			}
		}
	}
	for j := range out {
		if out[j].term != nil {
			out[j].term = e.Gate(values[j], True, nil)
		}
	}
	return out, true
}

var verbRE = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z%]`)

// formatted splits the output of a format and its arguments.
func formatted(e *Eval, args []*Term) ([]piece, bool) {
	if len(args) == 0 {
		return nil, false
	}
	f, ok := unquote(args[0])
	if !ok {
		return nil, false
	}
	var list []*Term
	if len(args) > 1 && args[1].op == OList {
		list = args[1].args
	} else if len(args) > 1 && !e.isNil(args[1]) {
		return nil, false
	}
	var out []piece
	at := 0
	for _, m := range verbRE.FindAllStringIndex(f, -1) {
		if m[0] > at {
			out = append(out, piece{text: f[at:m[0]]})
		}
		at = m[1]
		v := f[m[0]+1 : m[1]]
		if v == "%" {
			out = append(out, piece{text: "%"})
			continue
		}
		if len(list) == 0 {
			return nil, false
		}
		a := list[0]
		list = list[1:]
		if v == "s" || v == "v" || v == "d" {
			out = append(out, flat(e, a, "s")...)
		} else {
			out = append(out, piece{term: a, verb: v})
		}
	}
	if at < len(f) {
		out = append(out, piece{text: f[at:]})
	}
	return out, len(list) == 0
}

// spaced gives the pieces of Print or Println.
func spaced(e *Eval, args []*Term, ln bool) ([]piece, bool) {
	var list []*Term
	if len(args) > 0 && args[0].op == OList {
		list = args[0].args
	} else if len(args) > 0 && !e.isNil(args[0]) {
		return nil, false
	}
	var out []piece
	for i, a := range list {
		if i > 0 && (ln || !isStringTerm(a) && !isStringTerm(list[i-1])) {
			out = append(out, piece{text: " "})
		}
		out = append(out, flat(e, a, "s")...)
	}
	if ln {
		out = append(out, piece{text: "\n"})
	}
	return out, true
}

func isStringTerm(t *Term) bool {
	if _, ok := unquote(t); ok {
		return true
	}
	return t.typ != nil && isStringType(t.typ)
}

// writes lists the effects of kind print, in order.
func (e *Eval) writes() []write {
	var out []write
	for _, ef := range e.effects {
		if w, ok := e.asWrite(ef); ok {
			out = append(out, w)
		}
	}
	return out
}

func (e *Eval) asWrite(ef *Effect) (write, bool) {
	if ef.kind != "call" && ef.kind != "invoke" {
		return write{}, false
	}
	w := write{ef: ef}
	ok := true
	a := ef.args
	switch ef.name {
	case "(io.Writer).Write", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*os.File).Write", "(*os.File).WriteString",
		"io.WriteString", "(io.StringWriter).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*text/tabwriter.Writer).Write":
		w.to = a[0]
		w.pieces = flat(e, a[1], "s")
	case "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune",
		"(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		w.to = a[0]
		if n, err := strconv.Atoi(a[1].aux); a[1].op == OConst && err == nil {
			w.pieces = []piece{{text: string(rune(n))}}
		} else {
			w.pieces = []piece{{term: a[1], verb: "c"}}
		}
	case "fmt.Fprint", "fmt.Fprintln":
		w.to = a[0]
		w.pieces, ok = spaced(e, a[1:], ef.name == "fmt.Fprintln")
	case "fmt.Fprintf":
		w.to = a[0]
		w.pieces, ok = formatted(e, a[1:])
	case "fmt.Print", "fmt.Println":
		w.pieces, ok = spaced(e, a, ef.name == "fmt.Println")
	case "fmt.Printf":
		w.pieces, ok = formatted(e, a)
	default:
		return w, false
	}
	if !ok {
		w.pieces = []piece{{term: a[len(a)-1], verb: "?"}}
	}
	return w, true
}

// toStdout reports whether a writer is, or wraps, standard output.
func (e *Eval) toStdout(t *Term) bool {
	if t == nil {
		return true
	}
	for _, a := range e.alts(t) {
		x := a.t
		for x.op == OCall && len(x.args) > 0 && strings.Contains(x.aux, "NewWriter") {
			x = x.args[0]
		}
		if !(x.op == ODeref && x.args[0].op == OGlobal && x.args[0].aux == "os.Stdout") {
			return false
		}
	}
	return true
}

// line is a run of writes that together print one line of output.
type line struct {
	writes []write
	pieces []piece
	loops  []*Loop
}

// lines joins consecutive writes made in the same loops until a newline.
func lines(ws []write) []line {
	var out []line
	open := map[string]int{}
	for _, w := range ws {
		var ids []string
		for _, l := range w.ef.loops {
			ids = append(ids, fmt.Sprint(l.id))
		}
		k := strings.Join(ids, ",")
		i, ok := open[k]
		if !ok {
			out = append(out, line{loops: w.ef.loops})
			i = len(out) - 1
			open[k] = i
		}
		out[i].writes = append(out[i].writes, w)
		for _, p := range w.pieces {
			if n := len(out[i].pieces); p.term == nil && n > 0 && out[i].pieces[n-1].term == nil {
				out[i].pieces[n-1].text += p.text
			} else {
				out[i].pieces = append(out[i].pieces, p)
			}
		}
		if n := len(out[i].pieces); n > 0 && out[i].pieces[n-1].term == nil && strings.HasSuffix(out[i].pieces[n-1].text, "\n") {
			delete(open, k)
		}
	}
	return out
}

// escaped recognises a term that escapes backslashes and double quotes in
// another.
func escaped(t *Term) (*Term, bool) {
	if t.op != OCall {
		return nil, false
	}
	switch {
	case t.aux == "(*strings.Replacer).Replace" && t.args[0].op == OCall && strings.HasPrefix(t.args[0].aux, "strings.NewReplacer") && len(t.args[0].args) == 1 && t.args[0].args[0].op == OList:
		pairs := map[string]string{}
		l := t.args[0].args[0].args
		for i := 0; i+1 < len(l); i += 2 {
			a, ok1 := unquote(l[i])
			b, ok2 := unquote(l[i+1])
			if !ok1 || !ok2 {
				return nil, false
			}
			if _, dup := pairs[a]; !dup {
				pairs[a] = b
			}
		}
		if len(pairs) == 2 && pairs[`\`] == `\\` && pairs[`"`] == `\"` {
			return t.args[1], true
		}
	case (t.aux == "strings.ReplaceAll" || t.aux == "strings.Replace") && len(t.args) >= 3:
		if t.aux == "strings.Replace" && t.args[3].aux != "-1" {
			return nil, false
		}
		a, _ := unquote(t.args[1])
		b, _ := unquote(t.args[2])
		in := t.args[0]
		if a == `"` && b == `\"` && in.op == OCall && (in.aux == "strings.ReplaceAll" || in.aux == "strings.Replace") && len(in.args) >= 3 {
			if in.aux == "strings.Replace" && in.args[3].aux != "-1" {
				return nil, false
			}
			c, _ := unquote(in.args[1])
			d, _ := unquote(in.args[2])
			if c == `\` && d == `\\` {
				return in.args[0], true
			}
		}
	}
	return nil, false
}
