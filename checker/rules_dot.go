package main

import (
	"go/types"
	"regexp"
	"strings"
)

func init() {
	register("C25", "Everything the graph mode writes to standard output is split into lines of fixed text and printed values. The line "+
		"shapes are matched against the DOT grammar (one header, edges of two quoted names, one footer), each printed name must "+
		"be escaped, the writes of a line must happen together, and the header, edges, footer and flush must come in this order "+
		"with the flush's error returned.", ruleC25)
}

func ruleC25(c *Check) {
	for _, filtered := range []bool{false, true} {
		s, f := c.graphRun(filtered)
		if s == nil {
			continue
		}
		s.dot(f)
		c.problems(s.e, s.name)
	}
	c.need("vacuity", "lines of the graph", c.stats["lines"], 8)
	c.need("vacuity", "names printed", c.stats["names_printed"], 8)
}

var (
	dotHeader = regexp.MustCompile(`^\s*(strict\s+)?digraph(\s+("[^"\\\x00\x01]*"|[A-Za-z_0-9]+))?\s*\{\s*\n([^{}\x00\x01]*\n)?$`)
	dotAttr   = regexp.MustCompile(`^\s*([A-Za-z_]+\s*=\s*[^{}\x00\x01\n]*|(node|edge|graph)\s*\[[^\[\]{}\x00\x01\n]*\])\s*;?\s*\n$|^\s*//[^\x00\x01\n]*\n$|^\s*\n$`)
	dotEdge   = regexp.MustCompile(`^\s*("\x00"|\x01)\s*->\s*("\x00"|\x01)\s*(\[[^\[\]{}\x00\x01\n]*\]\s*)?;?\s*\n$`)
	dotFooter = regexp.MustCompile(`^\s*\}\s*$`)
)

func (s *Sem) dot(f *Frame) {
	c, e, b := s.c, s.e, s.e.bdd
	ws := s.stdoutWrites()
	if len(ws) == 0 {
		c.fail("graph printed", "-", s.fn, "nothing is written to standard output")
		return
	}
	to := ws[0].to
	for _, w := range ws {
		if w.to != to {
			c.failEff("one writer", w.ef, "the graph is written through more than one writer")
			return
		}
	}
	var header, footer *line
	var edges []line
	first, last := 1<<30, -1
	for _, l := range lines(ws) {
		l := l
		c.count("lines", 1)
		ef := l.writes[0].ef
		var shape strings.Builder
		for _, p := range l.pieces {
			switch {
			case p.term == nil:
				shape.WriteString(p.text)
			case p.verb == "q":
				shape.WriteString("\x01")
			default:
				shape.WriteString("\x00")
			}
		}
		// all or none of the line
		for _, w := range l.writes[1:] {
			x, y := ef.pc, w.ef.pc
			for _, u := range l.writes {
				if err := e.errOf(u.ef); err != nil {
					if v, ok := e.atomV[e.atomOf(e.Eq(err, e.Nil()))]; ok {
						x, y = b.Cofactor(x, v, true), b.Cofactor(y, v, true)
					}
				}
			}
			if ok, why := s.same(y, x, s.care(x, y)); !ok {
				c.failEff("complete lines", w.ef, "part of a line is written under another condition than its start: %s", why)
			}
		}
		text := shape.String()
		switch {
		case dotHeader.MatchString(text) && len(l.loops) == 0:
			if header != nil {
				c.failEff("one digraph", ef, "a second digraph is opened")
			}
			header = &l
		case dotFooter.MatchString(text) && len(l.loops) == 0:
			if footer != nil {
				c.failEff("one digraph", ef, "the digraph is closed a second time")
			}
			footer = &l
		case dotEdge.MatchString(text):
			edges = append(edges, l)
		case dotAttr.MatchString(text):
		default:
			c.failEff("line shape", ef, "the line %q is not a complete header, edge or footer of a digraph", strings.NewReplacer("\x00", "NAME", "\x01", `"NAME"`).Replace(text))
			continue
		}
		if !(header != nil && header.writes[0].ef == ef) && !(footer != nil && footer.writes[0].ef == ef) {
			if ef.seq < first {
				first = ef.seq
			}
			if n := l.writes[len(l.writes)-1].ef.seq; n > last {
				last = n
			}
		}
		c.okEff("line shape", ef)
		for _, p := range l.pieces {
			if p.term == nil {
				continue
			}
			c.count("names_printed", 1)
			for _, a := range e.alts(p.term) {
				if b.And(a.c, ef.pc) == False {
					continue
				}
				name := a.t
				if in, ok := escaped(a.t); ok && p.verb != "q" {
					name = in
				} else if p.verb != "q" && !plainName(a.t) {
					c.failEff("names escaped", ef, "the name %s is printed between quotes without escaping quotes and backslashes", s.short(a.t))
					continue
				}
				for _, x := range e.alts(name) {
					if b.And(a.c, x.c, ef.pc) != False && !ownName(x.t) {
						c.failEff("names escaped", ef, "the name printed is %s, not the plain name of a function or capability", s.short(x.t))
						continue
					}
					c.okEff("names escaped", ef)
				}
			}
		}
	}
	if header == nil || footer == nil || len(edges) == 0 {
		c.fail("one digraph", c.pos(posOf(ws[0].ef)), s.fn, "the output lacks a header, edges or a footer")
		return
	}
	h, ft := header.writes[0].ef, footer.writes[0].ef
	if h.seq > first || ft.seq < last || ft.seq < h.seq {
		c.failEff("one digraph", ft, "the edges are not all written between the header and the footer")
	} else {
		c.okEff("one digraph", h)
	}
	success := False
	for _, r := range f.rets {
		success = b.Or(success, b.And(r.st.pc, e.Cond(e.Eq(r.vals[len(r.vals)-1], e.Nil()))))
	}
	if x := b.And(success, b.Not(b.And(h.pc, ft.pc)), s.care(success, h.pc, ft.pc)); x != False {
		c.failEff("one digraph", ft, "success is reported without a complete digraph: %s", s.cube(x))
	}
	for _, l := range edges {
		for _, w := range l.writes {
			if len(w.ef.loops) > 0 {
				continue
			}
			if x := b.And(w.ef.pc, b.Not(b.And(h.pc, ft.pc)), s.care(w.ef.pc, h.pc, ft.pc)); x != False {
				c.failEff("one digraph", w.ef, "an edge is written without the rest of the digraph: %s", s.cube(x))
			}
		}
	}
	if to == nil || to.op != OCall {
		return // unbuffered
	}
	rule := "flushed"
	flushed := False
	for _, ef := range e.effects {
		if ef.name != "(*bufio.Writer).Flush" || ef.args[0] != to || ef.seq < ft.seq || len(ef.loops) > 0 {
			continue
		}
		flushed = b.Or(flushed, ef.pc)
		failed := b.And(ef.pc, b.Not(e.Cond(e.Eq(ef.res, e.Nil()))))
		if x := b.And(failed, success, s.care(failed, success)); x != False {
			c.failEff(rule, ef, "success is reported although the flush failed")
		} else {
			c.okEff(rule, ef)
		}
	}
	if x := b.And(success, b.Not(flushed), s.care(success, flushed)); x != False {
		c.failEff(rule, ft, "success is reported although the output was not flushed: %s", s.cube(x))
	}
}

// ownName: values that are the full name of a node of the graph.
func ownName(t *Term) bool {
	if strings.HasSuffix(typeString(t.typ), "ssa.Function") || strings.HasSuffix(typeString(t.typ), "proto.Capability") {
		return true // printed with its String method
	}
	if t.op != OCall {
		return false
	}
	switch {
	case t.aux == ssaFn+".String":
		return true
	case t.aux == ssaFn+".RelString" && len(t.args) == 2 && t.args[1].op == OConst && t.args[1].aux == "nil":
		return true
	}
	return plainName(t)
}

// plainName: values whose text has no quotes or backslashes.
func plainName(t *Term) bool {
	if t.op == OConst {
		v, ok := unquote(t)
		return ok && !strings.ContainsAny(v, "\"\\")
	}
	if t.op != OCall {
		return false
	}
	switch {
	case t.aux == "strconv.Itoa" || t.aux == "strconv.FormatInt":
		return true
	case strings.HasSuffix(t.aux, "proto.Capability).String"):
		return true
	}
	return false
}

func typeString(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}
