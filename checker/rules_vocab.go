package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register("C27", "The capability names and numbers in the schema file are taken as the vocabulary. The generated Go constants, "+
		"name and value tables and embedded descriptor, the headings of the user documentation, the description printed by the "+
		"revision tool for each capability and every capability name written as a string in the source are compared with it.", ruleC27)
}

// capabilityTopics are words of which one has to occur in what is said about
// a capability; they follow the definitions in the user documentation.
var capabilityTopics = map[string]string{
	"CAPABILITY_FILES":               `\bfiles?( ?system)?`,
	"CAPABILITY_NETWORK":             `\bnetwork`,
	"CAPABILITY_RUNTIME":             `\bruntime`,
	"CAPABILITY_READ_SYSTEM_STATE":   `\b(read|obtain|query|inspect)`,
	"CAPABILITY_MODIFY_SYSTEM_STATE": `\b(modif|chang|set|writ|alter)`,
	"CAPABILITY_OPERATING_SYSTEM":    `(\bos\b|operating system)`,
	"CAPABILITY_SYSTEM_CALLS":        `\b(system calls?|syscalls?)`,
	"CAPABILITY_ARBITRARY_EXECUTION": `\b(arbitrary|assembl)`,
	"CAPABILITY_CGO":                 `\b(cgo|native code|c code)`,
	"CAPABILITY_UNANALYZED":          `\b(cannot|can't|could not|unable|not) (be )?(effectively )?analy[sz]e`,
	"CAPABILITY_UNSAFE_POINTER":      `\bunsafe`,
	"CAPABILITY_REFLECT":             `\breflect`,
	"CAPABILITY_EXEC":                `\b(execut|run|os/exec|other programs)`,
}

// notReported are the values that stand for no capability.
var notReported = map[string]bool{"CAPABILITY_UNSPECIFIED": true, "CAPABILITY_SAFE": true}

// protoFile is what a schema declares.
type protoFile struct {
	enums    map[string]map[string]int
	messages map[string]map[string]string // message -> field -> "number label type"
}

func newProtoFile() *protoFile {
	return &protoFile{map[string]map[string]int{}, map[string]map[string]string{}}
}

var protoToken = regexp.MustCompile(`"(?:[^"\\]|\\.)*"|[A-Za-z_.][A-Za-z0-9_.]*|-?[0-9][0-9a-zA-Zx]*|[^\s]`)

// parseProto reads the declarations of a schema file.  problem is called for
// numbers or names used twice.
func parseProto(src string, problem func(line int, format string, a ...any)) *protoFile {
	// blank out comments
	src = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*`).ReplaceAllStringFunc(src, func(s string) string {
		return strings.Repeat("\n", strings.Count(s, "\n"))
	})
	type tok struct {
		s    string
		line int
	}
	var toks []tok
	for i, l := range strings.Split(src, "\n") {
		for _, s := range protoToken.FindAllString(l, -1) {
			toks = append(toks, tok{s, i + 1})
		}
	}
	p := newProtoFile()
	i := 0
	skip := func() { // to the end of a statement
		for depth := 0; i < len(toks); i++ {
			switch toks[i].s {
			case "{":
				depth++
			case "}":
				if depth--; depth == 0 {
					i++
					return
				}
			case ";":
				if depth == 0 {
					i++
					return
				}
			}
		}
	}
	at := func(k int) string {
		if i+k < len(toks) {
			return toks[i+k].s
		}
		return ""
	}
	var message func(prefix string)
	enum := func(prefix string) {
		name := prefix + at(1)
		e := map[string]int{}
		byNum := map[int]string{}
		p.enums[name] = e
		for i += 3; i < len(toks) && at(0) != "}"; {
			switch {
			case at(0) == "option" || at(0) == "reserved":
				skip()
			case at(1) == "=":
				n, err := strconv.ParseInt(at(2), 0, 32)
				if err != nil {
					problem(toks[i].line, "the number of %s is not an integer", at(0))
				}
				if _, ok := e[at(0)]; ok {
					problem(toks[i].line, "%s is defined twice", at(0))
				}
				if o, ok := byNum[int(n)]; ok {
					problem(toks[i].line, "%s has the number %d, which is already %s", at(0), n, o)
				}
				e[at(0)] = int(n)
				byNum[int(n)] = at(0)
				skip()
			default:
				i++
			}
		}
		i++
	}
	message = func(prefix string) {
		name := prefix + at(1)
		fs := map[string]string{}
		nums := map[string]string{}
		p.messages[name] = fs
		for i += 3; i < len(toks) && at(0) != "}"; {
			switch at(0) {
			case ";":
				i++
				continue
			case "message":
				message(name + ".")
				continue
			case "enum":
				enum(name + ".")
				continue
			case "option", "reserved", "extensions", "extend", "oneof":
				skip()
				continue
			}
			label := "optional"
			switch at(0) {
			case "optional", "repeated", "required":
				label = at(0)
				i++
			}
			typ := at(0)
			if typ == "map" && at(1) == "<" {
				typ = "map<" + at(2) + "," + at(4) + ">"
				label = "repeated"
				i += 5
			}
			f, num, line := at(1), at(3), toks[i].line
			if o, ok := nums[num]; ok {
				problem(line, "field %s has the number %s, which is already %s", f, num, o)
			}
			nums[num] = f
			fs[f] = num + " " + label + " " + typ
			skip()
		}
		i++
	}
	for i < len(toks) {
		switch at(0) {
		case "message":
			message("")
		case "enum":
			enum("")
		default:
			skip()
		}
	}
	return p
}

// wireFields decodes the fields of a serialised message.
func wireFields(b []byte) (fields map[int][][]byte, nums map[int][]uint64, ok bool) {
	fields, nums = map[int][][]byte{}, map[int][]uint64{}
	varint := func() (uint64, bool) {
		var v uint64
		for s := uint(0); len(b) > 0 && s < 64; s += 7 {
			x := b[0]
			b = b[1:]
			v |= uint64(x&0x7f) << s
			if x < 0x80 {
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		k, ok := varint()
		if !ok {
			return nil, nil, false
		}
		f := int(k >> 3)
		switch k & 7 {
		case 0:
			v, ok := varint()
			if !ok {
				return nil, nil, false
			}
			nums[f] = append(nums[f], v)
		case 2:
			n, ok := varint()
			if !ok || n > uint64(len(b)) {
				return nil, nil, false
			}
			fields[f] = append(fields[f], b[:n])
			b = b[n:]
		case 1, 5:
			n := 8
			if k&7 == 5 {
				n = 4
			}
			if len(b) < n {
				return nil, nil, false
			}
			b = b[n:]
		default:
			return nil, nil, false
		}
	}
	return fields, nums, true
}

var protoTypes = map[uint64]string{1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool",
	9: "string", 12: "bytes", 13: "uint32", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}

// decodeDescriptor reads a serialised file descriptor.
func decodeDescriptor(b []byte) (*protoFile, bool) {
	f, _, ok := wireFields(b)
	if !ok || len(f[1]) != 1 || !strings.HasSuffix(string(f[1][0]), ".proto") {
		return nil, false
	}
	pkg := ""
	if len(f[2]) == 1 {
		pkg = "." + string(f[2][0]) + "."
	}
	p := newProtoFile()
	one := func(f map[int][][]byte, k int) string {
		if len(f[k]) == 0 {
			return ""
		}
		return string(f[k][0])
	}
	num := func(n map[int][]uint64, k int) uint64 {
		if len(n[k]) == 0 {
			return 0
		}
		return n[k][0]
	}
	enum := func(prefix string, b []byte) bool {
		f, _, ok := wireFields(b)
		if !ok {
			return false
		}
		e := map[string]int{}
		for _, v := range f[2] {
			vf, vn, ok := wireFields(v)
			if !ok {
				return false
			}
			e[one(vf, 1)] = int(int32(num(vn, 2)))
		}
		p.enums[prefix+one(f, 1)] = e
		return true
	}
	var message func(prefix string, b []byte) bool
	message = func(prefix string, b []byte) bool {
		f, _, ok := wireFields(b)
		if !ok {
			return false
		}
		name := prefix + one(f, 1)
		fs := map[string]string{}
		p.messages[name] = fs
		for _, n := range f[3] {
			if !message(name+".", n) {
				return false
			}
		}
		for _, x := range f[4] {
			if !enum(name+".", x) {
				return false
			}
		}
		for _, x := range f[2] {
			ff, fn, ok := wireFields(x)
			if !ok {
				return false
			}
			typ := protoTypes[num(fn, 5)]
			if typ == "" {
				typ = strings.TrimPrefix(one(ff, 6), pkg)
			}
			label := map[uint64]string{1: "optional", 2: "required", 3: "repeated"}[num(fn, 4)]
			if e, ok := p.messages[typ]; ok && strings.HasSuffix(typ, "Entry") && label == "repeated" && strings.HasPrefix(typ, name+".") {
				// the entries of a map
				kt := strings.Fields(e["key"] + " ? ? ?")[2]
				vt := strings.Fields(e["value"] + " ? ? ?")[2]
				delete(p.messages, typ)
				typ = "map<" + kt + "," + vt + ">"
			}
			fs[one(ff, 1)] = fmt.Sprint(num(fn, 3)) + " " + label + " " + typ
		}
		return true
	}
	for _, x := range f[4] {
		if !message("", x) {
			return nil, false
		}
	}
	for _, x := range f[5] {
		if !enum("", x) {
			return nil, false
		}
	}
	return p, true
}

func ruleC27(c *Check) {
	dir := filepath.Join(c.prog.root, "proto")
	src, err := os.ReadFile(filepath.Join(dir, "capability.proto"))
	if err != nil {
		c.fail("schema", "-", "", "the schema cannot be read: %v", err)
		return
	}
	schema := parseProto(string(src), func(line int, format string, a ...any) {
		c.fail("schema", fmt.Sprintf("proto/capability.proto:%d", line), "", format, a...)
	})
	caps := schema.enums["Capability"]
	if !c.need("schema", "capabilities in the schema", len(caps), 15) {
		return
	}
	c.need("schema", "messages in the schema", len(schema.messages), 9)
	c.ok("schema", "proto/capability.proto: names and numbers are used once")
	c.count("capabilities", len(caps))
	for n := range capabilityTopics {
		if _, ok := caps[n]; !ok {
			c.fail("schema", "proto/capability.proto", "", "the capability %s is gone", n)
		}
	}
	for n := range notReported {
		if _, ok := caps[n]; !ok {
			c.fail("schema", "proto/capability.proto", "", "the value %s is gone", n)
		}
	}
	c.generated(schema)
	c.documented(caps)
	c.described(caps)
	c.namesWritten(caps, schema.enums["CapabilityType"])
}

// sameNames compares two tables of names and numbers.
func (c *Check) sameNames(rule, where, what string, got, want map[string]int) {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		g, ok1 := got[n]
		w, ok2 := want[n]
		switch {
		case !ok1:
			c.fail(rule, where, n, "%s has no %s", what, n)
		case !ok2:
			c.fail(rule, where, n, "%s has %s, which the schema does not", what, n)
		case g != w:
			c.fail(rule, where, n, "%s gives %s the number %d; the schema says %d", what, n, g, w)
		default:
			c.ok(rule, where+" "+n)
		}
	}
}

// generated compares the generated code with the schema.
func (c *Check) generated(schema *protoFile) {
	rule := "generated code"
	pkg := c.prog.byPkg[protoPath]
	if pkg == nil {
		c.fail(rule, "-", "", "package %s is gone", protoPath)
		return
	}
	scope := pkg.Types.Scope()
	info := pkg.TypesInfo
	inits := map[types.Object]ast.Expr{}
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR && g.Tok != token.CONST {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if i < len(vs.Values) {
						inits[info.Defs[n]] = vs.Values[i]
					}
				}
			}
		}
	}
	for enum, want := range schema.enums {
		goName := strings.ReplaceAll(enum, ".", "_")
		// constants
		got := map[string]int{}
		for _, n := range scope.Names() {
			k, ok := scope.Lookup(n).(*types.Const)
			if !ok || k.Type().String() != protoPath+"."+goName {
				continue
			}
			v, _ := constant.Int64Val(k.Val())
			got[strings.TrimPrefix(n, goName+"_")] = int(v)
		}
		c.sameNames(rule, "proto constants", "the constants of type "+goName, got, want)
		// tables
		for _, suffix := range []string{"_name", "_value"} {
			obj := scope.Lookup(goName + suffix)
			lit, ok := inits[obj].(*ast.CompositeLit)
			if obj == nil || !ok {
				c.fail(rule, "-", goName+suffix, "the table %s is gone", goName+suffix)
				continue
			}
			got := map[string]int{}
			for _, el := range lit.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				k, v := info.Types[kv.Key].Value, info.Types[kv.Value].Value
				if suffix == "_name" {
					k, v = v, k
				}
				if k == nil || v == nil || k.Kind() != constant.String {
					c.fail(rule, c.pos(kv.Pos()), goName+suffix, "undecided: an entry is not constant")
					continue
				}
				n, _ := constant.Int64Val(v)
				got[constant.StringVal(k)] = int(n)
			}
			c.sameNames(rule, c.pos(lit.Pos()), "the table "+goName+suffix, got, want)
		}
	}
	// the embedded descriptor
	found := 0
	for obj, x := range inits {
		var raw []byte
		switch {
		case obj == nil:
			continue
		case info.Types[x].Value != nil && info.Types[x].Value.Kind() == constant.String:
			raw = []byte(constant.StringVal(info.Types[x].Value))
		default:
			lit, ok := x.(*ast.CompositeLit)
			if !ok || obj.Type().String() != "[]byte" && obj.Type().String() != "[]uint8" {
				continue
			}
			for _, el := range lit.Elts {
				v := info.Types[el].Value
				if v == nil {
					raw = nil
					break
				}
				n, _ := constant.Int64Val(v)
				raw = append(raw, byte(n))
			}
		}
		d, ok := decodeDescriptor(raw)
		if !ok {
			continue
		}
		found++
		where := c.pos(obj.Pos())
		for _, enum := range sortedKeys(schema.enums) {
			c.sameNames(rule, where, "the embedded descriptor", d.enums[enum], schema.enums[enum])
		}
		for _, m := range sortedKeys(schema.messages) {
			fs := schema.messages[m]
			if d.messages[m] == nil {
				c.fail(rule, where, m, "the embedded descriptor has no message %s", m)
				continue
			}
			for _, f := range sortedKeys(fs) {
				want := fs[f]
				got := d.messages[m][f]
				// type names are written relative to the message
				if g, w := strings.Fields(got), strings.Fields(want); len(g) == 3 && len(w) == 3 && g[2] == m+"."+w[2] {
					got = want
				}
				if got != want {
					c.fail(rule, where, m, "the embedded descriptor has field %s.%s as %q; the schema says %q", m, f, got, want)
				} else {
					c.ok(rule, where+" "+m+"."+f)
				}
			}
			for _, f := range sortedKeys(d.messages[m]) {
				if _, ok := fs[f]; !ok {
					c.fail(rule, where, m, "the embedded descriptor has field %s.%s, which the schema does not", m, f)
				}
			}
		}
	}
	c.need(rule, "embedded descriptors", found, 1)
	// fields of the generated structures
	for _, m := range sortedKeys(schema.messages) {
		tn, ok := scope.Lookup(strings.ReplaceAll(m, ".", "_")).(*types.TypeName)
		if !ok {
			c.fail(rule, "-", m, "there is no type for message %s", m)
			continue
		}
		st, _ := tn.Type().Underlying().(*types.Struct)
		got := map[string]int{}
		want := map[string]int{}
		for i := 0; st != nil && i < st.NumFields(); i++ {
			tag := st.Tag(i)
			v := tagRE.FindStringSubmatch(tag)
			if v == nil {
				continue
			}
			n, _ := strconv.Atoi(v[1])
			got[v[2]] = n
		}
		for f, d := range schema.messages[m] {
			n, _ := strconv.Atoi(strings.Fields(d)[0])
			want[f] = n
		}
		c.sameNames(rule, c.pos(tn.Pos()), "the fields of "+tn.Name(), got, want)
	}
}

var tagRE = regexp.MustCompile(`protobuf:"[a-z0-9]+,([0-9]+),(?:[^"]*,)?name=([A-Za-z0-9_]+)`)

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// documented compares the user documentation with the vocabulary.
func (c *Check) documented(caps map[string]int) {
	rule := "documentation"
	const file = "docs/capabilities.md"
	src, err := os.ReadFile(filepath.Join(c.prog.root, file))
	if err != nil {
		c.fail(rule, "-", "", "the documentation cannot be read: %v", err)
		return
	}
	head := regexp.MustCompile(`^#+\s+\W*(CAPABILITY_[A-Z0-9_]+)\W*$`)
	other := regexp.MustCompile(`^#+\s`)
	name := regexp.MustCompile(`CAPABILITY_[A-Z0-9_]*[A-Z0-9]`)
	text := map[string]string{}
	at := map[string]int{}
	cur := ""
	for i, l := range strings.Split(string(src), "\n") {
		for _, n := range name.FindAllString(l, -1) {
			if _, ok := caps[n]; !ok {
				c.fail(rule, fmt.Sprintf("%s:%d", file, i+1), n, "the documentation mentions %s, which is not a capability", n)
			}
		}
		if m := head.FindStringSubmatch(l); m != nil {
			cur = m[1]
			if at[cur] != 0 {
				c.fail(rule, fmt.Sprintf("%s:%d", file, i+1), cur, "%s is described twice", cur)
			}
			at[cur] = i + 1
			continue
		}
		if other.MatchString(l) {
			cur = ""
		}
		if cur != "" {
			text[cur] += " " + l
		}
	}
	for _, n := range sortedKeys(caps) {
		where := fmt.Sprintf("%s:%d", file, at[n])
		switch {
		case at[n] == 0:
			c.fail(rule, file, n, "%s is not documented", n)
		case strings.TrimSpace(text[n]) == "":
			c.fail(rule, where, n, "nothing is said about %s", n)
		case !onTopic(n, text[n]):
			c.fail(rule, where, n, "what is said about %s describes something else", n)
		default:
			c.ok(rule, where+" "+n)
		}
	}
}

func onTopic(name, text string) bool {
	re := capabilityTopics[name]
	return re == "" || regexp.MustCompile(`(?is)`+re).MatchString(text)
}

// described checks what the revision tool prints about each capability.
func (c *Check) described(caps map[string]int) {
	rule := "descriptions printed"
	m := c.command("/cmd/capslock-git-diff")
	if m == nil {
		return
	}
	e := m.e
	n := 0
	for _, l := range lines(m.stdoutWrites()) {
		ef := l.writes[0].ef
		if len(ef.loops) == 0 {
			continue
		}
		in := ef.loops[len(ef.loops)-1]
		if in.container == nil {
			continue
		}
		k := m.q.elemOf(in.container, in)
		if in.kind == "map" {
			k = m.q.keyOf(in.container, in)
		}
		if k.typ == nil || k.typ.String() != protoPath+".Capability" {
			continue
		}
		named := false
		var desc []*Term
		for _, p := range l.pieces {
			if p.term == nil || e.Subst(p.term, map[*Term]*Term{k: e.mk(ONamed, "capability", k.typ)}) == p.term {
				continue
			}
			if m.capOfString(p.term) == k || m.nameLookup(p.term, k) {
				named = true
			} else {
				desc = append(desc, p.term)
			}
		}
		if len(desc) == 0 {
			continue
		}
		n++
		if !named {
			c.failEff(rule, ef, "a description is printed without the capability it is about")
		}
		for _, name := range sortedKeys(caps) {
			if notReported[name] {
				continue
			}
			v := e.Int(caps[name])
			text, ok := "", true
			for _, d := range desc {
				t, k := m.constAt(d, k, v)
				text += " " + t
				ok = ok && k
			}
			switch {
			case !ok:
				c.failEff(rule, ef, "undecided: the description of %s is not constant", name)
			case strings.TrimSpace(text) == "":
				c.failEff(rule, ef, "no description is printed for %s", name)
			case !onTopic(name, text):
				c.failEff(rule, ef, "the description printed for %s is about something else: %q", name, strings.TrimSpace(text))
			default:
				c.ok(rule, c.pos(posOf(ef))+" "+name)
			}
		}
	}
	c.need(rule, "places where capabilities are described", n, 1)
}

// nameLookup recognises the generated table of names.
func (m *command) nameLookup(t, k *Term) bool {
	if t.op != OLookup || unconv(t.args[1]) != k {
		return false
	}
	g := t.args[0]
	if g.op == ODeref {
		g = g.args[0]
	}
	return g.op == OGlobal && strings.HasSuffix(g.aux, "proto.Capability_name")
}

func unconv(t *Term) *Term {
	for t.op == OConv {
		t = t.args[0]
	}
	return t
}

// constAt is the text a term has when k has value v.
func (m *command) constAt(t, k, v *Term) (string, bool) {
	e := m.e
	t = e.Subst(t, map[*Term]*Term{k: v})
	out, ok := "", false
	for _, a := range e.alts(t) {
		n := a.c
		for _, v := range e.bdd.Support(n) {
			if x := e.atoms[v]; x.op == OIn && x.args[0].op == OObj {
				if _, in, ok := m.tableEntry(x.args[0], x.args[1]); ok {
					n = e.bdd.Cofactor(n, v, in)
				}
			}
		}
		if n == False {
			continue
		}
		x := a.t
		if x.op == OLookup && x.args[0].op == OObj {
			y, in, ok := m.tableEntry(x.args[0], x.args[1])
			if !ok {
				return "", false
			}
			x = e.Str("")
			if in {
				x = y
			}
		}
		s, k := unquote(x)
		if !k || ok && s != out {
			return "", false
		}
		out, ok = s, true
	}
	return out, ok
}

// tableEntry looks up a constant in a table the program fills with constant
// keys.
func (m *command) tableEntry(obj, key *Term) (v *Term, in, ok bool) {
	if len(m.q.mi.dels[obj])+len(m.q.mi.copys[obj]) > 0 || unconv(key).op != OConst {
		return nil, false, false
	}
	for _, ef := range append(m.e.initEffects, m.e.effects...) {
		if ef.kind != "mapset" || altCond(m.e, ef.args[0], obj) == False {
			continue
		}
		if len(ef.loops) > 0 && !sameLoops(ef.loops, obj.obj.(*ObjInfo).loops) || unconv(ef.args[1]).op != OConst {
			return nil, false, false
		}
		if unconv(ef.args[1]).aux == unconv(key).aux {
			if in {
				return nil, false, false
			}
			v, in = ef.args[2], true
		}
	}
	return v, in, true
}

// namesWritten checks capability names written as strings in the source.
func (c *Check) namesWritten(caps, kinds map[string]int) {
	rule := "names in the source"
	re := regexp.MustCompile(`^CAPABILITY_[A-Z0-9_]+$`)
	n := 0
	for _, pkg := range c.prog.pkgs {
		for _, f := range pkg.Syntax {
			ast.Inspect(f, func(x ast.Node) bool {
				l, ok := x.(*ast.BasicLit)
				if !ok || l.Kind != token.STRING {
					return true
				}
				s, err := strconv.Unquote(l.Value)
				if err != nil || !re.MatchString(s) {
					return true
				}
				n++
				_, ok1 := caps[s]
				_, ok2 := kinds[s]
				if !ok1 && !ok2 {
					c.fail(rule, c.pos(l.Pos()), s, "%q is not a capability", s)
				}
				return true
			})
		}
	}
	c.need(rule, "capability names written as strings", n, 30)
	c.count("capability names in the source", n)
	c.ok(rule, fmt.Sprintf("%d string literals", n))
}
