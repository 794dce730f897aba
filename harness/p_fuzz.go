package main

import (
	"bytes"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/parser"
)

// C11: parsing and compiling terminate without a panic for any bytes, leave them alone and always give the same result

func init() {
	register(&Prop{
		ID:   "C11",
		Rule: "a case is a byte string: random bytes, random tokens of the language, or a generated template damaged by up to 8 edits (bytes, tokens, spans deleted, doubled, swapped, truncated, spliced with another template), or constructs nested up to 120 deep, or a template with an unclosed, surplus or misplaced block directive, which has to be rejected; it is parsed and compiled twice by independent planners: no panic, bounded time and memory, input untouched, same tree or error both times; distinct by the input, non-trivial when it has a directive or reference",
		Plans: []Plan{
			{Variant: "plain", Quick: 100000, Thorough: 8000000},
			{Variant: "checkptr", Quick: 8000, Thorough: 300000},
		},
		Case: caseFuzz,
		Min:  []string{"compiled", "rejected by the parser", "rejected by the compiler", "random bytes", "random tokens", "damaged template", "unbalanced blocks", "deep nesting"},
	})
}

var fuzzTokens = []string{"#", "$", "#if", "#if(", "#elseif(", "#else", "#{else}", "#end", "#{end}", "#foreach(", "#foreach ($i in $ints)", "#for(", "#for($i=0;$i<3;$i++)", "#set(", "#set($x = ", "#evaluate(", "#evaluate($s)", "##", "#[[", "]]#", "(", ")", "[", "]", "{", "}", "${", "$!", "$!{", "$n", "$s", "$f", "$b", "$h", "$h.A", "$h.In.N", "$hp.P.N", "$ints[0]", "$ints[$n]", "$mm[\"a\"]", "$strs", ".", "..", "...", "[1...3]", ",", ";", ":", "=", "==", "!=", "!", "<", ">", "<=", ">=", "&&", "||", "&", "|", "+", "-", "*", "/", "++", "--", "+=", "-=", "*=", "/=", "\"", "\"a\"", "'", "0", "1", "12", "-3", "1.5", ".5", "5.", "true", "false", "in", " in ", "nil", "null", " ", "\n", "\t", "\r\n", "\\", "x", "_", "é", "\x00", "\xff", "$upperCase(", "$inc(", ".Label(", ".Sum(1)", "$n.inc()", "$h.Label(\"a\")", "@", "%", "^", "~", "`", "?", "a", "word", "$$", "##\n", "#*", "*#", "#macro", "#stop"}

func (r *Rand) fuzzBytes() []byte {
	b := make([]byte, r.N(pick(r, 3, 8, 20, 60)))
	for i := range b {
		switch r.N(3) {
		case 0:
			b[i] = byte(r.U64())
		case 1:
			b[i] = "#${}()[]\"'.,;=!<>&|+-*/ \n\t0123456789aefginors\\"[r.N(46)]
		default:
			b[i] = byte(' ' + r.N(95))
		}
	}
	return b
}

func (r *Rand) fuzzTokensOf() []byte {
	var b bytes.Buffer
	for n := r.N(pick(r, 4, 10, 25)); n >= 0; n-- {
		b.WriteString(fuzzTokens[r.N(len(fuzzTokens))])
	}
	return b.Bytes()
}

// deep nests constructs of the language far deeper than templates are, closed or not, around something readable or not
func (r *Rand) deep() []byte {
	units := [][2]string{{"(", ")"}, {"1 + (", ")"}, {"$n == (", ")"}, {"$b && (", ")"}, {"!(", ")"}, {"$inc(", ")"}, {"$inc(1 + ", ")"}, {"$upperCase(\"", "\")"}, {"$ints[", "]"}, {"$mm[", "]"}, {"\"", "\""},
		{"$h.Sum(", ")"}, {"$h.Sum(1, ", ", 2)"}, {"${", "}"}, {"(1 + 2) * (", ") - 1"}, {"1 < ", ""}, {"\"a\" + (", ") + \"b\""}, {"-(", ")"}, {"$h.In", ".N"}, {"[", "]"}, {"{", "}"}}
	if r.P(30) {
		units = [][2]string{{"#if($b)", "#end"}, {"#if($b) a #else ", "#end"}, {"#if($n > 1)#elseif($b)", "#end"}, {"#foreach($i in $ints)", "#end"}, {"#for($i=0;$i<2;$i++)", "#end"}, {"#{", "}"}, {"${", "}"}, {"#[[", "]]#"}, {"#", ""}, {"$", ""}, {"#if($b)", ""}, {"", "#end"}, {"##", "\n"}, {"#set($x = 1)", ""}}
	}
	first, second := pick(r, units...), pick(r, units...)
	depth := r.R(2, pick(r, 12, 50, 120))
	inner := pick(r, "1", "1", "?", "", "$n", "true", "\"a\"", "1 2", "$", "#")
	var open, closed string
	for i := 0; i < depth; i++ {
		u := first
		if r.P(20) {
			u = second
		}
		open += u[0]
		closed = u[1] + closed
	}
	switch r.N(5) { // some of what closes is missing, or there is more of it
	case 0:
		closed = closed[r.N(len(closed)+1):]
	case 1:
		closed = closed[:r.N(len(closed)+1)]
	case 2:
		closed += closed
	}
	around := pick(r, [2]string{"", ""}, [2]string{"", ""}, [2]string{"#if(", ")a#end"}, [2]string{"#set($x = ", ")$x"}, [2]string{"#foreach($i in ", ")a#end"}, [2]string{"#for($i = 0; $i < ", "; $i++)#end"}, [2]string{"#evaluate(", ")"}, [2]string{"$inc(", ")"})
	return []byte(around[0] + open + inner + closed + around[1])
}

func (r *Rand) damage(src []byte, other []byte) []byte {
	b := append([]byte{}, src...)
	for n := r.R(1, pick(r, 1, 2, 4, 8)); n > 0; n-- {
		at := r.N(len(b) + 1)
		end := at + r.N(min(len(b)-at+1, 12))
		switch r.N(9) {
		case 0: // delete
			b = append(b[:at:at], b[end:]...)
		case 1: // double
			b = append(b[:end:end], b[at:]...)
		case 2: // insert a token
			b = append(b[:at:at], append([]byte(fuzzTokens[r.N(len(fuzzTokens))]), b[at:]...)...)
		case 3: // replace by a token
			b = append(b[:at:at], append([]byte(fuzzTokens[r.N(len(fuzzTokens))]), b[end:]...)...)
		case 4: // change a byte
			if at < len(b) {
				b[at] = byte(r.U64())
			}
		case 5:
			b = b[:at]
		case 6:
			b = b[at:]
		case 7: // splice
			b = append(b[:at:at], other[r.N(len(other)+1):]...)
		default: // move
			cut := append([]byte{}, b[at:end]...)
			b = append(b[:at:at], b[end:]...)
			to := r.N(len(b) + 1)
			b = append(b[:to:to], append(cut, b[to:]...)...)
		}
	}
	return b
}

// a range is a list made when the template is compiled: its size is up to the author of the template
var hugeRange = regexp.MustCompile(`[0-9]{5,}`)

func caseFuzz(c *Ctx) {
	g := newGen(c.Rand)
	program := func() []byte {
		cp := &Gen{Rand: c.Rand, hosts: g.hosts, fns: g.fns, evalBody: g.evalBody, evalSrc: g.evalSrc, blockSize: 3}
		for _, v := range g.vars {
			s := *v
			cp.vars = append(cp.vars, &s)
		}
		return []byte(source(c.Rand, cp.block(2)))
	}
	var src []byte
	kind := ""
	switch c.N(7) {
	case 6:
		kind = "deep nesting"
		src = c.deep()
	case 5:
		kind = "unbalanced blocks"
		a, b := string(program()), string(program())
		wrong := []string{
			a + "\n#end\n" + b, a + "\n#else\n" + b, a + "\n#elseif($b)\n" + b + "\n#end", a + "\n#if($b)" + b, a + "\n#if($b)" + b + "\n#else " + a,
			"#foreach($q in $ints)" + a + "\n", a + "\n#for($q=0;$q<3;$q++)" + b + "\n", a + "\n#foreach($q in $ints)" + b + "\n#else\n" + a + "\n#end",
			"#if($b)" + a + "\n#foreach($q in [1...3]) " + b + "\n#end", "#for($q=0;$q<3;$q++)" + a + "\n#else x\n#end\n" + b, "#if($b)" + a + "\n#else\n" + b + "\n#end\n#end", "#if($b)" + a + "\n#elseif($b)\n" + b,
		}
		src = []byte(wrong[c.N(len(wrong))])
	case 0:
		kind = "random bytes"
		src = c.fuzzBytes()
	case 1:
		kind = "random tokens"
		src = c.fuzzTokensOf()
	default:
		kind = "damaged template"
		src = c.damage(program(), program())
	}
	if bytes.Contains(src, []byte("...")) && hugeRange.Match(src) {
		return
	}
	c.Count(kind, 1)
	if result := judgeBytes(c, src, g); kind == "unbalanced blocks" && result != "" && !strings.HasPrefix(result, "parser: ") {
		c.Violate("unbalanced blocks", "a template whose blocks are not balanced was accepted: %s", clip(result, 300))
	}
}

func judgeBytes(c *Ctx, src []byte, g *Gen) string {
	c.Desc("%q", src)
	orig := append([]byte{}, src...)
	var results [2]string
	for i := range results {
		var err error
		var tree string
		panicked, stack := guard(func() {
			block, perr := parser.Parse(src)
			if err = perr; err == nil {
				tree = astString(reflect.ValueOf(block), 0)
			}
		})
		if panicked != nil {
			c.Violate("panic in the parser", "%v at %s", panicked, stack)
			return ""
		}
		if err != nil {
			tree = "parser: " + errText(err)
		} else {
			panicked, stack = guard(func() {
				pl := velty.New()
				for _, n := range sortedKeys(g.fns) {
					if err = pl.RegisterFunction(n, g.fns[n].fn); err != nil {
						return
					}
				}
				for _, n := range sortedKeys(g.hosts) {
					if err = pl.DefineVariable(n, g.hosts[n].Type()); err != nil {
						return
					}
				}
				exec, newState, cerr := pl.Compile(src)
				if err = cerr; err == nil && (exec == nil || newState == nil || newState() == nil) {
					c.Violate("nothing", "Compile returned neither an error nor an execution")
				}
			})
			if panicked != nil {
				c.Violate("panic in the compiler", "%v at %s", panicked, stack)
				return ""
			}
			if err != nil {
				tree += "compiler: " + errText(err)
			}
		}
		if !bytes.Equal(orig, src) {
			c.Violate("input", "the template was changed from %q to %q", orig, src)
			return ""
		}
		results[i] = tree
	}
	if results[0] != results[1] {
		c.Violate("not deterministic", "%s", firstDiff(results[0], results[1]))
		return ""
	}
	switch {
	case strings.HasPrefix(results[0], "parser: "):
		c.Count("rejected by the parser", 1)
	case strings.Contains(results[0], "compiler: "):
		c.Count("rejected by the compiler", 1)
	default:
		c.Count("compiled", 1)
	}
	if bytes.ContainsAny(src, "#$") {
		c.Saw(string(src))
	}
	c.Sample("%q => %s", clip(string(src), 250), clip(results[0], 250))
	return results[0]
}

var address = regexp.MustCompile(`0x(c0[0-9a-f]{8}|[0-9a-f]{6,})`)

func errText(err error) string { return address.ReplaceAllString(err.Error(), "0x") }

// astString writes a tree with all it holds
func astString(v reflect.Value, depth int) string {
	if depth > 2000 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Type().Implements(reflect.TypeOf((*reflect.Type)(nil)).Elem()) {
			return fmt.Sprint(v.Interface())
		}
		return v.Elem().Type().Name() + astString(v.Elem(), depth+1)
	case reflect.Struct:
		var b strings.Builder
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":" + astString(v.Field(i), depth+1) + " ")
		}
		return b.String() + "}"
	case reflect.Slice:
		var b strings.Builder
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			b.WriteString(astString(v.Index(i), depth+1) + " ")
		}
		return b.String() + "]"
	}
	return fmt.Sprintf("%#v", v.Interface())
}
