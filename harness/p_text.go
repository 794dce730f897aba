package main

import (
	"fmt"
	"strings"

	"github.com/viant/velty"
)

// C02: what is not a directive, a reference or a comment is copied to the output byte by byte

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "a case is a template put together of pieces whose output is known: arbitrary bytes, raw blocks, comments, values and what stands right next to them, source of undefined references, conditionals, loops and sets around them; the output has to be the concatenation; distinct by source",
		Plans: []Plan{
			{Variant: "plain", Quick: 480000, Thorough: 6000000},
		},
		Case: caseText,
		Min:  []string{"text", "raw", "comment", "undefined", "malformed", "block", "special", "value"},
	})
}

var keywordsOf = []string{"if", "elseif", "else", "set", "foreach", "for", "evaluate", "end"}

// plainBytes is text that does not start a directive or a reference, whatever follows starts with the given byte class
func (r *Rand) plainBytes(c *Ctx) string {
	var b strings.Builder
	n := r.R(1, 12)
	if r.N(40) == 0 {
		n = r.R(100, 3000)
	}
	for ; n > 0; n-- {
		switch k := r.N(20); {
		case k < 8:
			b.WriteString(pick(r, "a", "Z", "q", "0", "9", " ", "_", "word", "end", "if", "else", "\n", "\t", "\r\n"))
		case k < 13:
			b.WriteString(pick(r, "(", ")", "[", "]", "{", "}", "\"", "'", "\\", ".", ",", ";", ":", "!", "=", "<", ">", "&", "|", "*", "/", "+", "-", "%", "@", "^", "~", "`", "?"))
		case k < 16: // any byte
			x := byte(r.N(256))
			if x == '#' || x == '$' {
				x = 'x'
			}
			b.WriteByte(x)
		case k < 17:
			b.WriteString(pick(r, "é", "日本", "\xff", "\x00", "🙂", "<b>x</b>", "%d %s %v %!", "]]", "[["))
		case k < 18: // a dollar that starts nothing
			b.WriteString("$" + pick(r, " ", "1", "9a", "_x", "$ ", ".", "(", ")", "-", "!1", "! ", "{ }", "{1}", "{}", "é", "\"", ",", "\n"))
			c.Count("special", 1)
		case k < 20: // a hash that starts nothing
			b.WriteString("#" + pick(r, " .", " \t;", "1", "abc ", "(x)", ")", "-", ".", "x", "mark ", "macro ", "*c*", "@", "!", "é", "\n/", "e ", "se ", "fo ", "i ", "el ", "parse ", "'", "[ ", "[x]", "{x}", "{ }"))
			c.Count("special", 1)
		}
	}
	return b.String() + pick(r, "~", ".", " ", "\n", ",") // not a dollar, a hash or a part of a keyword
}

func (r *Rand) rawText() string {
	s := ""
	for n := r.N(6); n > 0; n-- {
		s += pick(r, "$x", "#if($a)", "#end", " ", "text", "]", "[1]", "## c", "#set($a = 1)", "\n", "${b.c}", "é", "\"", "(", "{", "}", "]]", "#", "[", "it's", "\\")
	}
	return strings.ReplaceAll(s, "]]#", "] ]#")
}

// piece returns the source of a random piece of a template, and what it renders to
func (r *Rand) piece(c *Ctx, depth int) (string, string) {
	k := r.N(20)
	switch {
	case k < 8:
		s := r.plainBytes(c)
		c.Count("text", 1)
		return s, s
	case k < 10:
		s := r.rawText()
		c.Count("raw", 1)
		return "#[[" + s + "]]#", s
	case k < 12:
		c.Count("comment", 1)
		return "##" + pick(r, "", " a note", " $x #if(true) #end", "# #", " \"(", "é\xff") + "\n", ""
	case k < 14:
		if r.P(45) { // a value, and what stands next to it
			ref, want := "", ""
			for n := r.R(1, 3); n > 0; n-- {
				i := r.N(len(textVars))
				v := textVars[i]
				ref += pick(r, "$"+v.name, "${"+v.name+"}", "$!"+v.name, "$!{"+v.name+"}")
				want += v.value
				if r.P(30) {
					s := pick(r, " ", ",", "~", ")", "\n", "\"")
					ref, want = ref+s, want+s
				}
			}
			s := pick(r, " ", ",", "~", ")", "]", "\n", "\"", "'", "<", "=", "/", "$ ", "$,", "$1", "$$ ", "$\n", "$. ", "$)", "$", "#1", "# ~", "#. ", "#", "##1", "##x\n#", ": $", "é$", "\xff")
			if strings.HasSuffix(s, "$") || strings.HasSuffix(s, "#") { // what follows is known
				s += pick(r, "~", ";", ",", "9", ")")
			}
			c.Count("value", 1)
			if s == "##1" {
				return ref + s + "\n", want
			}
			if strings.HasPrefix(s, "##x\n") {
				return ref + s, want + s[4:]
			}
			return ref + s, want + s
		}
		if r.P(30) { // a directive that can't be read is text
			s := pick(r, "#set($n = 1 2)", "#evaluate($q x)", "$inc(1 2)", "#set($n)", "#set(n = 1)", "#foo(1)", "#{set}($n = 3)", "#set($q.y = )", "#{x}", "$q[1 2]", "$q.f(1 2)")
			c.Count("malformed", 1)
			return s + " ", s + " "
		}
		s := pick(r, "$nobody", "${nobody}", "$Other", "${x_1}", "$a9", "$zz", "${A.b}", "$a-b", "$!q", "$!{q}", "$q.A.B", "$!{q.A}", "$q[0].A", "$q.f($r, \"a\")[3].B",
			"${q.f(1)}", "$q[\"a b\"]", "$q.$r", "$q.f(\"$x\", \"#end\")", "$f(1)", "$!f()", "$q$r", "${q}$r", "$q[$r[$s]]")
		c.Count("undefined", 1)
		return s + " ", s + " "
	case depth > 0:
		src, want := r.pieces(c, depth-1)
		src2, want2 := r.pieces(c, depth-1)
		end := pick(r, "#end", "#end", "#{end}")
		c.Count("block", 1)
		switch r.N(8) {
		case 0:
			return "#if(true)" + src + end, want
		case 1:
			return "#if( false )" + src + end, ""
		case 2:
			return "#if(1 > 2)" + src + "#{else}" + src2 + end, want2
		case 3:
			return "#if (\"a\" == \"a\")" + src + "#elseif(true)" + src2 + end, want
		case 4:
			n := r.N(4)
			return fmt.Sprintf("#foreach($i in [0...%d])", n) + src + end, strings.Repeat(want, n)
		case 5:
			n := r.N(4)
			return fmt.Sprintf("#for($k%d = 0; $k%d < %d; $k%d++)", depth, depth, n, depth) + src + end, strings.Repeat(want, n)
		case 6:
			return fmt.Sprintf("#set($v = %d)", r.N(9)) + src, want
		case 7:
			return "#if(false)" + src2 + "#elseif(false)" + src + "#else~" + src2 + end, "~" + want2
		}
	}
	return "", ""
}

func (r *Rand) pieces(c *Ctx, depth int) (string, string) {
	var src, want strings.Builder
	for n := r.N(5); n > 0; n-- {
		s, w := r.piece(c, depth)
		src.WriteString(s)
		want.WriteString(w)
	}
	return src.String(), want.String()
}

var textVars = []struct{ name, value string }{{"num", "7"}, {"title", "a title"}, {"empty", ""}, {"cash", "$5 #1"}, {"U1", "x"}}

func caseText(c *Ctx) {
	src, want := c.pieces(c, 3)
	for c.P(40) {
		s, w := c.pieces(c, 2)
		src, want = src+s, want+w
	}
	switch c.N(8) { // the last bytes of a template
	case 0:
		src, want = src+"$", want+"$"
	case 1:
		src, want = src+"#", want+"#"
	case 2:
		src += "## the end"
	case 3:
		src, want = src+"$last", want+"$last"
	}
	c.Desc("template: %q", src)
	out, err := renderOnce(src, velty.BufferSize(pick(c.Rand, 0, 1, 16, 1024)), velty.EscapeHTML(false))
	if err != nil {
		c.Violate("error", "%v", err)
		return
	}
	if out != want {
		c.Violate("output", "%s", firstDiff(want, out))
		return
	}
	if src != "" {
		c.Saw(src)
	}
	c.Count("bytes compared", len(want))
	c.Sample("%q => %q", src, want)
}

func renderOnce(src string, options ...velty.Option) (string, error) {
	pl := velty.New(options...)
	for _, v := range textVars {
		if err := pl.DefineVariable(v.name, ""); err != nil {
			return "", err
		}
	}
	exec, newState, err := pl.Compile([]byte(src))
	if err != nil {
		return "", err
	}
	st := newState()
	for _, v := range textVars {
		if err = st.SetValue(v.name, v.value); err != nil {
			return "", err
		}
	}
	if err = exec.Exec(st); err != nil {
		return "", err
	}
	return st.Buffer.String(), nil
}
