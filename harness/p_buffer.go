package main

import (
	"bytes"
	"fmt"
	"html"
	"math"
	"strconv"
	"strings"

	"github.com/viant/velty/est"
	"github.com/viant/velty/utils"
)

// C13: the output buffer holds exactly what was appended, in order; AppendInt writes what strconv writes

func init() {
	register(&Prop{
		ID:   "C13",
		Rule: "a case is a history of appends, resets and reads of one buffer of a random initial size, with or without escaping, compared after every step with a model that concatenates what strconv and html define, and numbers written in every base into a guarded window of memory; distinct by the history, or by number and base",
		Plans: []Plan{
			{Variant: "plain", Quick: 800000, Thorough: 8000000},
			{Variant: "checkptr", Quick: 6000, Thorough: 300000},
		},
		Case: func(c *Ctx) {
			if c.P(60) {
				caseBuffer(c)
			} else {
				caseAppendInt(c)
			}
		},
		Min: []string{"AppendInt", "AppendFloat", "AppendBool", "AppendString", "AppendByte", "AppendStringWithoutEscaping", "Reset", "buffer of size 0", "appended up to the last byte", "number in a base"},
	})
}

func caseBuffer(c *Ctx) {
	size := pick(c.Rand, 0, 1, 2, c.R(0, 80), c.R(0, 300), 64, 65, 66, 1024, 8192)
	escape := c.P(40)
	if size == 0 {
		c.Count("buffer of size 0", 1)
	}
	history := []string{fmt.Sprintf("NewBuffer(%d, %v)", size, escape)}
	var model []byte
	type kept struct{ got, want string }
	var strs []kept
	room := size
	panicked, stack := guard(func() {
		b := est.NewBuffer(size, escape)
		for n := c.R(1, 25); n > 0 && !c.failed; n-- {
			op := ""
			switch c.N(8) {
			case 0:
				v := c.Int()
				op = fmt.Sprintf("AppendInt(%d)", v)
				c.Count("AppendInt", 1)
				b.AppendInt(v)
				model = strconv.AppendInt(model, int64(v), 10)
			case 1:
				v := pick(c.Rand, float64(c.Int()), c.F(), -c.F()*1e9, 0, 1e-7, 1e21, 123456.789, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.NaN(), math.Float64frombits(c.U64()))
				op = fmt.Sprintf("AppendFloat(%v)", v)
				c.Count("AppendFloat", 1)
				b.AppendFloat(v)
				model = strconv.AppendFloat(model, v, 'f', -1, 64)
			case 2:
				v := c.P(50)
				op = fmt.Sprintf("AppendBool(%v)", v)
				c.Count("AppendBool", 1)
				b.AppendBool(v)
				model = strconv.AppendBool(model, v)
			case 3:
				v := byte(c.N(256))
				op = fmt.Sprintf("AppendByte(%d)", v)
				c.Count("AppendByte", 1)
				b.AppendByte(v)
				model = append(model, v)
			case 4, 5:
				v := bufferText(c, room-len(model))
				op = fmt.Sprintf("AppendString(%q)", clip(v, 60))
				c.Count("AppendString", 1)
				b.AppendString(v)
				if escape {
					v = html.EscapeString(v)
				}
				model = append(model, v...)
			case 6:
				v := bufferText(c, room-len(model))
				op = fmt.Sprintf("AppendStringWithoutEscaping(%q)", clip(v, 60))
				c.Count("AppendStringWithoutEscaping", 1)
				b.AppendStringWithoutEscaping(v)
				model = append(model, v...)
			case 7:
				op = "Reset()"
				c.Count("Reset", 1)
				b.Reset()
				model = model[:0]
			}
			if len(model) == room && room > 0 {
				c.Count("appended up to the last byte", 1)
			}
			if len(model) > room {
				room = len(model) + len(model)/2
			}
			history = append(history, op)
			c.Desc("%s", strings.Join(history, "; "))
			if got := b.Bytes(); !bytes.Equal(got, model) {
				c.Violate("content", "after %s: %s", op, firstDiff(string(model), string(got)))
			}
			s := b.String()
			if s != string(model) {
				c.Violate("content", "String() after %s: %s", op, firstDiff(string(model), s))
			}
			strs = append(strs, kept{s, string(model)})
		}
		for _, k := range strs {
			if k.got != k.want {
				c.Violate("returned text changed", "%s", firstDiff(k.want, k.got))
			}
		}
	})
	if panicked != nil {
		c.Desc("%s", strings.Join(history, "; "))
		c.Violate("panic", "%v at %s", panicked, stack)
	}
	c.Saw(strings.Join(history, ";"))
	c.Sample("%s => %q", strings.Join(history, "; "), clip(string(model), 200))
}

// bufferText returns texts whose length is often what is left in the buffer
func bufferText(c *Ctx, left int) string {
	n := c.R(0, 20)
	if left > 0 && c.P(50) {
		n = left + c.R(-1, 1)
	} else if c.P(5) {
		n = c.R(0, 5000)
	}
	if n > 20000 {
		n = 20000
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = pick(c.Rand, 'a', 'b', 'Z', ' ', '<', '>', '&', '"', '\'', 0, byte(c.N(256)))
	}
	return string(b)
}

func caseAppendInt(c *Ctx) {
	for k := 0; k < 40; k++ {
		base := c.R(2, 36)
		v := int64(c.Int())
		switch c.N(4) {
		case 0: // powers of the base and their neighbours
			p := int64(1)
			for e := c.N(64); e > 0 && p <= math.MaxInt64/int64(base); e-- {
				p *= int64(base)
			}
			v = pick(c.Rand, p, p-1, p+1, -p, -p-1, 1-p)
		case 1:
			base = 10
		}
		pre, n, post := c.N(9), pick(c.Rand, 65, 66, c.R(65, 200)), c.N(9)
		mem := make([]byte, pre+n+post)
		for i := range mem {
			mem[i] = byte(i*7) | 1
		}
		orig := append([]byte{}, mem...)
		c.Desc("AppendInt(make([]byte, %d), %d, %d)", n, v, base)
		var size int
		if panicked, stack := guard(func() { size = utils.AppendInt(mem[pre:pre+n:pre+n], v, base) }); panicked != nil {
			c.Violate("panic", "%v at %s", panicked, stack)
			return
		}
		want := strconv.FormatInt(v, base)
		if size != len(want) || string(mem[pre:pre+len(want)]) != want {
			c.Violate("number", "wrote %q (size %d), expected %q", clip(string(mem[pre:pre+n]), 80), size, want)
			return
		}
		if !bytes.Equal(mem[:pre], orig[:pre]) || !bytes.Equal(mem[pre+n:], orig[pre+n:]) {
			c.Violate("outside", "bytes outside of the destination were written")
			return
		}
		c.Count("number in a base", 1)
		c.Saw(fmt.Sprint("int", v, base))
	}
}
