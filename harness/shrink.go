package main

import "reflect"

// Shrinking makes the reports readable, it takes no part in a verdict.

type edit struct{ apply, undo func() }

func editsOfBlock(b *[]Stmt, out *[]edit) {
	for i := range *b {
		i := i
		orig := *b
		*out = append(*out, edit{
			apply: func() {
				n := append([]Stmt{}, orig[:i]...)
				*b = append(n, orig[i+1:]...)
			},
			undo: func() { *b = orig },
		})
		switch a := (*b)[i].(type) {
		case *If:
			for k := range a.Blocks {
				inner := a.Blocks[k]
				*out = append(*out, splice(b, i, inner))
			}
			*out = append(*out, splice(b, i, a.Else))
		case *Each:
			*out = append(*out, splice(b, i, a.Body))
		case *For:
			*out = append(*out, splice(b, i, a.Body))
		case *Eval:
			*out = append(*out, splice(b, i, a.Body))
		}
	}
	for _, s := range *b {
		switch a := s.(type) {
		case *If:
			for k := range a.Blocks {
				editsOfBlock(&a.Blocks[k], out)
				editsOfExpr(&a.Conds[k], out)
			}
			editsOfBlock(&a.Else, out)
		case *Each:
			editsOfBlock(&a.Body, out)
		case *For:
			editsOfBlock(&a.Body, out)
		case *Set:
			editsOfExpr(&a.E, out)
			editsOfPath(a.Target, out)
		case *Out:
			editsOfPath(a.P, out)
		case *Text:
			orig := a.S
			if orig != "~" {
				*out = append(*out, edit{func() { a.S = "~" }, func() { a.S = orig }})
			}
		}
	}
}

func splice(b *[]Stmt, i int, inner []Stmt) edit {
	orig := *b
	return edit{
		apply: func() {
			n := append([]Stmt{}, orig[:i]...)
			n = append(n, inner...)
			*b = append(n, orig[i+1:]...)
		},
		undo: func() { *b = orig },
	}
}

func editsOfPath(p *Path, out *[]edit) {
	if p.Call != nil {
		for i := range p.Call.Args {
			editsOfExpr(&p.Call.Args[i], out)
		}
	}
	for _, s := range p.Steps {
		if s.Call != nil {
			for i := range s.Call.Args {
				editsOfExpr(&s.Call.Args[i], out)
			}
		}
	}
}

func editsOfExpr(e *Expr, out *[]edit) {
	orig := *e
	t := typeOf(orig)
	replace := func(x Expr) {
		if typeOf(x) == t {
			*out = append(*out, edit{func() { *e = x }, func() { *e = orig }})
		}
	}
	switch a := orig.(type) {
	case *Bin:
		replace(a.X)
		replace(a.Y)
		editsOfExpr(&a.X, out)
		editsOfExpr(&a.Y, out)
	case *Not:
		replace(a.X)
		editsOfExpr(&a.X, out)
	case *Paren:
		replace(a.X)
		editsOfExpr(&a.X, out)
	case *Path:
		editsOfPath(a, out)
	}
	if l, ok := orig.(*Lit); !ok || len(l.Text) > 3 {
		switch t {
		case tInt:
			replace(intLit(1))
		case tString:
			replace(strLit("s"))
		case tBool:
			replace(boolLit(true))
		case tFloat:
			replace(floatLit("1.5"))
		}
	}
}

func (p *Program) refresh() {
	p.Src = source(nil, p.Body)
	var walk func(b []Stmt)
	walk = func(b []Stmt) {
		for _, s := range b {
			switch a := s.(type) {
			case *If:
				for _, x := range a.Blocks {
					walk(x)
				}
				walk(a.Else)
			case *Each:
				walk(a.Body)
			case *For:
				walk(a.Body)
			}
		}
	}
	walk(p.Body)
}

// shrink reduces the program while fails tells it still fails
func shrink(p *Program, fails func(p *Program) bool) {
	src := p.Src
	p.refresh()
	if !fails(p) {
		p.Src = src
		return
	}
	for budget := 600; budget > 0; {
		var edits []edit
		editsOfBlock(&p.Body, &edits)
		progress := false
		for _, e := range edits {
			if budget--; budget <= 0 {
				break
			}
			e.apply()
			p.refresh()
			still := false
			if pn, _ := guard(func() { still = fails(p) }); pn != nil {
				still = false
			}
			if still {
				progress = true
				break
			}
			e.undo()
		}
		if !progress {
			break
		}
	}
	p.refresh()
	_ = reflect.Value{}
}
