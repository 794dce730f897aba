package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

// Program is a generated template with the data it runs on
type Program struct {
	Body  []Stmt
	Src   string
	Hosts map[string]reflect.Value
	Fns   map[string]*testFunc
}

func (p *Program) names() []string {
	var names []string
	for n := range p.Hosts {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

type compiled struct {
	planner *velty.Planner
	exec    *est.Execution
	state   func() *est.State
}

func (p *Program) planner(options ...velty.Option) (*velty.Planner, error) {
	pl := velty.New(options...)
	for _, name := range sortedKeys(p.Fns) {
		if err := pl.RegisterFunction(name, p.Fns[name].fn); err != nil {
			return nil, err
		}
	}
	for _, n := range p.names() {
		if err := pl.DefineVariable(n, p.Hosts[n].Type()); err != nil {
			return nil, err
		}
	}
	return pl, nil
}

func sortedKeys[V any](m map[string]V) []string {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

func (p *Program) compile(options ...velty.Option) (*compiled, error) {
	pl, err := p.planner(options...)
	if err != nil {
		return nil, err
	}
	exec, state, err := pl.Compile([]byte(p.Src))
	if err != nil {
		return nil, err
	}
	return &compiled{pl, exec, state}, nil
}

// fillState sets the host values on a state
func fillState(st *est.State, hosts map[string]reflect.Value) error {
	for _, n := range sortedKeys(hosts) {
		if err := st.SetValue(n, hosts[n].Interface()); err != nil {
			return err
		}
	}
	return nil
}

func copyHosts(hosts map[string]reflect.Value) map[string]reflect.Value {
	seen := map[interface{}]reflect.Value{}
	res := map[string]reflect.Value{}
	for _, n := range sortedKeys(hosts) {
		res[n] = deepCopy(hosts[n], seen)
	}
	return res
}

// reference interprets the program on its own copy of the data
func (p *Program) reference(escape bool) (in *Interp, hosts map[string]reflect.Value, ok bool, failure string) {
	hosts = copyHosts(p.Hosts)
	in = NewInterp(escape, p.Fns)
	for n, v := range hosts {
		in.define(n, v.Type())
		in.vars[n].Set(v)
	}
	ok, failure = in.Run(p.Body)
	return in, hosts, ok, failure
}

func describeHosts(hosts map[string]reflect.Value, src string) string {
	out := ""
	for _, n := range sortedKeys(hosts) {
		if !mentions(src, n) {
			continue
		}
		s := renderValue(hosts[n])
		if hosts[n].Kind() == reflect.String {
			s = fmt.Sprintf("%q", s)
		}
		out += n + "=" + clip(s, 700) + "\n"
	}
	return out
}

func mentions(src, name string) bool {
	for i := 0; i+len(name) <= len(src); i++ {
		if src[i:i+len(name)] == name && (i == 0 || !isLetter(src[i-1])) && (i+len(name) == len(src) || !isLetter(src[i+len(name)])) {
			return true
		}
	}
	return false
}
