package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// Host types used by the generated templates. A field that starts with Nil holds nil (sometimes), everything else a
// pointer leads to is set.

type Leaf struct {
	N    int
	T    string
	F    float64
	B    bool
	Tags []string
}

type Mid struct {
	Q      int
	In     Leaf
	PL     *Leaf
	NilL   *Leaf
	Ls     []Leaf
	PLs    []*Leaf
	W      string
	Counts map[string]int
}

type Host struct {
	A      int
	B      string
	C      float64
	D      bool
	I8     int8
	I16    int16
	I32    int32
	I64    int64
	U      uint
	U8     uint8
	U16    uint16
	U32    uint32
	F32    float32
	In     Leaf
	P      *Leaf
	NilP   *Leaf
	Mid    Mid
	PMid   *Mid
	NilMid *Mid
	Ints   []int
	Strs   []string
	Fls    []float64
	Bools  []bool
	Leafs  []Leaf
	PLeafs []*Leaf
	Mids   []Mid
	Lists  [][]int
	M      map[string]int
	MS     map[string]string
	ML     map[string]Leaf
	MP     map[string]*Leaf
	MI     map[int]string
	MM     map[string]map[string]int
	PI     *int
	PS     *string
	PF     *float64
	PB     *bool
	NilPI  *int
	Any    interface{}
}

func (h Host) Label(prefix string) string { return prefix + ":" + h.B }
func (h *Host) Sum(n int) int             { return h.A + n }
func (l Leaf) Desc() string               { return fmt.Sprintf("%d/%s", l.N, l.T) }

var (
	tInt    = reflect.TypeOf(0)
	tFloat  = reflect.TypeOf(0.0)
	tString = reflect.TypeOf("")
	tBool   = reflect.TypeOf(false)
	tAny    = reflect.TypeOf((*interface{})(nil)).Elem()
	tHost   = reflect.TypeOf(Host{})
	tMid    = reflect.TypeOf(Mid{})
	tLeaf   = reflect.TypeOf(Leaf{})
)

// values that say how they are shown
type (
	hostErr   int
	hostErr8  uint8
	hostState int
	hostForm  int64
	hostText  string
	hostBit   bool
	hostRate  float64
	hostPlain int
	hostList  []int
	hostPoint struct{ X, Y int }
)

func (e hostErr) Error() string               { return "error " + strconv.Itoa(int(e)) }
func (e hostErr8) Error() string              { return "error8 " + strconv.Itoa(int(e)) }
func (s hostState) String() string            { return "state " + strconv.Itoa(int(s)) }
func (f hostForm) Format(s fmt.State, _ rune) { fmt.Fprintf(s, "form %d", int64(f)) }
func (t hostText) String() string             { return "<" + string(t) + ">" }
func (b hostBit) String() string              { return "bit " + strconv.FormatBool(bool(b)) }
func (r hostRate) Error() string              { return "rate " + strconv.Itoa(int(r)) }
func (l hostList) String() string             { return "list of " + strconv.Itoa(len(l)) }
func (p hostPoint) String() string            { return strconv.Itoa(p.X) + ":" + strconv.Itoa(p.Y) }

const mapKeys = "abc"

var wordChars = []string{"a", "b", "c", "x", "Y", "Z", "0", "7", "_", " ", "-", ".", ",", "é", "日", "<", ">", "&", "'", "\t", ":", "/", "=", "!", "%", "~"}

func (r *Rand) word(max int) string {
	var b strings.Builder
	for n := r.N(max + 1); n > 0; n-- {
		b.WriteString(wordChars[r.N(len(wordChars))])
	}
	return b.String()
}

func (r *Rand) float() float64 {
	switch r.N(6) {
	case 0:
		return float64(r.R(-5, 5))
	case 1:
		return float64(r.R(-1000, 1000)) / 8
	case 2:
		return r.F()*2e6 - 1e6
	case 3:
		return pick(r, 0.1, -0.1, 1e21, 1e-7, 123456789.125, 3.0, 2.5, -2.5)
	default:
		return float64(r.R(-40, 40)) / 4
	}
}

// fill sets dest to random data of its type
func (r *Rand) fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Int:
		v.SetInt(int64(r.Int()))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := uint64(r.N(128)) // larger ones are misread by the conversion library, see DESIGN.md
		if v.Kind() != reflect.Uint8 && r.P(30) {
			u = uint64(r.N(30000))
		}
		v.SetUint(u)
	case reflect.Float32:
		v.SetFloat(float64(r.R(-400, 400)) / 4)
	case reflect.Float64:
		v.SetFloat(r.float())
	case reflect.String:
		v.SetString(r.word(8))
	case reflect.Bool:
		v.SetBool(r.P(50))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if strings.HasPrefix(f.Name, "Nil") && r.P(60) {
				continue
			}
			r.fill(v.Field(i), depth+1)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		r.fill(v.Elem(), depth+1)
	case reflect.Slice:
		n := r.R(2, 4) // literal indexes 0 and 1 are always within bounds
		v.Set(reflect.MakeSlice(v.Type(), n, n+r.N(2)))
		for i := 0; i < n; i++ {
			r.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i, k := range mapKeys {
			if r.P(25) {
				continue
			}
			key := reflect.New(v.Type().Key()).Elem()
			if key.Kind() == reflect.Int {
				key.SetInt(int64(i))
			} else {
				key.SetString(string(k))
			}
			elem := reflect.New(v.Type().Elem()).Elem()
			r.fill(elem, depth+1)
			v.SetMapIndex(key, elem)
		}
	case reflect.Interface:
		switch r.N(8) {
		case 6, 7: // something that says how it is shown
			n := r.N(9)
			v.Set(reflect.ValueOf(pick[interface{}](r, hostErr(n), hostErr8(n), hostState(n), hostForm(n), hostText("t"+strconv.Itoa(n)), hostBit(n%2 == 0), hostRate(n), hostPlain(n), hostList{n, 2}, hostPoint{n, 3}, &hostPoint{n, 4}, time.Duration(n)*time.Second, errors.New("err"+strconv.Itoa(n)), uint8(n), float32(n)/2, int64(-n))))
		case 0:
			v.Set(reflect.ValueOf(r.R(-9, 99)))
		case 1:
			v.Set(reflect.ValueOf(r.word(5)))
		case 2:
			v.Set(reflect.ValueOf(r.float()))
		case 3:
			v.Set(reflect.ValueOf(r.P(50)))
		case 4:
			v.Set(reflect.ValueOf([]int{1, r.N(9)}))
		}
	}
}

// deepCopy copies a value with everything reachable from it, keeping aliases
func deepCopy(v reflect.Value, seen map[interface{}]reflect.Value) reflect.Value {
	dest := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return dest
		}
		key := [2]interface{}{v.Pointer(), v.Type()}
		if c, ok := seen[key]; ok {
			return c
		}
		c := reflect.New(v.Type().Elem())
		seen[key] = c
		c.Elem().Set(deepCopy(v.Elem(), seen))
		dest.Set(c)
	case reflect.Slice:
		if v.IsNil() {
			return dest
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(v.Index(i), seen))
		}
		dest.Set(c)
	case reflect.Map:
		if v.IsNil() {
			return dest
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, deepCopy(v.MapIndex(k), seen))
		}
		dest.Set(c)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" { // unexported: shared
				dest.Set(v)
				return dest
			}
		}
		for i := 0; i < v.NumField(); i++ {
			dest.Field(i).Set(deepCopy(v.Field(i), seen))
		}
	case reflect.Interface:
		if !v.IsNil() {
			dest.Set(deepCopy(v.Elem(), seen))
		}
	default:
		dest.Set(v)
	}
	return dest
}

func copyOf(v reflect.Value) reflect.Value { return deepCopy(v, map[interface{}]reflect.Value{}) }
