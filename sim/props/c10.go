package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"

	"verifsim/core"
)

// C10: a script and a Go host exchange records and Go structs over a
// seeded history of constructions, writes, conversions and method calls.
// The host's factories and methods fail at seeded moments, and records are
// given fields and values that do not convert. A model of the records
// builds the Go value each has to convert to; what arrives in Go, and what
// comes back, is compared with it field by field, sharing included.

// ---- the host's structs ----

type C10Shape interface{ C10Kind() string }

type C10Root struct {
	Serial int32  `json:"serial"`
	Mark   string `json:"mark"`
	Ratio  float64
	Level  int16 // hidden by that of C10Base
}

type C10Base struct {
	C10Root
	ID    int    `json:"id"`
	Name  string `json:"name"`
	Level int8
	notes []string `json:"notes"`
}

type C10Leaf struct {
	N     int64   `json:"n"`
	S     string  `json:"s"`
	B     bool    `json:"b"`
	F     float64 `json:"f"`
	Raw   []byte  `json:"raw"`
	Plain int
}

type C10Tag struct {
	T string `json:"t"`
	K int16  `json:"k"`
}

// C10Mid hides a field of what it embeds.
type C10Mid struct {
	Name string `json:"name"`
	C10Base
	Mass float64 `json:"mass"`
}

type C10Chk struct {
	Lo   int64 `json:"lo"`
	Hi   int64 `json:"hi"`
	Next C10Shape
}

type C10Node struct {
	C10Mid `json:"mid"`

	Val    int64 `json:"val"`
	Small  int8  `json:"small"`
	Med    int16
	I32    int32         `json:"i32"`
	U8     uint8         `json:"u8"`
	U32    uint32        `json:"u32"`
	U64    uint64        `json:"u64"`
	F32    float32       `json:"f32"`
	On     bool          `json:"on"`
	Title  string        `json:"title"`
	Bytes  []byte        `json:"bytes"`
	When   time.Time     `json:"when"`
	Dur    time.Duration `json:"dur"`
	secret int64         `json:"secret"`

	Left  *C10Node   `json:"left"`
	Right *C10Node   `json:"right"`
	Leaf  *C10Leaf   `json:"leaf"`
	Chk   *C10Chk    `json:"chk"`
	Own   C10Leaf    `json:"own"`
	Tag   C10Tag     `json:"tag"`
	Kid   C10Shape   `json:"kid"`
	Kids  []C10Shape `json:"kids"`
	Ptrs  []*C10Leaf
	Vals  []C10Tag   `json:"vals"`
	Nodes []*C10Node `json:"nodes"`

	Ints   []int64     `json:"ints"`
	Strs   []string    `json:"strs"`
	Floats []float64   `json:"floats"`
	Flags  []bool      `json:"flags"`
	Mat    [][]int     `json:"mat"`
	Times  []time.Time `json:"times"`
	Raws   [][]byte    `json:"raws"`

	MS map[string]string    `json:"ms"`
	MF map[string]float64   `json:"mf"`
	IF map[int64]float64    `json:"if"`
	MK map[string]C10Shape  `json:"mk"`
	MI map[string]int64     `json:"mi"`
	ML map[string]*C10Leaf  `json:"ml"`
	MA map[string][]float64 `json:"ma"`
}

func (x *C10Node) C10Kind() string { return "node" }
func (x *C10Leaf) C10Kind() string { return "leaf" }
func (x *C10Chk) C10Kind() string  { return "chk" }

// what the host got and is to give.
var (
	c10got     []interface{}
	c10give    interface{}
	c10armed   int // a factory fails after that many calls
	c10firings int
	c10how     int
)

func (x *C10Node) Me()                           { c10got = []interface{}{x} }
func (x *C10Leaf) Me()                           { c10got = []interface{}{x} }
func (x *C10Chk) Me()                            { c10got = []interface{}{x} }
func (x *C10Node) EchoNode(n *C10Node) *C10Node  { c10got = []interface{}{n}; return n }
func (x *C10Node) EchoLeaf(n *C10Leaf) *C10Leaf  { c10got = []interface{}{n}; return n }
func (x *C10Node) EchoChk(n *C10Chk) *C10Chk     { c10got = []interface{}{n}; return n }
func (x *C10Node) EchoTag(n *C10Tag) *C10Tag     { c10got = []interface{}{n}; return n }
func (x *C10Node) EchoShape(n C10Shape) C10Shape { c10got = []interface{}{n}; return n }
func (x *C10Node) TakeNode(n C10Node) int        { c10got = []interface{}{n}; return 1 }
func (x *C10Node) EchoTwo(a *C10Node, b C10Shape) (C10Shape, *C10Node, error) {
	c10got = []interface{}{a, b}
	return b, a, nil
}
func (x *C10Node) Give() C10Shape {
	n, _ := c10give.(C10Shape)
	return n
}
func (x *C10Node) GiveNode() *C10Node {
	n, _ := c10give.(*C10Node)
	return n
}
func (x *C10Node) TakeShapes(s []C10Shape)                        { c10got = []interface{}{s} }
func (x *C10Node) TakeInts(s []int64)                             { c10got = []interface{}{s} }
func (x *C10Node) TakeMat(s [][]int)                              { c10got = []interface{}{s} }
func (x *C10Node) TakeFloats(m map[string]float64)                { c10got = []interface{}{m} }
func (x *C10Node) TakeMap(m map[string]C10Shape)                  { c10got = []interface{}{m} }
func (x *C10Node) EchoInt(n int64, k int) (int64, int)            { c10got = []interface{}{n, k}; return n, k }
func (x *C10Node) EchoStr(s string) string                        { c10got = []interface{}{s}; return s }
func (x *C10Node) EchoFloat(f float64) float64                    { c10got = []interface{}{f}; return f }
func (x *C10Node) EchoRaw(b []byte) []byte                        { c10got = []interface{}{b}; return b }
func (x *C10Node) TakeBool(b bool, t time.Time, i int8, u uint16) { c10got = []interface{}{b, t, i, u} }
func (x *C10Node) Boom(n *C10Node) *C10Node {
	c10got = []interface{}{n}
	panic("the host's method failed")
}
func (x *C10Node) Fail(n *C10Node) (*C10Node, error) {
	c10got = []interface{}{n}
	return nil, errors.New("the host's method refused")
}

var c10types = map[string]reflect.Type{
	"c10node": reflect.TypeOf(C10Node{}),
	"c10leaf": reflect.TypeOf(C10Leaf{}),
	"c10tag":  reflect.TypeOf(C10Tag{}),
	"c10mid":  reflect.TypeOf(C10Mid{}),
	"c10base": reflect.TypeOf(C10Base{}),
	"c10chk":  reflect.TypeOf(C10Chk{}),
}

// a world is a set of types that are used together.
type c10world struct {
	types  []string // the types records are made of, and how often
	often  []int
	shape  reflect.Type // the interface
	shapes []string     // what implements it, and how often
	shown  []int
}

var c10own = &c10world{
	types: []string{"c10node", "c10leaf", "c10tag", "c10mid", "c10base", "c10chk"}, often: []int{8, 5, 2, 1, 1, 2},
	shape: c10shape, shapes: []string{"c10leaf", "c10node", "c10chk"}, shown: []int{3, 1, 1},
}

// the structs that come with the library
var c10demo = &c10world{
	types:  []string{"snoopy", "hornet", "hellcat", "weather", "plane", "setOfPlanes", "eventdemo", "persondemo", "nestouter", "nestinner"},
	often:  []int{5, 3, 2, 3, 1, 2, 2, 1, 1, 1},
	shape:  reflect.TypeOf((*zygo.Flyer)(nil)).Elem(),
	shapes: []string{"hellcat", "hornet", "snoopy"}, shown: []int{2, 1, 1},
}

var c10names = map[reflect.Type]string{}

func init() {
	for n, x := range map[string]interface{}{
		"snoopy": zygo.Snoopy{}, "hornet": zygo.Hornet{}, "hellcat": zygo.Hellcat{}, "weather": zygo.Weather{}, "plane": zygo.Plane{}, "setOfPlanes": zygo.SetOfPlanes{},
		"eventdemo": zygo.Event{}, "persondemo": zygo.Person{}, "nestouter": zygo.NestOuter{}, "nestinner": zygo.NestInner{},
	} {
		c10types[n] = reflect.TypeOf(x)
	}
	for n, t := range c10types {
		c10names[t] = n
	}
}

func c10name(t reflect.Type) string { return c10names[t] }

func c10register() {
	for _, name := range []string{"c10node", "c10leaf", "c10tag", "c10mid", "c10base", "c10chk"} {
		typ := c10types[name]
		zygo.GoStructRegistry.RegisterUserdef(&zygo.RegisteredType{GenDefMap: true, Factory: func(env *zygo.Zlisp, h *zygo.SexpHash) (interface{}, error) {
			if c10armed > 0 {
				c10armed--
				if c10armed == 0 {
					c10firings++
					if c10how == 0 {
						return nil, errors.New("the host's factory failed")
					}
					panic("the host's factory failed")
				}
			}
			return reflect.New(typ).Interface(), nil
		}}, true, name)
	}
}

// ---- the model ----

type c10rec struct {
	typ    reflect.Type
	name   string // the variable that holds it
	vals   map[string]*c10val
	order  []string
	stray  map[string]bool // fields the struct does not have
	shadow bool
}

// c10val is a value of a field: what it is in Go, or why it is none.
type c10val struct {
	k    byte // i u f s b r(aw) t d n(il) a m R, x: does not convert
	i    int64
	u    uint64
	f    float64
	s    string
	els  []*c10val
	keys []interface{}
	rec  *c10rec
	text string
}

var (
	c10time  = reflect.TypeOf(time.Time{})
	c10dur   = reflect.TypeOf(time.Duration(0))
	c10shape = reflect.TypeOf((*C10Shape)(nil)).Elem()
	c10bytes = reflect.TypeOf([]byte(nil))
)

type c10field struct {
	sf  reflect.StructField
	key string
}

var c10fieldsOf = map[reflect.Type][]c10field{}

// c10fields lists the fields a value of typ has, promoted ones included.
func c10fields(typ reflect.Type) []c10field {
	if r, ok := c10fieldsOf[typ]; ok {
		return r
	}
	var r []c10field
	for _, sf := range reflect.VisibleFields(typ) {
		if sf.Anonymous {
			continue
		}
		// hidden ones are not what their name stands for
		if top, ok := typ.FieldByName(sf.Name); !ok || len(top.Index) != len(sf.Index) {
			continue
		}
		key := sf.Tag.Get("json")
		if key == "" {
			key = sf.Name
		}
		r = append(r, c10field{sf, key})
	}
	c10fieldsOf[typ] = r
	return r
}

func c10fieldOf(typ reflect.Type, key string) *c10field {
	for i, f := range c10fields(typ) {
		if f.key == key {
			return &c10fields(typ)[i]
		}
	}
	return nil
}

func c10get(v reflect.Value, sf reflect.StructField) reflect.Value {
	f := v.FieldByIndex(sf.Index)
	if !f.CanInterface() {
		f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
	}
	return f
}

type c10built map[*c10rec]reflect.Value

// build makes the Go value of a record.
func (b c10built) build(r *c10rec) reflect.Value {
	if p, ok := b[r]; ok {
		return p
	}
	p := reflect.New(r.typ)
	b[r] = p
	for _, key := range r.order {
		b.set(c10get(p.Elem(), c10fieldOf(r.typ, key).sf), r.vals[key])
	}
	return p
}

func (b c10built) set(v reflect.Value, x *c10val) {
	switch x.k {
	case 'i':
		switch {
		case v.CanInt():
			v.SetInt(x.i)
		case v.CanUint():
			v.SetUint(uint64(x.i))
		default:
			v.SetFloat(float64(x.i))
		}
	case 'u':
		v.SetUint(x.u)
	case 'f':
		if v.CanInt() {
			v.SetInt(int64(x.f))
		} else {
			v.SetFloat(x.f)
		}
	case 's':
		v.SetString(x.s)
	case 'b':
		v.SetBool(x.i == 1)
	case 'r':
		v.SetBytes([]byte(x.s))
	case 't':
		v.Set(reflect.ValueOf(time.Unix(0, x.i)))
	case 'd':
		v.SetInt(x.i)
	case 'n':
	case 'a':
		s := reflect.MakeSlice(v.Type(), len(x.els), len(x.els))
		for i, e := range x.els {
			b.set(s.Index(i), e)
		}
		v.Set(s)
	case 'm':
		m := reflect.MakeMap(v.Type())
		for i, e := range x.els {
			ev := reflect.New(v.Type().Elem()).Elem()
			b.set(ev, e)
			m.SetMapIndex(reflect.ValueOf(x.keys[i]), ev)
		}
		v.Set(m)
	case 'R':
		p := b.build(x.rec)
		if v.Kind() == reflect.Struct {
			v.Set(p.Elem())
		} else {
			v.Set(p)
		}
	default:
		panic("c10: building a value that does not convert")
	}
}

// reach visits the records that one refers to, itself included.
func (r *c10rec) reach(seen map[*c10rec]bool) map[*c10rec]bool {
	if seen[r] {
		return seen
	}
	seen[r] = true
	for _, key := range r.order {
		r.vals[key].reach(seen)
	}
	return seen
}

func (x *c10val) reach(seen map[*c10rec]bool) {
	if x.rec != nil {
		x.rec.reach(seen)
	}
	for _, e := range x.els {
		e.reach(seen)
	}
}

func (x *c10val) bad() string {
	if x.k == 'x' {
		return x.text
	}
	for _, e := range x.els {
		if s := e.bad(); s != "" {
			return s
		}
	}
	return ""
}

// why says why a record does not convert, or "".
func (r *c10rec) why() string {
	var out []string
	for q := range r.reach(map[*c10rec]bool{}) {
		for k := range q.stray {
			out = append(out, "a "+c10name(q.typ)+" has no field "+k)
		}
		for _, key := range q.order {
			if s := q.vals[key].bad(); s != "" {
				out = append(out, "field "+key+" of a "+c10name(q.typ)+" does not take "+s)
			}
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return ""
	}
	return out[0]
}

func (r *c10rec) set(key string, v *c10val) {
	if r.vals[key] == nil {
		r.order = append(r.order, key)
	}
	r.vals[key] = v
}

// ---- describing Go values ----

type c10desc struct {
	b   strings.Builder
	ids map[interface{}]int
}

func c10describe(x interface{}) string {
	d := &c10desc{ids: map[interface{}]int{}}
	d.walk(reflect.ValueOf(x))
	return d.b.String()
}

func (d *c10desc) walk(v reflect.Value) {
	w := func(f string, a ...interface{}) { fmt.Fprintf(&d.b, f, a...) }
	if !v.IsValid() {
		w("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		d.walk(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			w("nil")
			return
		}
		if id, ok := d.ids[v.Interface()]; ok {
			w("#%d", id)
			return
		}
		d.ids[v.Interface()] = len(d.ids) + 1
		w("#%d=*", len(d.ids))
		d.walk(v.Elem())
	case reflect.Struct:
		if v.Type() == c10time {
			t := v.Interface().(time.Time)
			if t.IsZero() {
				w("notime")
			} else {
				w("time(%d)", t.UnixNano())
			}
			return
		}
		if !v.CanAddr() {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p.Elem()
		}
		w("%s{", v.Type().Name())
		d.fields(v)
		w("}")
	case reflect.Slice:
		if v.Type() == c10bytes {
			w("%q", v.Bytes())
			return
		}
		w("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				w(" ")
			}
			d.walk(v.Index(i))
		}
		w("]")
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].CanInt() {
				return ks[i].Int() < ks[j].Int()
			}
			return ks[i].String() < ks[j].String()
		})
		w("map[")
		for _, k := range ks {
			w("%v:", k)
			d.walk(v.MapIndex(k))
			w(" ")
		}
		w("]")
	case reflect.String:
		w("%q", v.String())
	case reflect.Float32, reflect.Float64:
		w("%sf", strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		w("%v", v)
	}
}

// fields also shows the hidden fields, which nothing may write.
func (d *c10desc) fields(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := c10get(v, v.Type().Field(i))
		sf := v.Type().Field(i)
		if sf.Anonymous {
			d.b.WriteString(sf.Name + "{")
			d.fields(f)
			d.b.WriteString("} ")
			continue
		}
		if f.IsZero() || (f.Type() == c10bytes && f.Len() == 0) {
			continue
		}
		d.b.WriteString(sf.Name + ":")
		d.walk(f)
		d.b.WriteString(" ")
	}
}

// ---- comparing records with Go values ----

type c10cmp struct {
	env  *zygo.Zlisp
	seen map[[2]interface{}]bool
	made map[interface{}]*zygo.SexpHash // record of each Go struct
	back bool                           // the record came from Go
}

func (c *c10cmp) record(sx zygo.Sexp, v reflect.Value, path string) string {
	h, ok := sx.(*zygo.SexpHash)
	if !ok {
		return fmt.Sprintf("%s is %s instead of a record of type %s", path, clip(Dump(sx), 200), c10name(v.Elem().Type()))
	}
	if h.TypeName != c10name(v.Elem().Type()) {
		return fmt.Sprintf("%s is a %s, not a %s", path, h.TypeName, c10name(v.Elem().Type()))
	}
	if prev := c.made[v.Interface()]; prev != nil && prev != h && c.back {
		return fmt.Sprintf("%s is another record than one made of the same Go struct", path)
	}
	c.made[v.Interface()] = h
	at := [2]interface{}{h, v.Interface()}
	if c.seen[at] {
		return ""
	}
	c.seen[at] = true
	got := map[string]zygo.Sexp{}
	for _, k := range h.KeyOrder {
		name := ""
		switch x := k.(type) {
		case *zygo.SexpSymbol:
			name = x.Name()
		case *zygo.SexpStr:
			name = x.S
		}
		val, err := h.HashGet(c.env, k)
		if err != nil {
			return fmt.Sprintf("%s.%s cannot be read: %v", path, name, err)
		}
		f := c10fieldOf(v.Elem().Type(), name)
		if f == nil && name != "" {
			f = c10fieldOf(v.Elem().Type(), strings.ToUpper(name[:1])+name[1:])
		}
		if f == nil {
			return fmt.Sprintf("%s has a field %s, which a %s does not have", path, name, h.TypeName)
		}
		got[f.key] = val
	}
	for _, f := range c10fields(v.Elem().Type()) {
		fv := c10get(v.Elem(), f.sf)
		val, ok := got[f.key]
		if !ok {
			if !fv.IsZero() {
				return fmt.Sprintf("%s.%s is missing, where Go has %s", path, f.key, clip(c10describe(fv.Interface()), 200))
			}
			continue
		}
		if s := c.value(val, fv, path+"."+f.key); s != "" {
			return s
		}
	}
	return ""
}

func (c *c10cmp) value(sx zygo.Sexp, v reflect.Value, path string) string {
	differ := func() string {
		return fmt.Sprintf("%s is %s, where Go has %s", path, clip(Dump(sx), 200), clip(c10describe(v.Interface()), 200))
	}
	check := func(ok bool) string {
		if ok {
			return ""
		}
		return differ()
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return check(sx == zygo.SexpNull)
		}
		return c.value(sx, v.Elem(), path)
	case reflect.Ptr:
		if v.IsNil() {
			return check(sx == zygo.SexpNull)
		}
		return c.record(sx, v, path)
	case reflect.Struct:
		if v.Type() == c10time {
			if sx == zygo.SexpNull {
				return "" // a known finding where it is not zero
			}
			t, ok := sx.(*zygo.SexpTime)
			return check(ok && t.Tm.Equal(v.Interface().(time.Time)))
		}
		if sx == zygo.SexpNull {
			return check(v.IsZero())
		}
		if !v.CanAddr() {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p.Elem()
		}
		sub := &c10cmp{env: c.env, seen: c.seen, made: map[interface{}]*zygo.SexpHash{}, back: c.back}
		return sub.record(sx, v.Addr(), path)
	case reflect.Slice:
		if v.Type() == c10bytes {
			if r, ok := sx.(*zygo.SexpRaw); ok {
				return check(string(r.Val) == string(v.Bytes()))
			}
			return check(sx == zygo.SexpNull && v.Len() == 0)
		}
		if sx == zygo.SexpNull {
			return check(v.Len() == 0)
		}
		a, ok := sx.(*zygo.SexpArray)
		if !ok || len(a.Val) != v.Len() {
			return differ()
		}
		for i := range a.Val {
			if s := c.value(a.Val[i], v.Index(i), fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Map:
		if sx == zygo.SexpNull {
			return check(v.Len() == 0)
		}
		h, ok := sx.(*zygo.SexpHash)
		if !ok || len(h.KeyOrder) != v.Len() || h.TypeName != "hash" {
			return differ()
		}
		for _, k := range h.KeyOrder {
			var kv reflect.Value
			switch x := k.(type) {
			case *zygo.SexpSymbol:
				kv = reflect.ValueOf(x.Name())
			case *zygo.SexpStr:
				kv = reflect.ValueOf(x.S)
			case *zygo.SexpInt:
				kv = reflect.ValueOf(x.Val)
			}
			if !kv.IsValid() || kv.Type() != v.Type().Key() || !v.MapIndex(kv).IsValid() {
				return differ()
			}
			val, err := h.HashGet(c.env, k)
			if err != nil {
				return differ()
			}
			if s := c.value(val, v.MapIndex(kv), fmt.Sprintf("%s[%v]", path, kv)); s != "" {
				return s
			}
		}
		return ""
	case reflect.String:
		switch x := sx.(type) {
		case *zygo.SexpStr:
			return check(x.S == v.String())
		case *zygo.SexpSymbol:
			return check(!c.back && x.Name() == v.String())
		}
		return differ()
	case reflect.Bool:
		b, ok := sx.(*zygo.SexpBool)
		return check(ok && b.Val == v.Bool())
	case reflect.Float32, reflect.Float64:
		switch x := sx.(type) {
		case *zygo.SexpFloat:
			return check(x.Val == v.Float())
		case *zygo.SexpInt:
			return check(!c.back && float64(x.Val) == v.Float())
		}
		return differ()
	}
	if v.CanInt() || v.CanUint() {
		var n int64
		switch x := sx.(type) {
		case *zygo.SexpInt:
			n = x.Val
		case *zygo.SexpChar:
			n = int64(x.Val)
		case *zygo.SexpDur:
			n = int64(x.Dur)
		case *zygo.SexpFloat:
			if c.back {
				return differ()
			}
			n = int64(x.Val)
		case *zygo.SexpUint64:
			if v.CanUint() {
				return check(x.Val == v.Uint())
			}
			return differ()
		default:
			return differ()
		}
		if v.CanInt() {
			return check(n == v.Int())
		}
		return check(n >= 0 && uint64(n) == v.Uint())
	}
	return differ()
}

// ---- the run ----

type c10 struct {
	t    *core.T
	w    *c10world
	past map[*c10rec]*[]string // what its Go struct may be, in brief
	env  *zygo.Zlisp
	recs []*c10rec
	hist []string
	n    int
}

func (c *c10) fail(class, format string, a ...interface{}) {
	c.t.Failf(class, "%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(c.hist, "\n"))
}

func (c *c10) eval(text string) Res {
	c.hist = append(c.hist, text)
	r := Eval(c.env, text)
	c.t.Steps++
	out := r.Kind()
	if out == "value" {
		out = "value " + clip(r.Dump, 400)
	}
	c.t.Logf("%s\n  => %s", text, out)
	if r.Panic != "" {
		c.fail("panic", "%s panicked: %s", text, r.Panic)
	}
	return r
}

func (c *c10) must(text string) Res {
	r := c.eval(text)
	if r.Err != nil {
		c.fail("refused", "%s is refused: %s", text, r.ErrTxt)
	}
	return r
}

func (c *c10) pick(ok func(*c10rec) bool) *c10rec {
	var l []*c10rec
	for _, r := range c.recs {
		if r.name != "" && (ok == nil || ok(r)) {
			l = append(l, r)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[c.t.Intn(len(l))]
}

func (c *c10) isShape(t reflect.Type) bool { return reflect.PtrTo(t).Implements(c.w.shape) }

var c10keyPool = []string{"a", "b", "zed", "A", "long_key"}

func (c *c10) ref(r *c10rec) *c10val { return &c10val{k: 'R', rec: r, text: r.name} }

// value makes a value for a Go type.
func (c *c10) value(typ reflect.Type, d int) *c10val {
	t := c.t
	switch typ {
	case c10time:
		n := []int64{0, 1, 1500000000123456789, -5000000000, 1700000000000000000}[t.Intn(5)]
		return &c10val{k: 't', i: n, text: fmt.Sprintf("(astm %d)", n)}
	case c10dur:
		n := []int64{0, 1, -7, 3600000000000}[t.Intn(4)]
		if t.Chance(1, 3) {
			return &c10val{k: 'i', i: n, text: fmt.Sprint(n)}
		}
		return &c10val{k: 'd', i: n, text: fmt.Sprintf("(dur %d)", n)}
	case c10bytes:
		if t.Chance(1, 6) {
			return &c10val{k: 'n', text: "nil"}
		}
		s := []string{"", "a", "123", "\t\né", "raw bytes"}[t.Intn(5)]
		return &c10val{k: 'r', s: s, text: "(raw " + strconv.Quote(s) + ")"}
	}
	switch typ.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := uint(typ.Bits())
		var n int64
		switch t.Pick(6, 1, 1, 1, 1) {
		case 0:
			n = int64(t.Range(-9, 99))
		case 1:
			n = -1 << (bits - 1)
		case 2:
			n = 1<<(bits-1) - 1
		case 3:
			n = 1<<(bits-2) + 1
		case 4:
			if bits == 32 {
				return &c10val{k: 'i', i: 'é', text: "'é'"}
			}
			if bits == 64 {
				n = 1<<53 + 1
			}
		}
		if t.Chance(1, 10) && n > -1000000 && n < 1000000 {
			return &c10val{k: 'f', f: float64(n), text: fmt.Sprintf("%d.0", n)}
		}
		return &c10val{k: 'i', i: n, text: fmt.Sprint(n)}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := uint(typ.Bits())
		var n uint64
		switch t.Pick(4, 1, 1) {
		case 0:
			n = uint64(t.Intn(99))
		case 1:
			n = 1<<(bits-1) - 1
		case 2:
			n = 1<<bits - 1
			if bits == 64 {
				n = math.MaxUint64
				return &c10val{k: 'u', u: n, text: fmt.Sprintf("%dULL", n)}
			}
		}
		if t.Chance(1, 4) {
			return &c10val{k: 'u', u: n, text: fmt.Sprintf("%dULL", n)}
		}
		return &c10val{k: 'i', i: int64(n), text: fmt.Sprint(n)}
	case reflect.Float32, reflect.Float64:
		if t.Chance(1, 4) {
			n := int64(t.Range(-9, 99))
			return &c10val{k: 'i', i: n, text: fmt.Sprint(n)}
		}
		f := []float64{0.5, -3.25, 0, 1024.125, 65536.5}[t.Intn(5)]
		if typ.Kind() == reflect.Float64 && t.Chance(1, 4) {
			f = []float64{0.1, 1e300, -2.5e-10}[t.Intn(3)]
		}
		text := strconv.FormatFloat(f, 'f', -1, 64)
		if f == 1e300 || f == -2.5e-10 {
			text = strconv.FormatFloat(f, 'e', -1, 64)
		}
		if !strings.ContainsAny(text, ".e") {
			text += ".0"
		}
		return &c10val{k: 'f', f: f, text: text}
	case reflect.String:
		if t.Chance(1, 10) {
			return &c10val{k: 's', s: "sym", text: "(quote sym)"}
		}
		s := []string{"", "a", "name", "é ñ", "two\nlines", `q"uote`, `back\slash`, "h.a", "nil"}[t.Intn(9)]
		return &c10val{k: 's', s: s, text: strconv.Quote(s)}
	case reflect.Bool:
		if t.Bool() {
			return &c10val{k: 'b', i: 1, text: "true"}
		}
		return &c10val{k: 'b', text: "false"}
	case reflect.Slice:
		if t.Chance(1, 10) {
			return &c10val{k: 'n', text: "nil"}
		}
		x := &c10val{k: 'a'}
		var p []string
		for i, n := 0, t.Intn(4); i < n; i++ {
			e := c.value(typ.Elem(), d-1)
			x.els = append(x.els, e)
			p = append(p, e.text)
		}
		x.text = "[" + strings.Join(p, " ") + "]"
		return x
	case reflect.Map:
		if t.Chance(1, 10) {
			return &c10val{k: 'n', text: "nil"}
		}
		x := &c10val{k: 'm'}
		p := []string{"(hash"}
		for i, n := 0, t.Intn(4); i < n; i++ {
			var key interface{} = c10keyPool[i]
			ktext := c10keyPool[i] + ":"
			if typ.Key().Kind() != reflect.String {
				key = int64(i*7 - 3)
				ktext = fmt.Sprintf("%d", key)
			}
			e := c.value(typ.Elem(), d-1)
			x.keys = append(x.keys, key)
			x.els = append(x.els, e)
			p = append(p, ktext+" "+e.text)
		}
		x.text = strings.Join(p, " ") + ")"
		return x
	case reflect.Interface, reflect.Ptr, reflect.Struct:
		ok := func(r *c10rec) bool {
			switch typ.Kind() {
			case reflect.Interface:
				return c.isShape(r.typ)
			case reflect.Ptr:
				return r.typ == typ.Elem()
			}
			return r.typ == typ
		}
		if t.Chance(1, 12) && typ.Kind() != reflect.Struct {
			return &c10val{k: 'n', text: "nil"}
		}
		if r := c.pick(ok); r != nil && (d <= 0 || t.Chance(2, 3)) {
			return c.ref(r)
		}
		rt := typ
		switch typ.Kind() {
		case reflect.Interface:
			rt = c10types[c.w.shapes[t.Pick(c.w.shown...)]]
		case reflect.Ptr:
			rt = typ.Elem()
		}
		r, text := c.construct(rt, d-1)
		return &c10val{k: 'R', rec: r, text: text}
	}
	panic("c10: no value for " + typ.String())
}

// wrong makes a value that is none of a Go type.
func (c *c10) wrong(typ reflect.Type, d int) *c10val {
	t := c.t
	bad := func(s ...string) *c10val { return &c10val{k: 'x', text: s[t.Intn(len(s))]} }
	switch typ {
	case c10time:
		return bad("5", `"2020"`, "true", "[1]", "(dur 3)", "(hash a:1)", "(raw \"x\")")
	case c10dur:
		return bad(`"5"`, "true", "[1]", "1.5", "(astm 5)", "9223372036854775808ULL")
	case c10bytes:
		return bad(`"abc"`, "5", "true", `["a"]`, "[300]", "(hash a:1)")
	}
	switch typ.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w := []string{`"5"`, "true", "[1]", "(hash a:1)", "1.5", "(raw \"1\")", "nil", "(quote sym)", "1e30", "9223372036854775808ULL", "(fn [x] x)", "(quote (1 2))", "(c10tag t:\"a\")"}
		switch typ.Bits() {
		case 8:
			w = append(w, "128", "-129", "300", "128", "256")
		case 16:
			w = append(w, "32768", "65537", "-32769")
		case 32:
			w = append(w, "2147483648", "4294967297", "-2147483649")
		}
		return bad(w...)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		w := []string{`"5"`, "true", "-1", "1.5", "nil", "[1]", "(quote sym)"}
		if typ.Bits() == 8 {
			w = append(w, "256", "-128", "300")
		}
		if typ.Bits() == 32 {
			w = append(w, "4294967296")
		}
		return bad(w...)
	case reflect.Float32, reflect.Float64:
		w := []string{`"5.5"`, "true", "[1.5]", "(hash a:1.5)", "nil", "(quote sym)", "9007199254740993"}
		if typ.Bits() == 32 {
			w = append(w, "1e300")
		}
		return bad(w...)
	case reflect.String:
		return bad("5", "2.5", "true", `["a"]`, "(astm 5)", "nil", "(fn [x] x)", "(raw \"a\")", "(hash a:1)")
	case reflect.Bool:
		return bad("1", "0", `"true"`, "[true]", "nil", "1.0", "(quote sym)")
	case reflect.Slice:
		if typ.Elem() != nil && d > 0 && t.Chance(1, 2) {
			// one element of several
			x := &c10val{k: 'a'}
			var p []string
			n := t.Range(1, 3)
			at := t.Intn(n)
			for i := 0; i < n; i++ {
				e := c.value(typ.Elem(), 0)
				if i == at {
					e = c.wrong(typ.Elem(), d-1)
				}
				x.els = append(x.els, e)
				p = append(p, e.text)
			}
			x.text = "[" + strings.Join(p, " ") + "]"
			return x
		}
		return bad("5", `"abc"`, "true", "(hash a:1)", "(quote (1 2))", "2.5")
	case reflect.Map:
		if d > 0 && t.Chance(1, 2) {
			e := c.wrong(typ.Elem(), d-1)
			k := "a:"
			if typ.Key().Kind() != reflect.String {
				k = "4"
			}
			return &c10val{k: 'x', text: "(hash " + k + " " + e.text + ")"}
		}
		e := c.value(typ.Elem(), 0)
		if typ.Key().Kind() == reflect.String {
			return bad("5", `"a"`, "[1]", "(hash 5 "+e.text+")", "(hash [1] "+e.text+")")
		}
		return bad("5", `"a"`, "[1]", "(hash a:"+e.text+")", "(hash \"4\" "+e.text+")")
	case reflect.Interface:
		return bad("5", `"a"`, "true", "[1]", "(c10tag t:\"a\")", "(c10base id:4)", "(hash a:1)", "(persondemo first:\"a\")")
	case reflect.Ptr, reflect.Struct:
		e := typ
		if typ.Kind() == reflect.Ptr {
			e = typ.Elem()
		}
		w := []string{"5", `"a"`, "true", "[1]", "(hash a:1)", "(c10base id:4)"}
		if c10name(e) != "persondemo" {
			w = append(w, "(persondemo first:\"a\")")
		}
		for _, n := range []string{"c10leaf", "c10tag", "c10chk"} {
			if c10types[n] != e {
				w = append(w, "("+n+")")
			}
		}
		return bad(w...)
	}
	panic("c10: no wrong value for " + typ.String())
}

// construct makes a record that has no variable yet.
func (c *c10) construct(typ reflect.Type, d int) (*c10rec, string) {
	t := c.t
	r := &c10rec{typ: typ, vals: map[string]*c10val{}, stray: map[string]bool{}}
	if strings.HasPrefix(c10name(typ), "nest") {
		// their constructors want fields
		f := c10fields(typ)[0]
		v := c.value(f.sf.Type, d)
		r.set(f.key, v)
		return r, "(" + c10name(typ) + " " + f.key + ":" + v.text + ")"
	}
	p := []string{"(" + c10name(typ)}
	fs := c10fields(typ)
	most := 3
	if d > 0 {
		most = 6
	}
	for i, n := 0, t.Intn(most); i < n; i++ {
		f := fs[t.Intn(len(fs))]
		if r.vals[f.key] != nil || (d <= 0 && c10heavy(f.sf.Type)) {
			continue
		}
		v := c.value(f.sf.Type, d)
		r.set(f.key, v)
		p = append(p, c.key(f)+":"+v.text)
	}
	return r, strings.Join(p, " ") + ")"
}

func c10heavy(typ reflect.Type) bool {
	switch typ.Kind() {
	case reflect.Slice, reflect.Map:
		return typ != c10bytes && c10heavy(typ.Elem())
	case reflect.Ptr, reflect.Interface:
		return true
	case reflect.Struct:
		return typ != c10time
	}
	return false
}

// key is how a program names the field. It has to be the same each time,
// as a record may have two keys where the struct has one field.
func (c *c10) key(f c10field) string {
	if f.sf.Tag.Get("json") == "" && f.sf.Name != "Level" && f.sf.Name != "Next" {
		return strings.ToLower(f.key[:1]) + f.key[1:]
	}
	return f.key
}

func (c *c10) define() {
	t := c.t
	typ := c10types[c.w.types[t.Pick(c.w.often...)]]
	r, text := c.construct(typ, 2)
	c.n++
	r.name = fmt.Sprintf("r%d", c.n)
	c.must("(def " + r.name + " " + text + ")")
	c.recs = append(c.recs, r)
}

func (c *c10) put(r *c10rec, key string, f c10field, v *c10val) {
	t := c.t
	k := c.key(f)
	switch t.Intn(4) {
	case 0, 1:
		c.must(fmt.Sprintf("(hset %s %s: %s)", r.name, k, v.text))
	case 2:
		c.must(fmt.Sprintf("(set %s.%s %s)", r.name, k, v.text))
	default:
		c.must(fmt.Sprintf("(hset %s (quote %s) %s)", r.name, k, v.text))
	}
	r.set(key, v)
}

func (c *c10) write() {
	t := c.t
	r := c.pick(nil)
	if r == nil {
		return
	}
	fs := c10fields(r.typ)
	f := fs[t.Intn(len(fs))]
	if t.Chance(1, 2) {
		// mostly what refers to other records
		for i := 0; i < 6 && !c10heavy(f.sf.Type); i++ {
			f = fs[t.Intn(len(fs))]
		}
	}
	c.put(r, f.key, f, c.value(f.sf.Type, 1))
}

func (c *c10) spoil() {
	t := c.t
	r := c.pick(func(r *c10rec) bool { return r.why() == "" })
	if r == nil {
		return
	}
	if t.Chance(1, 3) {
		k := []string{"zz", "nosuch", "valu", "vaL", "Namee"}[t.Intn(5)]
		c.t.Fault("unknown field")
		c.must(fmt.Sprintf("(hset %s %s: %s)", r.name, k, []string{"5", "nil", `"a"`, "[]"}[t.Intn(4)]))
		r.stray[k] = true
		return
	}
	fs := c10fields(r.typ)
	f := fs[t.Intn(len(fs))]
	c.t.Fault("value of the wrong kind")
	c.put(r, f.key, f, c.wrong(f.sf.Type, 2))
}

// repair makes a record convertible again.
func (c *c10) repair() {
	for _, r := range c.recs {
		if r.name == "" {
			continue
		}
		for _, k := range sortedKeysBool(r.stray) {
			c.must(fmt.Sprintf("(hdel %s %s:)", r.name, k))
			delete(r.stray, k)
		}
		for _, key := range append([]string{}, r.order...) {
			if r.vals[key].bad() != "" {
				f := *c10fieldOf(r.typ, key)
				c.put(r, key, f, c.value(f.sf.Type, 0))
			}
		}
	}
}

func sortedKeysBool(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// rec is the record a variable holds.
func (c *c10) rec(r *c10rec) *zygo.SexpHash {
	res := Eval(c.env, r.name)
	h, ok := res.Val.(*zygo.SexpHash)
	if !ok {
		c.fail("lost", "%s is no record any more: %s", r.name, res)
	}
	return h
}

func (c *c10) expect(r *c10rec) reflect.Value { return c10built{}.build(r) }

// same compares what Go got with what the records convert to.
func (c *c10) same(what string, got []interface{}, want ...interface{}) {
	g, w := c10describe(got), c10describe(want)
	if g != w {
		i := 0
		for i < len(g) && i < len(w) && g[i] == w[i] {
			i++
		}
		if i > 60 {
			i -= 60
		} else {
			i = 0
		}
		c.fail("wrong Go value", "%s: Go got\n..%s\ninstead of\n..%s", what, clip(g[i:], 700), clip(w[i:], 700))
	}
}

// back compares a record that came from Go with the Go value.
func (c *c10) back(what string, sx zygo.Sexp, v interface{}) {
	cm := &c10cmp{env: c.env, seen: map[[2]interface{}]bool{}, made: map[interface{}]*zygo.SexpHash{}, back: true}
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || (rv.Kind() == reflect.Ptr && rv.IsNil()) {
		if sx != zygo.SexpNull {
			c.fail("wrong record", "%s: nil came back as %s", what, clip(Dump(sx), 300))
		}
		return
	}
	if s := cm.value(sx, rv, "it"); s != "" {
		c.fail("wrong record", "%s: the record that came back differs: %s", what, s)
	}
}

// untouched checks that conversions leave the records alone.
func (c *c10) untouched() {
	for _, r := range c.recs {
		if r.name == "" || r.why() != "" {
			continue
		}
		cm := &c10cmp{env: c.env, seen: map[[2]interface{}]bool{}, made: map[interface{}]*zygo.SexpHash{}}
		if s := cm.record(c.rec(r), c.expect(r), r.name); s != "" {
			c.fail("record changed", "the record %s is not what was put in: %s", r.name, s)
		}
	}
}

// outcome judges whether a conversion had to work. It is true if there is
// a result to look at.
func (c *c10) outcome(text string, res Res, recs ...*c10rec) bool {
	fired := c10firings > 0
	if fired {
		c.t.Fault("factory fails")
	}
	why := ""
	for _, r := range recs {
		if s := r.why(); s != "" && why == "" {
			why = s
		}
	}
	switch {
	case res.Kind() == "error" && why == "" && !fired:
		c.fail("refused", "%s is refused: %s", text, res.ErrTxt)
	case res.Kind() == "value" && why != "":
		c.fail("not reported", "%s went through, although %s", text, why)
	case res.Kind() == "budget":
		c.fail("endless", "%s does not end", text)
	}
	if why != "" {
		c.t.Probe("conversion refused")
	}
	return res.Kind() == "value"
}

// arm makes a factory fail now and then.
func (c *c10) arm() {
	c10firings, c10armed = 0, 0
	if c.t.Chance(1, 10) {
		c10armed, c10how = c.t.Range(1, 40), c.t.Intn(2)
	}
}

func (c *c10) togo() {
	r := c.pick(nil)
	c.arm()
	text := "(togo " + r.name + ")"
	had := c.past[r]
	res := c.eval(text)
	if res.Kind() != "value" && had != nil {
		*had = append(*had, "*") // may be half of it
	}
	c.converted(r)
	c10armed = 0
	if c.outcome(text, res, r) {
		c.t.Probe("togo")
		got := c.rec(r).GoShadowStruct
		// a Go struct that was there before keeps the fields the record
		// does not have
		if v := reflect.ValueOf(got); v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct {
			for _, f := range c10fields(r.typ) {
				if fv := c10get(v.Elem(), f.sf); r.vals[f.key] == nil && !fv.IsZero() {
					old := reflect.New(fv.Type()).Elem()
					old.Set(fv)
					fv.SetZero()
					defer fv.Set(old)
				}
			}
		}
		c.same(text, []interface{}{got}, c.expect(r).Interface())
		r.shadow = true
	}
}

// host converts as a Go program does.
func (c *c10) host() {
	t := c.t
	r := c.pick(nil)
	h := c.rec(r)
	c.arm()
	dedup := map[*zygo.SexpHash]interface{}{}
	var got []interface{}
	var want []interface{}
	b := c10built{}
	conv := func(r *c10rec, h *zygo.SexpHash) Res {
		var target reflect.Value
		how := t.Intn(3)
		if !c.isShape(r.typ) && how == 2 {
			how = 1
		}
		switch how {
		case 0:
			target = reflect.New(r.typ)
		case 1:
			target = reflect.New(reflect.PtrTo(r.typ))
		default:
			target = reflect.New(c.w.shape)
		}
		c.hist = append(c.hist, fmt.Sprintf("SexpToGoStructs(%s, %s)", r.name, target.Type()))
		res := Call(func() (v zygo.Sexp, err error) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("%v", p)
				}
			}()
			_, err = zygo.SexpToGoStructs(h, target.Interface(), c.env, dedup, 0, target.Interface())
			return zygo.SexpNull, err
		})
		c.t.Logf("host %s %d => %s", r.name, how, res.Kind())
		if res.Kind() == "value" && r.why() == "" {
			if how == 0 {
				got = append(got, target.Interface())
			} else {
				got = append(got, target.Elem().Interface())
			}
			want = append(want, b.build(r).Interface())
		}
		return res
	}
	res := conv(r, h)
	c.converted(r)
	c10armed = 0
	if !c.outcome("SexpToGoStructs("+r.name+")", res, r) {
		return
	}
	c.t.Probe("host conversion")
	c.same("SexpToGoStructs("+r.name+")", got, want...)
}

// brief describes the plain fields a record has now, or is "" if one of
// them does not convert.
func (r *c10rec) brief() string {
	p := reflect.New(r.typ)
	for _, key := range r.order {
		f := c10fieldOf(r.typ, key)
		if c10heavy(f.sf.Type) {
			continue
		}
		if r.vals[key].bad() != "" {
			return ""
		}
		c10built{}.set(c10get(p.Elem(), f.sf), r.vals[key])
	}
	return c10describe(p.Interface())
}

// converted notes that a record was converted, or that this was tried.
func (c *c10) converted(r *c10rec) {
	for q := range r.reach(map[*c10rec]bool{}) {
		if s := q.brief(); s != "" {
			if c.past[q] == nil {
				c.past[q] = new([]string)
			}
			*c.past[q] = append(*c.past[q], s)
		}
	}
}

// receiver calls a method of a record. A record keeps the Go struct it was
// last converted to, but it has to be one it was converted to.
func (c *c10) receiver() {
	t := c.t
	r := c.pick(func(r *c10rec) bool { return c.isShape(r.typ) && r.why() == "" })
	if r == nil {
		return
	}
	name := r.name
	if t.Chance(1, 2) {
		fresh, text := c.construct(r.typ, 1)
		if fresh.why() != "" {
			return // it refers to a spoilt one
		}
		r, name = fresh, text
	}
	fresh := c.past[r] == nil
	c10got, c10firings = nil, 0
	text := "(_method " + name + " Me:)"
	c.must(text)
	c.t.Probe("receiver")
	if len(c10got) != 1 {
		c.fail("not called", "%s did not call the method", text)
	}
	if fresh && !r.shadow {
		c.same(text, c10got, c.expect(r).Interface())
	}
	c.converted(r)
	p := reflect.New(r.typ)
	for _, f := range c10fields(r.typ) {
		if !c10heavy(f.sf.Type) {
			c10get(p.Elem(), f.sf).Set(c10get(reflect.ValueOf(c10got[0]).Elem(), f.sf))
		}
	}
	got := c10describe(p.Interface())
	for _, s := range *c.past[r] {
		if s == got || s == "*" {
			return
		}
	}
	c.fail("wrong receiver", "%s: the Go struct %s is none the record was converted to: %s", text, got, strings.Join(*c.past[r], " or "))
}

// demo calls the methods of the demo structs.
func (c *c10) demo() {
	t := c.t
	weather := c.pick(func(r *c10rec) bool { return r.typ == c10types["weather"] })
	flyer := c.pick(func(r *c10rec) bool { return c.isShape(r.typ) && r.why() == "" && !r.shadow && c.past[r] == nil })
	get := func(r *c10rec, key string) string {
		if v := r.vals[key]; v != nil {
			return v.s
		}
		return ""
	}
	expect := func(text string, want string, recs ...*c10rec) {
		res := c.eval(text)
		c.converted(recs[0])
		if c.outcome(text, res, recs...) {
			c.t.Probe("demo method")
			if a, ok := res.Val.(*zygo.SexpArray); !ok || len(a.Val) != 1 || a.Val[0].SexpString(nil) != want {
				c.fail("wrong value", "%s gave %s, not %s", text, clip(res.Dump, 300), want)
			}
		}
	}
	c10firings = 0
	switch t.Intn(4) {
	case 0, 1:
		if weather == nil {
			return
		}
		defer c.converted(weather)
		text := "(_method (snoopy cry:\"a\") EchoWeather: " + weather.name + ")"
		bind := t.Bool()
		if bind {
			c.n++
			text = fmt.Sprintf("(def r%d (aget %s 0))", c.n, text)
		}
		res := c.eval(text)
		if !c.outcome(text, res, weather) {
			return
		}
		c.t.Probe("demo echo")
		want := c.expect(weather).Interface()
		if bind {
			c.back(text, res.Val, want)
			c.recs = append(c.recs, c.returned(weather, fmt.Sprintf("r%d", c.n)))
			return
		}
		a, ok := res.Val.(*zygo.SexpArray)
		if !ok || len(a.Val) != 1 {
			c.fail("wrong record", "%s gave %s", text, clip(res.Dump, 300))
		}
		c.back(text, a.Val[0], want)
	case 2:
		r, text := c.construct(c10types["snoopy"], 1)
		expect("(_method "+text+" GetCry:)", strconv.Quote(get(r, "cry")), r)
		r, text = c.construct(c10types["weather"], 1)
		expect("(_method "+text+" IsSunny:)", fmt.Sprint(get(r, "type") == "sunny"), r)
	case 3:
		if weather == nil || flyer == nil {
			return
		}
		// the friends fly, too
		for q := range flyer.reach(map[*c10rec]bool{}) {
			if q.vals["friends"] != nil && len(q.vals["friends"].els) > 0 {
				return
			}
		}
		text := "(_method " + flyer.name + " Fly: " + weather.name + ")"
		res := c.eval(text)
		c.converted(flyer)
		c.converted(weather)
		if !c.outcome(text, res, weather) {
			return
		}
		c.t.Probe("demo flight")
		want := ""
		if flyer.typ == c10types["snoopy"] {
			want = fmt.Sprintf("Snoopy sees weather 'VERY %s', cries '%s'", get(weather, "type"), get(flyer, "cry"))
		}
		a, ok := res.Val.(*zygo.SexpArray)
		if !ok || len(a.Val) != 2 {
			c.fail("wrong value", "%s gave %s", text, clip(res.Dump, 300))
		}
		if s, ok := a.Val[0].(*zygo.SexpStr); !ok || s.S != want {
			c.fail("wrong value", "%s gave %s, not %q", text, clip(res.Dump, 300), want)
		}
	}
}

// call calls a method; why it has to fail, or "".
func (c *c10) method() {
	t := c.t
	c10got = nil
	typ := "recv"
	isA := func(n string) func(*c10rec) bool {
		return func(r *c10rec) bool { return r.typ == c10types[n] }
	}
	shape := func(r *c10rec) bool { return c.isShape(r.typ) }
	_ = typ
	var a, b *c10rec
	var text string
	kind := t.Pick(5, 3, 2, 2, 5, 3, 2, 2, 2, 3)
	switch kind {
	case 0:
		a = c.pick(isA("c10node"))
		text = "EchoNode:"
	case 1:
		a = c.pick(isA("c10leaf"))
		text = "EchoLeaf:"
	case 2:
		a = c.pick(isA("c10chk"))
		text = "EchoChk:"
	case 3:
		a = c.pick(isA("c10tag"))
		text = "EchoTag:"
	case 4:
		a = c.pick(shape)
		text = "EchoShape:"
	case 5:
		a, b = c.pick(isA("c10node")), c.pick(shape)
		text = "EchoTwo:"
	case 6:
		a = c.pick(isA("c10node"))
		text = "TakeNode:"
	case 7:
		a = c.pick(isA("c10node"))
		text = "Boom:"
	case 8:
		a = c.pick(isA("c10node"))
		text = "Fail:"
	case 9:
		// a record of another type than the method takes
		a = c.pick(isA("c10leaf"))
		b = c.pick(func(r *c10rec) bool { return r.typ != c10types["c10leaf"] })
		if a == nil || b == nil {
			return
		}
		text = "(_method recv EchoLeaf: " + b.name + ")"
		if t.Bool() && b.typ != c10types["c10node"] {
			text = "(_method recv TakeNode: " + b.name + ")"
		}
		c10firings = 0
		res := c.eval(text)
		c.t.Fault("record of another type")
		if res.Kind() == "value" {
			c.fail("not reported", "%s went through, although a %s is not what it takes", text, c10name(b.typ))
		}
		if c10got != nil {
			c.fail("not reported", "%s called the method", text)
		}
		return
	}
	if a == nil || (kind == 5 && b == nil) {
		return
	}
	text = "(_method recv " + text + " " + a.name
	recs := []*c10rec{a}
	if kind == 5 {
		text += " " + b.name
		recs = append(recs, b)
	}
	text += ")"
	c.arm()
	bind := ""
	if kind < 5 && t.Chance(1, 3) {
		c.n++
		bind = fmt.Sprintf("r%d", c.n)
		text = "(def " + bind + " (aget " + text + " 0))"
	}
	res := c.eval(text)
	for _, r := range recs {
		c.converted(r)
	}
	c10armed = 0
	if kind == 7 {
		if res.Kind() != "error" {
			c.fail("not reported", "%s: the method panicked, and there is no error", text)
		}
		c.t.Fault("method panics")
		return
	}
	if !c.outcome(text, res, recs...) {
		return
	}
	c.t.Probe("method")
	var want []interface{}
	for _, r := range recs {
		want = append(want, c.expect(r).Interface())
	}
	if kind == 6 {
		want = []interface{}{c.expect(a).Elem().Interface()}
	}
	// each argument is converted on its own
	for i := range want {
		if len(c10got) != len(want) {
			c.fail("not called", "%s did not call the method", text)
		}
		c.same(text, c10got[i:i+1], want[i])
	}
	if bind != "" {
		c.back(text, res.Val, c10got[0])
		c.recs = append(c.recs, c.returned(a, bind))
		c.t.Probe("returned record kept")
		return
	}
	arr, ok := res.Val.(*zygo.SexpArray)
	if !ok {
		c.fail("wrong record", "%s gave %s", text, clip(res.Dump, 300))
	}
	switch kind {
	case 5:
		if len(arr.Val) != 3 {
			c.fail("wrong record", "%s gave %d values", text, len(arr.Val))
		}
		c.back(text, arr.Val[0], c10got[1])
		c.back(text, arr.Val[1], c10got[0])
	case 6, 8:
		c.t.Fault("method refuses")
	default:
		if len(arr.Val) != 1 {
			c.fail("wrong record", "%s gave %d values", text, len(arr.Val))
		}
		c.back(text, arr.Val[0], c10got[0])
	}
}

// returned is the model of a record that came back: the same, but for
// times (a known finding), in records of its own.
func (c *c10) returned(r *c10rec, name string) *c10rec {
	memo := map[*c10rec]*c10rec{}
	var rec func(r *c10rec) *c10rec
	var val func(x *c10val, typ reflect.Type) *c10val
	rec = func(r *c10rec) *c10rec {
		if n := memo[r]; n != nil {
			return n
		}
		n := &c10rec{typ: r.typ, vals: map[string]*c10val{}, stray: map[string]bool{}, shadow: true}
		memo[r] = n
		// the two share their Go struct
		if c.past[r] == nil {
			c.past[r] = new([]string)
		}
		*c.past[r] = append(*c.past[r], r.brief())
		c.past[n] = c.past[r]
		for _, key := range r.order {
			n.set(key, val(r.vals[key], nil))
		}
		return n
	}
	val = func(x *c10val, _ reflect.Type) *c10val {
		n := *x
		if x.k == 't' {
			n.k = 'n'
		}
		if x.rec != nil {
			n.rec = rec(x.rec)
		}
		n.els = nil
		for _, e := range x.els {
			n.els = append(n.els, val(e, nil))
		}
		return &n
	}
	n := rec(r)
	// a struct by value comes back as a record of its own each time
	n = c.split(n)
	n.name = name
	n.shadow = true
	return n
}

// split gives fields that hold a struct by value records of their own.
func (c *c10) split(r *c10rec) *c10rec {
	for q := range r.reach(map[*c10rec]bool{}) {
		for _, key := range q.order {
			f := c10fieldOf(q.typ, key)
			var sp func(x *c10val, typ reflect.Type)
			sp = func(x *c10val, typ reflect.Type) {
				switch {
				case x.k == 'R' && typ.Kind() == reflect.Struct:
					n := *x.rec
					n.vals = map[string]*c10val{}
					for k, v := range x.rec.vals {
						n.vals[k] = v
					}
					n.order = append([]string{}, x.rec.order...)
					c.past[&n] = c.past[x.rec]
					x.rec = &n
				case x.k == 'a' || x.k == 'm':
					for _, e := range x.els {
						sp(e, typ.Elem())
					}
				}
			}
			sp(q.vals[key], f.sf.Type)
		}
	}
	return r
}

// give has the host hand out a Go value no record was converted to.
func (c *c10) give() {
	t := c.t
	r := c.pick(func(r *c10rec) bool { return c.isShape(r.typ) && r.why() == "" })
	if r == nil {
		return
	}
	c10give = c.expect(r).Interface()
	m := "Give:"
	if _, isNode := c10give.(*C10Node); isNode && t.Bool() {
		m = "GiveNode:"
	} else if t.Chance(1, 10) {
		c10give = nil
		m = []string{"Give:", "GiveNode:"}[t.Intn(2)]
	}
	before := c10describe(c10give)
	res := c.must("(_method recv " + m + ")")
	c.t.Probe("Go value handed out")
	arr, ok := res.Val.(*zygo.SexpArray)
	if !ok || len(arr.Val) != 1 {
		c.fail("wrong record", "%s gave %s", m, clip(res.Dump, 300))
	}
	c.back(m, arr.Val[0], c10give)
	if after := c10describe(c10give); after != before {
		c.fail("Go value changed", "handing out a Go value changed it from %s to %s", clip(before, 500), clip(after, 500))
	}
}

// scalars passes values that are no records.
func (c *c10) scalars() {
	t := c.t
	type m struct {
		name string
		in   []reflect.Type
		out  bool
	}
	ms := []m{
		{"TakeShapes", []reflect.Type{reflect.TypeOf([]C10Shape{})}, false},
		{"TakeInts", []reflect.Type{reflect.TypeOf([]int64{})}, false},
		{"TakeMat", []reflect.Type{reflect.TypeOf([][]int{})}, false},
		{"TakeFloats", []reflect.Type{reflect.TypeOf(map[string]float64{})}, false},
		{"TakeMap", []reflect.Type{reflect.TypeOf(map[string]C10Shape{})}, false},
		{"EchoInt", []reflect.Type{reflect.TypeOf(int64(0)), reflect.TypeOf(0)}, true},
		{"EchoStr", []reflect.Type{reflect.TypeOf("")}, true},
		{"EchoFloat", []reflect.Type{reflect.TypeOf(0.5)}, true},
		{"EchoRaw", []reflect.Type{c10bytes}, true},
		{"TakeBool", []reflect.Type{reflect.TypeOf(true), c10time, reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0))}, false},
	}
	x := ms[t.Intn(len(ms))]
	text := "(_method recv " + x.name + ":"
	var vals []*c10val
	badAt := -1
	if t.Chance(1, 3) {
		badAt = t.Intn(len(x.in))
		c.t.Fault("argument of the wrong kind")
	}
	why := ""
	b := c10built{}
	var want []interface{}
	for i, typ := range x.in {
		v := c.value(typ, 1)
		if i == badAt {
			v = c.wrong(typ, 2)
		}
		text += " " + v.text
		vals = append(vals, v)
		if s := v.bad(); s != "" {
			why = "a " + typ.String() + " does not take " + s
		}
		seen := map[*c10rec]bool{}
		v.reach(seen)
		for q := range seen {
			if s := q.why(); s != "" {
				why = s
			}
			c.converted(q)
		}
	}
	text += ")"
	c10got, c10firings = nil, 0
	res := c.eval(text)
	switch {
	case res.Kind() == "error" && why == "":
		c.fail("refused", "%s is refused: %s", text, res.ErrTxt)
	case res.Kind() == "value" && why != "":
		c.fail("not reported", "%s went through, although %s", text, why)
	}
	if res.Kind() != "value" {
		return
	}
	c.t.Probe("plain arguments")
	for i, typ := range x.in {
		p := reflect.New(typ)
		b.set(p.Elem(), vals[i])
		want = append(want, p.Elem().Interface())
	}
	if len(c10got) != len(want) {
		c.fail("not called", "%s did not call the method", text)
	}
	for i := range want {
		c.same(text, c10got[i:i+1], want[i])
	}
	if x.out {
		arr, ok := res.Val.(*zygo.SexpArray)
		if !ok || len(arr.Val) != len(want) {
			c.fail("wrong record", "%s gave %s", text, clip(res.Dump, 300))
		}
		for i := range want {
			c.back(text, arr.Val[i], want[i])
		}
	}
}

// assign overwrites a record with another through a pointer.
func (c *c10) assign() {
	r := c.pick(nil)
	q := c.pick(func(q *c10rec) bool { return q.typ == r.typ })
	if q == r {
		return
	}
	c.must(fmt.Sprintf("(derefSet (& %s) %s)", r.name, q.name))
	c.t.Probe("record overwritten")
	delete(c.past, r)
	r.shadow = false
	r.vals, r.order, r.stray = map[string]*c10val{}, append([]string{}, q.order...), map[string]bool{}
	for k, v := range q.vals {
		r.vals[k] = v
	}
	for k := range q.stray {
		r.stray[k] = true
	}
}

// misuse is calls that cannot work.
func (c *c10) misuse() {
	r := c.pick(nil)
	text := []string{"(_method %s NoSuch:)", "(_method %s Echo:)", "(_method recv EchoNode:)", "(_method recv EchoNode: %s 5)", "(_method recv EchoNode: (hash a:1))", "(_method (hash a:1) EchoNode: %s)", "(togo [%s])", "(togo (hash a:1))", "(togo)", "(_method recv EchoInt: 5 1.5)", "(_method recv EchoTwo: %s)"}[c.t.Intn(11)]
	if strings.Contains(text, "%s") {
		text = fmt.Sprintf(text, r.name)
	}
	res := c.eval(text)
	if res.Kind() != "error" {
		c.fail("not reported", "%s gave %s", text, res)
	}
}

func runRecords(t *core.T) { runC10(t, c10own) }
func runDemo(t *core.T)    { runC10(t, c10demo) }

func runC10(t *core.T, w *c10world) {
	restoreRegistry()
	defer restoreRegistry()
	c10armed, c10firings = 0, 0
	c10register()
	zygo.RegisterDemoStructs()
	SetBudget(2000000, 5000000)
	c := &c10{t: t, w: w, past: map[*c10rec]*[]string{}}
	c.env = zygo.NewZlisp()
	c.env.StandardSetup()
	if w == c10demo {
		c.env.ImportDemoData()
	}
	defer c.env.Close()
	if w == c10own {
		c.must("(def recv (c10node))")
	}
	for i, n := 0, t.Range(1, 5); i < n; i++ {
		c.define()
	}
	t.Many(2, 40, 14, func(i int) {
		own := 1
		if w != c10own {
			own = 0
		}
		switch t.Pick(2, 6, 2, 2, 5, 4, 8*own, 2*own, 3*own, 1, own, 2*own, 6-6*own) {
		case 0:
			if len(c.recs) < 12 {
				c.define()
			}
		case 1:
			c.write()
		case 2:
			c.spoil()
		case 3:
			c.repair()
		case 4:
			c.togo()
		case 5:
			c.host()
		case 6:
			c.method()
		case 7:
			c.give()
		case 8:
			c.scalars()
		case 9:
			c.assign()
		case 11:
			c.receiver()
		case 12:
			c.demo()
		default:
			c.misuse()
		}
		c.untouched()
	})
	if bad := atRest(c.env); bad != "" {
		c.fail("not at rest", "the interpreter is left with %s", bad)
	}
	t.NonTrivial()
	t.Sample(strings.Join(c.hist, "\n"))
	t.State(strings.Join(c.hist, "\n"))
}

// recheckDemo is recheckEval with the demo structs registered.
func recheckDemo(input string) (bool, string) {
	zygo.RegisterDemoStructs()
	return recheckEval(input)
}

func init() {
	core.Register(&core.Property{
		ID: "C10", Level: "exploration", Recheck: recheckDemo,
		Rule:      "A run is a seeded history of a script and a Go host: records of six registered struct types (and, in a second scenario, of the demo structs; every supported field kind, embedded structs, hidden and unexported fields, structs by value and by pointer, interfaces, slices and maps of all of these, times) are made, referred to from several places and in cycles, written to, spoiled and repaired, and converted by togo, by the host with all three kinds of target, as receivers of methods and as arguments of methods that record what they got and hand it back; the host also hands out structs of its own. Oracle: a model of the records builds the expected Go value, compared field by field with sharing; returned records are compared with the Go value; what does not convert has to be reported. Non-trivial: all. Distinct: by event log. States: distinct histories.",
		QuickRuns: 60000, ThorRuns: 2000000,
		Assumptions: []string{
			"a record that received a method call keeps the Go struct of its first call",
			"a time in a struct that comes back from Go is nil (known finding)",
		},
		Components: map[string]interface{}{
			"real":      []string{"the whole library: parser, generator, VM, records, conversions both ways, method calls"},
			"simulated": []string{"the Go host: its struct types, factories and methods, some failing", "Go map iteration order and hash seeds"},
		},
		Scenarios: []*core.Scenario{{Prop: "C10", Name: "records", Weight: 4, Run: runRecords}, {Prop: "C10", Name: "demo records", Weight: 1, Run: runDemo}},
	})
}
