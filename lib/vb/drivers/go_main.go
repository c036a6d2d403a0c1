// Schema-driven driver over generated Go packages. Values are built and inspected by reflection.
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"
	"unsafe"
)

type Msg interface {
	WriteBytes(data io.Writer, tag bool)
	GetSizeInBytes() int
}

type Schema struct {
	New     []func() any
	From    []func(io.Reader) (any, error)
	Type    func(m any) int
	Consts  []int
	Process func(r io.Reader, max int) ([]any, error)
	Unpack  func(r io.Reader) ([]any, error)
	Pack    func(l []any, w io.Writer)
	Packed  func(l []any) int
}

type member struct {
	name, typ string
	list      bool
}
type structDef struct {
	name    string
	members []member
}
type schemaDef struct {
	rename   bool
	structs  map[string]structDef
	enums    map[string]bool
	messages []structDef
}

var defs []schemaDef
var S *Schema
var D *schemaDef
var toks []string
var pos int
var out []string

func tok() string {
	if pos >= len(toks) {
		panic("driver: token underrun")
	}
	pos++
	return toks[pos-1]
}
func ni() int {
	n, err := strconv.Atoi(tok())
	if err != nil {
		panic("driver: " + err.Error())
	}
	return n
}
func w(s string)    { out = append(out, s) }
func wi(i int)      { out = append(out, strconv.Itoa(i)) }
func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}
func unhex(s string) []byte { b, err := hex.DecodeString(s[1:]); if err != nil { panic(err) }; return b }

func field(o reflect.Value, m member) reflect.Value {
	n := m.name
	if D.rename {
		n = strings.ToUpper(n[:1]) + n[1:]
	}
	f := o.FieldByName(n)
	if !f.IsValid() {
		panic("driver: no field " + n)
	}
	return open(f)
}

// members that are not exported (--go-no-rename) are reached as well
func open(f reflect.Value) reflect.Value {
	if f.CanAddr() {
		return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	}
	return f
}

func setType(f reflect.Value, t string) {
	if sd, ok := D.structs[t]; ok {
		setMembers(f, sd)
		return
	}
	x := tok()
	switch t {
	case "string":
		f.SetString(string(unhex(x)))
	case "bool":
		f.SetBool(x != "0")
	case "float":
		v, _ := strconv.ParseUint(x, 10, 32)
		f.Set(reflect.ValueOf(math.Float32frombits(uint32(v))))
	case "double":
		v, _ := strconv.ParseUint(x, 10, 64)
		f.Set(reflect.ValueOf(math.Float64frombits(v)))
	default:
		if f.CanInt() {
			v, _ := strconv.ParseInt(x, 10, 64)
			if f.OverflowInt(v) {
				panic("driver: overflow")
			}
			f.SetInt(v)
		} else {
			v, _ := strconv.ParseUint(x, 10, 64)
			if f.OverflowUint(v) {
				panic("driver: overflow")
			}
			f.SetUint(v)
		}
	}
}
func setMembers(o reflect.Value, sd structDef) {
	for _, m := range sd.members {
		f := field(o, m)
		if m.list {
			n := ni()
			s := reflect.MakeSlice(f.Type(), n, n)
			for i := 0; i < n; i++ {
				if sub, ok := D.structs[m.typ]; ok {
					_ = sub
				}
				setType(s.Index(i), m.typ)
			}
			f.Set(s)
		} else {
			setType(f, m.typ)
		}
	}
}
func prType(f reflect.Value, t string) {
	if sd, ok := D.structs[t]; ok {
		prMembers(f, sd)
		return
	}
	switch t {
	case "string":
		w("s" + hex.EncodeToString([]byte(f.String())))
	case "bool":
		wi(bi(f.Bool()))
	case "float":
		w(strconv.FormatUint(uint64(math.Float32bits(f.Interface().(float32))), 10))
	case "double":
		w(strconv.FormatUint(math.Float64bits(f.Interface().(float64)), 10))
	default:
		if f.CanInt() {
			w(strconv.FormatInt(f.Int(), 10))
		} else {
			w(strconv.FormatUint(f.Uint(), 10))
		}
	}
}
func prMembers(o reflect.Value, sd structDef) {
	for _, m := range sd.members {
		f := field(o, m)
		if m.list {
			wi(f.Len())
			for i := 0; i < f.Len(); i++ {
				prType(f.Index(i), m.typ)
			}
		} else {
			prType(f, m.typ)
		}
	}
}
func mk(mi int) any { // pointer to message
	o := S.New[mi-1]()
	p := reflect.New(reflect.TypeOf(o))
	p.Elem().Set(reflect.ValueOf(o))
	setMembers(p.Elem(), D.messages[mi-1])
	return p.Interface()
}
func val(o any) reflect.Value {
	v := reflect.ValueOf(o)
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.CanAddr() {
		p := reflect.New(v.Type()).Elem()
		p.Set(v)
		return p
	}
	return v
}
func pmsg(o any) {
	mi := S.Type(o)
	wi(mi)
	v := val(o)
	if mi >= 1 && mi <= len(D.messages) {
		if v.Type().Name() != D.messages[mi-1].name {
			w("?wrongclass")
			return
		}
		prMembers(v, D.messages[mi-1])
	}
}
func view(style int) (io.Reader, *bytes.Reader, int) {
	vo, off, trail := ni(), ni(), ni()
	_ = vo
	_ = trail
	d := unhex(tok())
	full := append(bytes.Repeat([]byte{0xAA}, off), d...)
	r := bytes.NewReader(full)
	r.Seek(int64(off), io.SeekStart)
	switch style {
	case 1:
		return iotest.OneByteReader(r), r, len(full)
	case 2:
		return eofWithData{r}, r, len(full)
	}
	return r, r, len(full)
}

// a reader may report the end together with the last bytes
type eofWithData struct{ r *bytes.Reader }

func (e eofWithData) Read(b []byte) (int, error) {
	n, err := e.r.Read(b)
	if err == nil && n > 0 && e.r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}
func guard(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(string); ok && strings.HasPrefix(s, "driver") {
				panic(e)
			}
			p = "panic"
			fmt.Fprintf(os.Stderr, "panic: %v\n", e)
		}
	}()
	f()
	return
}

func op(c string) {
	switch c {
	case "W", "G":
		mi, tag := ni(), ni() != 0
		_, _, _, off := ni(), ni(), ni(), ni()
		o := mk(mi).(Msg)
		var b bytes.Buffer
		sz := -1
		if p := guard(func() { sz = o.GetSizeInBytes() }); p != "" {
			sz = -1
		}
		if p := guard(func() { o.WriteBytes(&b, tag) }); p != "" {
			w("err"); w(p); wi(sz); wi(sz); wi(1)
			return
		}
		w("ok"); wi(sz); wi(sz); wi(off + b.Len()); wi(1); w("x" + hex.EncodeToString(b.Bytes()))
	case "R":
		mi, style := ni(), ni()
		r, br, n := view(style)
		var m any
		var err error
		if p := guard(func() { m, err = S.From[mi-1](r) }); p != "" {
			w("err"); w(p)
			return
		}
		if err != nil {
			w("err"); w("error")
			return
		}
		w("ok"); wi(n - br.Len()); pmsg(m)
	case "P", "U":
		max := 0
		if c == "P" {
			max = ni()
		}
		r, br, n := view(0)
		var l []any
		var err error
		if p := guard(func() {
			if c == "P" {
				l, err = S.Process(r, max)
			} else {
				l, err = S.Unpack(r)
			}
		}); p != "" {
			w("err"); w(p)
			return
		}
		if err != nil {
			w("err"); w("error")
			return
		}
		w("ok"); wi(n - br.Len()); wi(len(l))
		for _, m := range l {
			pmsg(m)
		}
	case "K":
		_, _, _, off, n := ni(), ni(), ni(), ni(), ni()
		var l []any
		for i := 0; i < n; i++ {
			l = append(l, mk(ni()))
		}
		var b bytes.Buffer
		sz := -1
		guard(func() { sz = S.Packed(l) })
		if p := guard(func() { S.Pack(l, &b) }); p != "" {
			w("err"); w(p); wi(sz); wi(1)
			return
		}
		w("ok"); wi(sz); wi(off + b.Len()); wi(1); w("x" + hex.EncodeToString(b.Bytes()))
	case "Q":
		_, off, _, _, n := ni(), ni(), ni(), ni(), ni()
		var b bytes.Buffer
		b.Write(bytes.Repeat([]byte{0xAA}, off))
		w("ok")
		type it struct {
			mi  int
			tag bool
		}
		var its []it
		for i := 0; i < n; i++ {
			mi, tag := ni(), ni() != 0
			o := mk(mi).(Msg)
			o.WriteBytes(&b, tag)
			its = append(its, it{mi, tag})
			w("w"); wi(b.Len())
		}
		w("b"); wi(1); w("x" + hex.EncodeToString(b.Bytes()[off:]))
		r := bytes.NewReader(b.Bytes())
		r.Seek(int64(off), io.SeekStart)
		for _, x := range its {
			if x.tag {
				l, err := S.Process(r, 1)
				if err != nil {
					w("rerr")
					return
				}
				w("t"); wi(b.Len() - r.Len()); wi(len(l))
				for _, m := range l {
					pmsg(m)
				}
			} else {
				m, err := S.From[x.mi-1](r)
				if err != nil {
					w("rerr")
					return
				}
				w("r"); wi(b.Len() - r.Len()); pmsg(m)
			}
		}
	case "D":
		mi, style := ni(), ni()
		o := S.New[mi-1]()
		if style == 1 {
			v := reflect.New(reflect.TypeOf(o)).Elem()
			v.Set(reflect.ValueOf(o))
			dirty(v)
			o = S.New[mi-1]()
		}
		var b bytes.Buffer
		m := o.(Msg)
		m.WriteBytes(&b, true)
		w("ok"); wi(m.GetSizeInBytes()); wi(m.GetSizeInBytes()); wi(S.Type(o)); w("x" + hex.EncodeToString(b.Bytes()))
		prMembers(val(o), D.messages[mi-1])
	case "T":
		w("ok")
		for i, m := range D.messages {
			w(m.name); wi(S.Consts[i]); wi(S.Type(S.New[i]()))
		}
	default:
		w("badop")
	}
}
func dirty(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dirty(open(v.Field(i)))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 3, 3))
	case reflect.String:
		v.SetString("dirt")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(7)
	default:
		if v.CanInt() {
			v.SetInt(7)
		} else if v.CanUint() {
			v.SetUint(7)
		}
	}
}
func loadDefs(f string) {
	raw, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	type rawSchema struct {
		Rename   *bool
		Enums    []struct{ Name string }
		Structs  []struct {
			Name    string
			Members [][]any
		}
		Messages []struct {
			Name    string
			Members [][]any
		}
	}
	var rs []rawSchema
	if err := json.Unmarshal(raw, &rs); err != nil {
		panic(err)
	}
	cv := func(name string, ms [][]any) structDef {
		sd := structDef{name: name}
		for _, m := range ms {
			sd.members = append(sd.members, member{m[0].(string), m[1].(string), m[2].(bool)})
		}
		return sd
	}
	for _, r := range rs {
		d := schemaDef{rename: r.Rename == nil || *r.Rename, structs: map[string]structDef{}, enums: map[string]bool{}}
		for _, e := range r.Enums {
			d.enums[e.Name] = true
		}
		for _, s := range r.Structs {
			d.structs[s.Name] = cv(s.Name, s.Members)
		}
		for _, s := range r.Messages {
			d.messages = append(d.messages, cv(s.Name, s.Members))
		}
		defs = append(defs, d)
	}
}
func main() {
	loadDefs(os.Args[1])
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadString('\n')
		line = strings.TrimRight(line, "\n")
		if line != "" {
			toks = strings.Split(line, " ")
			pos = 0
			out = nil
			id, si, c := tok(), ni(), tok()
			ni()
			ni()
			S = schemas[si]
			D = &defs[si]
			if S == nil {
				w("noschema")
			} else {
				func() {
					defer func() {
						if e := recover(); e != nil {
							fmt.Fprintf(os.Stderr, "driver error %s: %v\n", id, e)
							out = []string{"drivererr", strings.ReplaceAll(fmt.Sprint(e), " ", "_")}
						}
					}()
					op(c)
				}()
			}
			os.Stdout.WriteString(id + " " + strings.Join(out, " ") + "\n")
		}
		if err != nil {
			return
		}
	}
}
