package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A little of package reflect: a reflect.Value carries the interface it was
// made from in its pointer field.

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.String:
			return reflect.String
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Float64:
			return reflect.Float64
		case types.Float32:
			return reflect.Float32
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (p *Path) reflectVal(v Iface) Value { return Struct{(*Value)(nil), UPtr{v}, p.c.Const(64, 0)} }

func (p *Path) reflectIface(v Value) (Iface, bool) {
	s, ok := v.(Struct)
	if !ok || len(s) != 3 {
		p.unsupported("reflection")
	}
	u, ok := s[1].(UPtr)
	if !ok {
		return Iface{}, false
	}
	i, ok := u.V.(Iface)
	return i, ok && i.T != nil
}

func init() {
	reg("reflect.ValueOf", func(p *Path, fn *ssa.Function, a []Value) Value { return p.reflectVal(a[0].(Iface)) })
	reg("(reflect.Value).IsValid", func(p *Path, fn *ssa.Function, a []Value) Value {
		_, ok := p.reflectIface(a[0])
		return p.c.Bool(ok)
	})
	reg("(reflect.Value).Kind", func(p *Path, fn *ssa.Function, a []Value) Value {
		i, ok := p.reflectIface(a[0])
		if !ok {
			return p.c.Const(64, 0)
		}
		return p.c.Const(64, uint64(kindOf(i.T)))
	})
	reg("(reflect.Value).IsNil", func(p *Path, fn *ssa.Function, a []Value) Value {
		i, ok := p.reflectIface(a[0])
		if ok {
			switch x := i.V.(type) {
			case *Value:
				return p.c.Bool(x == nil)
			case []Value:
				return p.c.Bool(x == nil)
			case *MapV:
				return p.c.Bool(x == nil)
			}
		}
		p.unsupported("reflection: IsNil")
		return nil
	})
	reg("(reflect.Value).Elem", func(p *Path, fn *ssa.Function, a []Value) Value {
		i, ok := p.reflectIface(a[0])
		if !ok {
			p.unsupported("reflection: Elem")
		}
		pt, isp := i.T.Underlying().(*types.Pointer)
		c, isc := i.V.(*Value)
		if !isp || !isc {
			p.unsupported("reflection: Elem")
		}
		if c == nil {
			return Struct{(*Value)(nil), UPtr{}, p.c.Const(64, 0)}
		}
		return p.reflectVal(Iface{pt.Elem(), *c})
	})
}

// mapstructure.Decode from a struct (or a map) into a map[string]interface{}.
func (p *Path) mapstructure(in Iface, out Value) Value {
	if in.T == nil {
		return Iface{}
	}
	t, v := in.T, in.V
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		c, isc := v.(*Value)
		if !isc || c == nil {
			p.unsupported("mapstructure: nil")
		}
		t, v = pt.Elem(), *c
	}
	to := out.(Iface)
	cell, ok := to.V.(*Value)
	mt, okm := deref(to.T).Underlying().(*types.Map)
	if !ok || !okm || !isString(mt.Key()) {
		p.unsupported("mapstructure: target")
	}
	m, _ := (*cell).(*MapV)
	if m == nil {
		m = newMap(mt.Key())
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		src, _ := v.(*MapV)
		if src != nil {
			for _, e := range src.ents {
				if !e.dead {
					p.mapSet(m, e.k, e.v)
				}
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			tag := reflect.StructTag(u.Tag(i)).Get("mapstructure")
			name := f.Name()
			if tag == "-" {
				continue
			}
			if tag != "" {
				if strings.Contains(tag, ",") {
					p.unsupported("mapstructure: tag " + tag)
				}
				name = tag
			}
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				p.unsupported("mapstructure: nested struct")
			}
			fv := copyVal(v.(Struct)[i])
			if _, ok := f.Type().Underlying().(*types.Interface); !ok {
				fv = Iface{f.Type(), fv}
			}
			p.mapSet(m, name, fv)
		}
	default:
		p.unsupported("mapstructure: source")
	}
	store(cell, m)
	return Iface{}
}

func init() {
	reg("github.com/mitchellh/mapstructure.Decode", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.mapstructure(a[0].(Iface), a[1])
	})
}
