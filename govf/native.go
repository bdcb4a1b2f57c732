package govf

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

// natives are pure library functions, evaluated on constant arguments by the
// library itself.
var natives = map[string]any{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.ToTitle": strings.ToTitle,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.Index": strings.Index,
	"strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strings.LastIndex": strings.LastIndex, "strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Count": strings.Count, "strings.Title": strings.Title, "strings.Cut": strings.Cut,
	"strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.FormatInt": strconv.FormatInt,
	"time.ParseDuration": time.ParseDuration, "(time.Duration).Seconds": time.Duration.Seconds, "(time.Duration).Minutes": time.Duration.Minutes,
	"(time.Duration).Hours": time.Duration.Hours, "(time.Duration).Milliseconds": time.Duration.Milliseconds,
	"(time.Duration).Microseconds": time.Duration.Microseconds, "(time.Duration).Nanoseconds": time.Duration.Nanoseconds,
	"(time.Duration).Truncate": time.Duration.Truncate, "(time.Duration).Round": time.Duration.Round, "(time.Duration).Abs": time.Duration.Abs,
	"math.Floor": math.Floor, "math.Ceil": math.Ceil,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote,
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter,
	"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString, "unicode/utf8.ValidRune": utf8.ValidRune,
}

func (e *Engine) native(st *State, name string, args []Val) (Val, bool) {
	fn, ok := natives[name]
	if !ok {
		return nil, false
	}
	rv := reflect.ValueOf(fn)
	if rv.Type().NumIn() != len(args) {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range args {
		x, ok := toNative(a, rv.Type().In(i))
		if !ok {
			return nil, false
		}
		in = append(in, x)
	}
	out := rv.Call(in)
	var vs []Val
	for _, o := range out {
		if o.Type() == errType {
			if o.IsNil() {
				vs = append(vs, NilV{})
			} else {
				vs = append(vs, errVal(st, "error of "+name))
			}
			continue
		}
		v, ok := fromNative(o)
		if !ok {
			return nil, false
		}
		vs = append(vs, v)
	}
	if len(vs) == 1 {
		return vs[0], true
	}
	return TupleV{vs}, true
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func toNative(v Val, t reflect.Type) (reflect.Value, bool) {
	if f, ok := v.(FloatV); ok && t.Kind() == reflect.Float64 {
		return reflect.ValueOf(f.F).Convert(t), true
	}
	x, ok := v.(*Term)
	if !ok {
		return reflect.Value{}, false
	}
	switch {
	case x.IsStr() && t.Kind() == reflect.String:
		return reflect.ValueOf(x.S).Convert(t), true
	case x.IsInt() && t.Kind() != reflect.Float64 && t.ConvertibleTo(reflect.TypeOf(int64(0))):
		return reflect.ValueOf(x.N).Convert(t), true
	case x.IsBool() && t.Kind() == reflect.Bool:
		return reflect.ValueOf(x.N == 1), true
	}
	return reflect.Value{}, false
}

func fromNative(v reflect.Value) (Val, bool) {
	switch v.Kind() {
	case reflect.String:
		return StrC(v.String()), true
	case reflect.Bool:
		return BoolC(v.Bool()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return IntC(v.Int()), true
	case reflect.Float64, reflect.Float32:
		return FloatV{v.Float()}, true
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return IntC(int64(v.Uint())), true
	}
	return nil, false
}

// Sprintf renders verbs over terms; ok is false if a verb is not modelled.
func sprintf(format string, args []Val) (*Term, bool) {
	var parts []*Term
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, StrC(lit))
			lit = ""
		}
	}
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return nil, false
		}
		verb := format[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		if n >= len(args) {
			return nil, false
		}
		a := args[n]
		n++
		if iv, ok := a.(IfaceV); ok {
			if m := methodsOf(iv); m {
				return nil, false
			}
			a = iv.V
		}
		t, ok := a.(*Term)
		if !ok {
			return nil, false
		}
		switch {
		case (verb == "%v" || verb == "%s") && t.Sort == Str:
			flush()
			parts = append(parts, t)
		case t.IsStr():
			lit += fmt.Sprintf(verb, t.S)
		case t.IsInt():
			lit += fmt.Sprintf(verb, t.N)
		case t.IsBool():
			lit += fmt.Sprintf(verb, t.N == 1)
		default:
			return nil, false
		}
	}
	if n != len(args) {
		return nil, false
	}
	flush()
	return Cat(Str, parts...), true
}

// methodsOf reports whether fmt would call a method of the value.
func methodsOf(v IfaceV) bool {
	ms := typesMethodSet(v.T)
	for _, n := range []string{"Error", "String", "Format", "GoString"} {
		if ms[n] {
			return true
		}
	}
	return false
}
