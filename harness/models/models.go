// Package models holds Go-source stand-ins the engine interprets instead of functions it
// cannot encode (run-time internals and reflection). Each is part of the claim.
package models

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"reflect"
	"strconv"

	"github.com/madkins23/go-slog/internal/zzverif/jt"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// FileWrite replaces (*os.File).Write: what is written is kept for sym.Stdout.
func FileWrite(f *os.File, b []byte) (int, error) {
	if f != os.Stderr {
		sym.Wrote(b)
	}
	return len(b), nil
}

// FileOpen replaces os.Open: there are the files of sym.File.
func FileOpen(name string) (*os.File, error) { return sym.Open(name) }

// FileRead replaces (*os.File).Read.
func FileRead(f *os.File, b []byte) (int, error) { return sym.Read(f, b) }

// FileClose replaces (*os.File).Close.
func FileClose(f *os.File) error { return nil }

// FileWriteString replaces (*os.File).WriteString.
func FileWriteString(f *os.File, s string) (int, error) {
	if f != os.Stderr {
		sym.Wrote([]byte(s))
	}
	return len(s), nil
}

func asAssign(err error, target any) bool { panic("intrinsic") }

func nativeMarshal(v any) (b []byte, errText string, ok bool) { panic("intrinsic") }

// ErrorsAs replaces errors.As.
func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for {
		if asAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err == nil {
					continue
				}
				if ErrorsAs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func digits(x uint64) string { panic("intrinsic") }

// AppendInt and the like replace those of strconv for symbolic numbers in base 10.
func AppendInt(dst []byte, i int64, base int) []byte {
	if i < 0 {
		dst = append(dst, '-')
		return append(dst, digits(uint64(-i))...)
	}
	return append(dst, digits(uint64(i))...)
}

func AppendUint(dst []byte, i uint64, base int) []byte { return append(dst, digits(i)...) }

func FormatInt(i int64, base int) string {
	if i < 0 {
		return "-" + digits(uint64(-i))
	}
	return digits(uint64(i))
}

func FormatUint(i uint64, base int) string { return digits(i) }

// JSONMarshal replaces encoding/json.Marshal: strings and lists of strings symbolically,
// other plain data only where it is concrete.
func JSONMarshal(v any) ([]byte, error) {
	switch x := v.(type) {
	case string:
		return appendQuoted(nil, x), nil
	case []string:
		if x == nil {
			return []byte("null"), nil
		}
		b := []byte{'['}
		for i, s := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = appendQuoted(b, s)
		}
		return append(b, ']'), nil
	case map[string]any:
		if x == nil {
			return []byte("null"), nil
		}
		keys := make([]string, 0, len(x))
		for k := range x {
			i := len(keys)
			for i > 0 && k < keys[i-1] {
				i--
			}
			keys = append(keys, "")
			copy(keys[i+1:], keys[i:])
			keys[i] = k
		}
		b := []byte{'{'}
		for i, k := range keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(appendQuoted(b, k), ':')
			v, err := JSONMarshal(x[k])
			if err != nil {
				return nil, err
			}
			b = append(b, v...)
		}
		return append(b, '}'), nil
	case []any:
		if x == nil {
			return []byte("null"), nil
		}
		b := []byte{'['}
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			v, err := JSONMarshal(e)
			if err != nil {
				return nil, err
			}
			b = append(b, v...)
		}
		return append(b, ']'), nil
	case interface{ MarshalJSON() ([]byte, error) }:
		b, err := x.MarshalJSON()
		if err != nil {
			return nil, errors.New("json: error calling MarshalJSON: " + err.Error())
		}
		return b, nil
	case interface{ MarshalText() ([]byte, error) }:
		b, err := x.MarshalText()
		if err != nil {
			return nil, errors.New("json: error calling MarshalText: " + err.Error())
		}
		return appendQuoted(nil, string(b)), nil
	}
	b, et, _ := nativeMarshal(v)
	if et != "" {
		return nil, errors.New(et)
	}
	return b, nil
}

// SlogJSONMarshal replaces log/slog.appendJSONMarshal, which leaves <, > and & as they are.
func SlogJSONMarshal(buf *[]byte, v any) error {
	b, err := JSONMarshal(v)
	if err != nil {
		return err
	}
	*buf = appendUnescaped(*buf, b)
	return nil
}

// appendUnescaped leaves <, > and & in texts as they are.
func appendUnescaped(dst, b []byte) []byte {
	for i := 0; i < len(b); i++ {
		if b[i] == '\\' && b[i+1] == 'u' {
			switch string(b[i+2 : i+6]) {
			case "003c":
				dst = append(dst, '<')
				i += 5
				continue
			case "003e":
				dst = append(dst, '>')
				i += 5
				continue
			case "0026":
				dst = append(dst, '&')
				i += 5
				continue
			}
		} else if b[i] == '\\' {
			dst = append(dst, b[i])
			i++
		}
		dst = append(dst, b[i])
	}
	return dst
}

type encoder struct {
	enc    *json.Encoder
	w      io.Writer
	plain  bool
	prefix string
	indent string
}

var encoders []*encoder

func encoderOf(e *json.Encoder) *encoder {
	for _, x := range encoders {
		if x.enc == e {
			return x
		}
	}
	panic("an encoder nobody made")
}

// JSONNewEncoder and the like replace the encoders of encoding/json.
func JSONNewEncoder(w io.Writer) *json.Encoder {
	e := &json.Encoder{}
	encoders = append(encoders, &encoder{enc: e, w: w})
	return e
}

func JSONSetEscapeHTML(e *json.Encoder, on bool) { encoderOf(e).plain = !on }

func JSONSetIndent(e *json.Encoder, prefix, indent string) {
	x := encoderOf(e)
	x.prefix, x.indent = prefix, indent
}

func JSONEncode(e *json.Encoder, v any) error {
	x := encoderOf(e)
	b, err := JSONMarshal(v)
	if err != nil {
		return err
	}
	if x.plain {
		b = appendUnescaped(nil, b)
	}
	if x.prefix != "" || x.indent != "" {
		var buf bytes.Buffer
		if err := json.Indent(&buf, b, x.prefix, x.indent); err != nil {
			return err
		}
		b = buf.Bytes()
	}
	_, err = x.w.Write(append(b, '\n'))
	return err
}

// JSONMarshalIndent replaces encoding/json.MarshalIndent.
func JSONMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	b, err := JSONMarshal(v)
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	if err := json.Indent(&buf, b, prefix, indent); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func unsupported(what string) { panic("intrinsic") }

// JSONUnmarshal replaces encoding/json.Unmarshal into a map[string]any or an any.
func JSONUnmarshal(data []byte, v any) error {
	switch v.(type) {
	case *map[string]any, *any:
	default:
		unsupported("encoding/json.Unmarshal into other than a map or any")
	}
	n, e := jt.ParseLoose(data)
	if e != "" {
		return errors.New("invalid JSON: " + e)
	}
	x, err := toAny(n)
	switch t := v.(type) {
	case *map[string]any:
		switch m := x.(type) {
		case nil:
			*t = nil
		case map[string]any:
			if *t == nil {
				*t = map[string]any{}
			}
			for k, v := range m {
				(*t)[k] = v
			}
		default:
			return errors.New("json: cannot unmarshal into Go value of type map[string]interface {}")
		}
	case *any:
		*t = x
	}
	return err
}

func toAny(n *jt.Node) (any, error) {
	var err error
	switch n.Kind {
	case jt.Null:
		return nil, nil
	case jt.Bool:
		return n.Text == "true", nil
	case jt.String:
		return n.Text, nil
	case jt.Number:
		f, err := strconv.ParseFloat(n.Text, 64)
		if err != nil {
			return nil, errors.New("json: cannot unmarshal number " + n.Text + " into Go value of type float64")
		}
		return f, nil
	case jt.Array:
		s := []any{}
		for _, k := range n.Kids {
			x, e := toAny(k)
			if e != nil && err == nil {
				err = e
			}
			s = append(s, x)
		}
		return s, err
	}
	m := map[string]any{}
	for i, k := range n.Keys {
		x, e := toAny(n.Kids[i])
		if e != nil {
			if err == nil {
				err = e
			}
		}
		m[k] = x
	}
	return m, err
}

const hex = "0123456789abcdef"

func appendQuoted(dst []byte, s string) []byte {
	dst = append(dst, '"')
	for i, r := range s {
		switch {
		case r == '"' || r == '\\':
			dst = append(dst, '\\', byte(r))
		case r == '\b':
			dst = append(dst, '\\', 'b')
		case r == '\f':
			dst = append(dst, '\\', 'f')
		case r == '\n':
			dst = append(dst, '\\', 'n')
		case r == '\r':
			dst = append(dst, '\\', 'r')
		case r == '\t':
			dst = append(dst, '\\', 't')
		case r < 0x20 || r == '<' || r == '>' || r == '&':
			dst = append(dst, '\\', 'u', '0', '0', hex[r>>4], hex[r&0xf])
		case r == 0x2028 || r == 0x2029:
			dst = append(dst, '\\', 'u', '2', '0', '2', hex[r&0xf])
		case r == 0xfffd && s[i] != 0xef:
			dst = append(dst, `\ufffd`...)
		default:
			dst = append(dst, string(r)...)
		}
	}
	return append(dst, '"')
}

func realName(f float64) string { panic("stand-in") }

// AppendReal shows a float that the engine treats as a real number.
func AppendReal(dst []byte, f float64) []byte { return append(dst, realName(f)...) }

// The assertions of testify, without the texts of failures.

func assertFail() bool { sym.TestFails(); return false }

func AssertFail(t any, text string, args ...any) bool { return assertFail() }

func AssertEqual(t any, expected, actual any, args ...any) bool {
	return equal(expected, actual) || assertFail()
}

// equal is reflect.DeepEqual, taken apart at maps so that every comparison of texts is one of its own.
func equal(a, b any) bool {
	if x, ok := a.(map[string]any); ok {
		y, ok := b.(map[string]any)
		if !ok || (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !equal(v, w) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func AssertLen(t any, x any, n int, args ...any) bool {
	if x == nil {
		return assertFail()
	}
	switch v := reflect.ValueOf(x); v.Kind() {
	case reflect.Map, reflect.Slice, reflect.String, reflect.Array, reflect.Chan:
		return v.Len() == n || assertFail()
	}
	return assertFail()
}

func AssertEmpty(t any, x any, args ...any) bool {
	if x == nil {
		return true
	}
	if b, ok := x.(*bytes.Buffer); ok {
		return b == nil || b.Cap() == 0 || assertFail()
	}
	switch v := reflect.ValueOf(x); v.Kind() {
	case reflect.Map, reflect.Slice:
		return v.Len() == 0 || assertFail()
	}
	unsupported("assert.Empty")
	return false
}

func AssertNoError(t any, err error, args ...any) bool { return err == nil || assertFail() }

func AssertTrue(t any, x bool, args ...any) bool { return x || assertFail() }

func AssertFalse(t any, x bool, args ...any) bool { return !x || assertFail() }

func isNil(x any) bool {
	if x == nil {
		return true
	}
	switch v := reflect.ValueOf(x); v.Kind() {
	case reflect.Map, reflect.Slice, reflect.Ptr, reflect.Func, reflect.Chan:
		return v.IsNil()
	}
	return false
}

func AssertNil(t any, x any, args ...any) bool { return isNil(x) || assertFail() }

func AssertNotNil(t any, x any, args ...any) bool { return !isNil(x) || assertFail() }

func AssertIsType(t any, a, b any, args ...any) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) || assertFail()
}

// FailNow replaces (*testing.common).FailNow.
func FailNow(c any) {
	sym.TestFails()
	panic(sym.Stopped{})
}

func Helper(c any) {}

// Failed replaces (*testing.common).Failed; the harness asks sym.TestFailed.
func Failed(c any) bool { return false }

// FileReadFile replaces os.ReadFile.
func FileReadFile(name string) ([]byte, error) {
	f, err := sym.Open(name)
	if err != nil {
		return nil, err
	}
	var all []byte
	for b := make([]byte, 512); ; {
		n, err := sym.Read(f, b)
		all = append(all, b[:n]...)
		if err != nil {
			return all, nil
		}
	}
}
