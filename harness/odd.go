package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	gql "github.com/mmadfox/go-geoql-parser"
)

// Callers may put values into the fields of nodes that no text stands for.
// What Format and CheckType say of them is not specified; that they and Walk
// only look at a statement is: the statement stays what it is, and asking
// again gives the same answer.

// dump writes everything that can be reached through exported fields.
func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil ")
			return
		}
		if v.Kind() == reflect.Ptr {
			fmt.Fprintf(b, "%s@%p", v.Type(), v.Interface())
		}
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				dump(b, v.Field(i))
			}
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Float64:
		fmt.Fprintf(b, "%x ", math.Float64bits(v.Float()))
	default:
		fmt.Fprintf(b, "%#v ", v.Interface()) // maps are printed in order
	}
}

func dumped(t *gql.Trigger) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(t))
	return b.String()
}

// odd puts odd values into fields of the statement.
func odd(c *Ctx, v reflect.Value, one int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			odd(c, v.Elem(), one)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				odd(c, v.Field(i), one)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			odd(c, v.Index(i), one)
		}
	default:
		if !v.CanSet() || c.Intn(one) != 0 {
			return
		}
		switch x := v.Interface().(type) {
		case float64:
			v.SetFloat([]float64{-x, 0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -5, 5e-324, x + 360}[c.Intn(10)])
		case int:
			v.SetInt([]int64{int64(-x), 0, -1, 7, 12, 13, 60, math.MaxInt64, math.MinInt64, int64(x) + 1}[c.Intn(10)])
		case time.Duration:
			v.SetInt([]int64{int64(-x), 0, -1, 1, math.MaxInt64, math.MinInt64, -1500000000, int64(x) + 1}[c.Intn(8)])
		case string:
			v.SetString([]string{"", "*", " ", "\"", "a b", "%s", strings.ToUpper(x), "\n", "\x00", "\xff"}[c.Intn(10)])
		case bool:
			v.SetBool(!x)
		default:
			switch v.Kind() {
			case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8, reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32:
				n := c.Intn(100)
				if v.CanInt() {
					v.SetInt(int64(n))
				} else {
					v.SetUint(uint64(n))
				}
			}
		}
	}
}

func oddValues(c *Ctx) {
	dict := gql.Dict()
	for _, n := range []string{"a", "b", "x", "si", "speed"} {
		dict[n] = gql.Int
	}
	for i, t := range append([]string{""}, themes...) {
		for _, text := range randomTexts(c.Seed*7001+int64(i), t, c.n(1500, 20000)) {
			stmt, err := gql.Parse(text)
			if err != nil {
				continue
			}
			s, ok := stmt.(*gql.Trigger)
			if !ok || s == nil {
				continue
			}
			odd(c, reflect.ValueOf(s), 1+c.Intn(6))
			before := dumped(s)
			c.count("odd values", before)
			var first string
			for k := 0; k < 2; k++ {
				var out strings.Builder
				now := ""
				call := func(what string, f func() error) bool {
					var err error
					pan := guarded(what, text, func() { err = f() })
					now += fmt.Sprintf("%s: %v %v\n", what, err, pan != "")
					if after := dumped(s); after != before {
						c.violate("mutation", text, what+" of this statement with other values changes it", before, after)
						return false
					}
					return true
				}
				if !call("Format", func() error { return gql.Format(&out, s) }) ||
					!call("CheckType", func() error { return gql.CheckType(s, dict) }) ||
					!call("Visit", func() error {
						n := 0
						for _, v := range s.Vars {
							gql.Visit(v, func(gql.Expr) bool { n++; return true })
						}
						gql.Visit(s.When, func(gql.Expr) bool { n++; return true })
						now += fmt.Sprintln(n)
						return nil
					}) {
					break
				}
				now += out.String()
				if k == 1 && now != first {
					c.violate("another answer", text, "Format, CheckType and Visit of this statement with other values, first:", first, "then:", now)
				}
				first = now
			}
		}
	}
}
