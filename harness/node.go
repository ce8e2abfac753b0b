package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
)

// N is a syntax tree in the form in which the specification and the
// implementation are compared. P and E are the first and the last byte.
type N struct {
	K    string
	S    string
	I    []int64
	F    []float64
	A    []string
	P, E int
	X    int // offset of the operator or of the assignment sign
	Y    int // last byte of an assignment
	deep int // operators inside of one another
	Kids []*N
}

func none() *N { return &N{K: "none"} }

// ---------------------------------------------------------------- from TLC

type Tok struct {
	T string `json:"t"`
	L string `json:"l"`
	X string `json:"x"`
	O int    `json:"o"`
	E int    `json:"e"`
}

type Outcome struct {
	Lex  bool            `json:"lex"`
	OK   bool            `json:"ok"`
	Lo   int             `json:"lo"`
	Hi   int             `json:"hi"`
	Tree json.RawMessage `json:"tree"`
}

type specNode struct {
	K    string          `json:"k"`
	F    int             `json:"f"`
	T    int             `json:"t"`
	V    json.RawMessage `json:"v"`
	U    string          `json:"u"`
	Vec  string          `json:"vec"`
	Op   string          `json:"op"`
	On   int             `json:"on"`
	A    *specNode       `json:"a"`
	B    *specNode       `json:"b"`
	Ex   json.RawMessage `json:"e"`
	Id   string          `json:"id"`
	Args []string        `json:"args"`
	Wc   bool            `json:"wc"`
	Prop []*specNode     `json:"props"`
	Kind string          `json:"kind"`
	Item []*specNode     `json:"items"`
	Lo   *specNode       `json:"lo"`
	Hi   *specNode       `json:"hi"`
	Y    int             `json:"y"`
	M    int             `json:"m"`
	D    int             `json:"d"`
	H    int             `json:"h"`
	Sec  int             `json:"s"`
	XY   []string        `json:"xy"`
	Rad  *specNode       `json:"rad"`
	Pts  [][]string      `json:"pts"`
	Ring [][][]string    `json:"rings"`
	Vars []specVar       `json:"vars"`
	W    *specNode       `json:"w"`
	Rc   *specNode       `json:"rc"`
	Ri   *specNode       `json:"ri"`
	Ra   *specNode       `json:"ra"`
}

type specVar struct {
	N  string    `json:"n"`
	F  int       `json:"f"`
	Tp int       `json:"tp"`
	V  *specNode `json:"v"`
}

func must(err error) {
	if err != nil {
		panic(internal{err})
	}
}

type internal struct{ error }

func fl(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	must(err)
	return v
}

func in64(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	must(err)
	return v
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

type posOf func(tok int, end bool) int

func specTree(raw json.RawMessage, pos posOf) *N {
	var s specNode
	must(json.Unmarshal(raw, &s))
	return s.conv(pos)
}

func convAll(in []*specNode, pos posOf) (out []*N) {
	for _, s := range in {
		out = append(out, s.conv(pos))
	}
	return
}

func (s *specNode) str() (v string) {
	must(json.Unmarshal(s.V, &v))
	return
}

func (s *specNode) conv(pos posOf) *N {
	if s == nil || s.K == "none" {
		return none()
	}
	n := &N{K: s.K, P: pos(s.F, false), E: pos(s.T, true)}
	rad := func() {
		if s.Rad != nil && s.Rad.K != "none" {
			n.Kids = []*N{s.Rad.conv(pos)}
		}
	}
	switch s.K {
	case "int", "dur":
		n.I = []int64{in64(s.str())}
	case "float", "pct":
		n.F = []float64{fl(s.str())}
	case "press", "dist", "speed":
		n.F, n.S = []float64{fl(s.str())}, s.U
	case "temp":
		n.F, n.S = []float64{fl(s.str())}, s.Vec+s.U
	case "string", "ref":
		n.S = s.str()
	case "bool":
		var b bool
		must(json.Unmarshal(s.V, &b))
		n.I = []int64{b2i(b)}
	case "wild":
	case "sel":
		n.S, n.A, n.I = s.Id, append([]string{}, s.Args...), []int64{b2i(s.Wc)}
		sort.Strings(n.A)
		n.Kids = convAll(s.Prop, pos)
	case "arr":
		n.S, n.Kids = s.Kind, convAll(s.Item, pos)
	case "range":
		n.Kids = []*N{s.Lo.conv(pos), s.Hi.conv(pos)}
	case "bin":
		n.S, n.X = s.Op, pos(s.On, false)
		n.Kids = []*N{s.A.conv(pos), s.B.conv(pos)}
	case "paren":
		n.Kids = []*N{specTree(s.Ex, pos)}
	case "date":
		n.I = []int64{int64(s.Y), int64(s.M), int64(s.D)}
	case "time":
		n.I, n.S = []int64{int64(s.H), int64(s.M), int64(s.Sec)}, s.U
	case "weekday", "month":
		var v int64
		must(json.Unmarshal(s.V, &v))
		n.I = []int64{v}
	case "point":
		n.F = []float64{fl(s.XY[0]), fl(s.XY[1])}
		rad()
	case "line":
		for _, p := range s.Pts {
			n.F = append(n.F, fl(p[0]), fl(p[1]))
		}
		rad()
	case "polygon":
		n.S = holes(len(s.Ring) > 1)
		for _, r := range s.Ring {
			n.I = append(n.I, int64(len(r)))
			for _, p := range r {
				n.F = append(n.F, fl(p[0]), fl(p[1]))
			}
		}
	case "multi":
		n.S, n.Kids = s.Kind, convAll(s.Item, pos)
	case "collection":
		n.Kids = convAll(s.Item, pos)
	case "trigger":
		for _, v := range s.Vars {
			x := v.V.conv(pos)
			n.Kids = append(n.Kids, &N{K: "assign", S: v.N, P: pos(v.F, false), E: pos(v.F, true),
				X: pos(v.Tp, false), Y: x.E, Kids: []*N{x}})
		}
		n.Kids = append(n.Kids, s.W.conv(pos), s.Rc.conv(pos), s.Ri.conv(pos), s.Ra.conv(pos))
	default:
		must(fmt.Errorf("spec node %q", s.K))
	}
	return n
}

// ------------------------------------------------------------- from the AST

var tokName = map[gql.Token]string{
	gql.ILLEGAL: "ILLEGAL", gql.EOF: "EOF", gql.TRIGGER: "TRIGGER", gql.WHEN: "WHEN", gql.SET: "SET",
	gql.REPEAT: "REPEAT", gql.RESET: "RESET", gql.INT: "INT", gql.FLOAT: "FLOAT", gql.STRING: "STRING",
	gql.SPEED: "SPEED", gql.TIME: "TIME", gql.DATE: "DATE", gql.WEEKDAY: "WEEKDAY", gql.MONTH: "MONTH",
	gql.DURATION: "DURATION", gql.TEMPERATURE: "TEMPERATURE", gql.PRESSURE: "PRESSURE",
	gql.DISTANCE: "DISTANCE", gql.PERCENT: "PERCENT", gql.IDENT: "IDENT", gql.RANGE: "RANGE",
	gql.BOOLEAN: "BOOLEAN", gql.SELECTOR: "SELECTOR", gql.GEOMETRY_POINT: "POINT",
	gql.GEOMETRY_LINE: "LINE", gql.GEOMETRY_POLYGON: "POLYGON", gql.GEOMETRY_MULTILINE: "MULTILINE",
	gql.GEOMETRY_MULTIPOINT: "MULTIPOINT", gql.GEOMETRY_MULTIPOLYGON: "MULTIPOLYGON",
	gql.GEOMETRY_COLLECTION: "COLLECTION", gql.ASSIGN: "ASSIGN", gql.SEMICOLON: "SEMICOLON",
	gql.COLON: "COLON", gql.LPAREN: "LPAREN", gql.RPAREN: "RPAREN", gql.COMMA: "COMMA",
	gql.RBRACK: "RBRACK", gql.LBRACK: "LBRACK", gql.RBRACE: "RBRACE", gql.LBRACE: "LBRACE",
	gql.PERIOD: "PERIOD", gql.QUO: "QUO", gql.MUL: "MUL", gql.SUB: "SUB", gql.ADD: "ADD",
	gql.REM: "REM", gql.GEQ: "GEQ", gql.LEQ: "LEQ", gql.GTR: "GTR", gql.LSS: "LSS", gql.AND: "AND",
	gql.OR: "OR", gql.IN: "IN", gql.NOT_IN: "NOT_IN", gql.EQL: "EQL", gql.LEQL: "LEQL",
	gql.NEARBY: "NEARBY", gql.INTERSECTS: "INTERSECTS", gql.NOT_EQ: "NOT_EQ",
	gql.NOT_NEARBY: "NOT_NEARBY", gql.LNEQ: "LNEQ", gql.NOT_INTERSECTS: "NOT_INTERSECTS",
}

// names of array kinds
var arrKind = map[gql.Token]string{
	gql.SELECTOR: "sel", gql.DURATION: "dur", gql.SPEED: "speed", gql.PRESSURE: "press",
	gql.TEMPERATURE: "temp", gql.DISTANCE: "dist", gql.PERCENT: "pct", gql.INT: "int",
	gql.FLOAT: "float", gql.STRING: "string", gql.IDENT: "ref", gql.RANGE: "range",
	gql.DATE: "date", gql.TIME: "time", gql.WEEKDAY: "weekday", gql.MONTH: "month",
}

func isNil(e interface{}) bool {
	if e == nil {
		return true
	}
	v := reflect.ValueOf(e)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func projAll(in []gql.Expr) (out []*N) {
	for _, e := range in {
		out = append(out, proj(e))
	}
	return
}

func unitStr(u gql.Unit) string {
	switch u {
	case gql.Kph:
		return "Kph"
	case gql.Mph:
		return "Mph"
	case gql.Celsius:
		return "C"
	case gql.Fahrenheit:
		return "F"
	case gql.Kilometer:
		return "Km"
	case gql.Meter:
		return "M"
	case gql.Bar:
		return "Bar"
	case gql.Psi:
		return "Psi"
	case gql.AM:
		return "AM"
	case gql.PM:
		return "PM"
	case gql.Unknown:
		return ""
	}
	return fmt.Sprintf("unit(%d)", u)
}

// proj abstracts a syntax tree of the implementation.
func proj(e gql.Expr) *N {
	if isNil(e) {
		return none()
	}
	n := &N{}
	if _, ok := e.(*gql.BinaryExpr); !ok {
		n.P, n.E = int(e.Pos()), int(e.End())
	}
	rad := func(d *gql.DistanceTyp) {
		if d != nil {
			n.Kids = []*N{proj(d)}
		}
	}
	switch t := e.(type) {
	case *gql.IntTyp:
		n.K, n.I = "int", []int64{int64(t.Val)}
	case *gql.DurationTyp:
		n.K, n.I = "dur", []int64{int64(t.Val)}
	case *gql.FloatTyp:
		n.K, n.F = "float", []float64{t.Val}
	case *gql.PercentTyp:
		n.K, n.F = "pct", []float64{t.Val}
	case *gql.PressureTyp:
		n.K, n.F, n.S = "press", []float64{t.Val}, unitStr(t.U)
	case *gql.DistanceTyp:
		n.K, n.F, n.S = "dist", []float64{t.Val}, unitStr(t.U)
	case *gql.SpeedTyp:
		n.K, n.F, n.S = "speed", []float64{t.Val}, unitStr(t.U)
	case *gql.TemperatureTyp:
		vec := map[gql.Sign]string{0: "", gql.Plus: "+", gql.Minus: "-"}[t.Vec]
		if x := t.Vec.String(); x != vec {
			vec = "Sign(" + x + ")"
		}
		n.K, n.F, n.S = "temp", []float64{t.Val}, vec+unitStr(t.U)
	case *gql.StringTyp:
		n.K, n.S = "string", t.Val
	case *gql.Ref:
		n.K, n.S = "ref", t.ID
	case *gql.BooleanTyp:
		n.K, n.I = "bool", []int64{b2i(t.Val)}
	case *gql.WildcardTyp:
		n.K = "wild"
	case *gql.Selector:
		n.K, n.S, n.I, n.A = "sel", t.Ident, []int64{b2i(t.Wildcard)}, []string{}
		for a := range t.Args {
			n.A = append(n.A, a)
		}
		sort.Strings(n.A)
		n.Kids = projAll(t.Props)
	case *gql.ArrayTyp:
		n.K, n.S, n.Kids = "arr", arrKind[t.Kind], projAll(t.List)
	case *gql.Range:
		n.K, n.Kids = "range", []*N{proj(t.Low), proj(t.High)}
	case *gql.BinaryExpr:
		n.K, n.S, n.X = "bin", tokName[t.Op], int(t.OpPos)
		n.Kids = []*N{proj(t.Left), proj(t.Right)}
		n.P, n.E = n.Kids[0].P, n.Kids[1].E
		n.deep = 1 + n.Kids[0].deep
		if d := n.Kids[1].deep; d >= n.deep {
			n.deep = d + 1
		}
		if n.deep <= 150 { // else it takes too long
			n.P, n.E = int(e.Pos()), int(e.End())
		}
	case *gql.ParenExpr:
		n.K, n.Kids = "paren", []*N{proj(t.Expr)}
		n.deep = n.Kids[0].deep
	case *gql.DateTyp:
		n.K, n.I = "date", []int64{int64(t.Year), int64(t.Month), int64(t.Day)}
	case *gql.TimeTyp:
		n.K, n.S = "time", unitStr(t.U)
		n.I = []int64{int64(t.Hours), int64(t.Minutes), int64(t.Seconds)}
	case *gql.WeekdayTyp:
		n.K, n.I = "weekday", []int64{int64(t.Val)}
	case *gql.MonthTyp:
		n.K, n.I = "month", []int64{int64(t.Val)}
	case *gql.GeometryPointTyp:
		n.K, n.F = "point", []float64{t.Val[0], t.Val[1]}
		rad(t.Radius)
	case *gql.GeometryLineTyp:
		n.K = "line"
		for _, p := range t.Val {
			n.F = append(n.F, p[0], p[1])
		}
		rad(t.Margin)
	case *gql.GeometryPolygonTyp:
		n.K, n.S = "polygon", holes(t.HasHoles())
		for _, r := range t.Val {
			n.I = append(n.I, int64(len(r)))
			for _, p := range r {
				n.F = append(n.F, p[0], p[1])
			}
		}
	case *gql.GeometryMultiObjectTyp:
		n.K, n.S, n.Kids = "multi", tokName[t.Kind], projAll(t.Val)
	case *gql.GeometryCollectionTyp:
		n.K, n.Kids = "collection", projAll(t.Objects)
	case *gql.Trigger:
		n.K = "trigger"
		for _, v := range t.Vars {
			a := &N{K: "assign", X: int(v.TokPos), Kids: []*N{proj(v.Right)}}
			if v.Left != nil {
				a.S, a.P, a.E = v.Left.Val, int(v.Left.Pos()), int(v.Left.End())
				if int(v.Pos()) != a.P {
					a.P = -1 // it begins with its name
				}
				if a.Y = a.Kids[0].E; a.Kids[0].K != "none" && a.Kids[0].deep <= 150 {
					a.Y = int(v.End())
				}
			}
			n.Kids = append(n.Kids, a)
		}
		n.Kids = append(n.Kids, proj(t.When), proj(t.RepeatCount), proj(t.RepeatInterval), proj(t.ResetAfter))
	default:
		n.K = fmt.Sprintf("unexpected %T", e)
	}
	return n
}

// --------------------------------------------------------------- comparison

func holes(yes bool) string {
	if yes {
		return "with holes"
	}
	return ""
}

type Diff struct {
	Class string // what differs
	Kind  string // kind of the specified node
	Path  string
	Want  string
	Got   string
}

func (d Diff) String() string {
	return fmt.Sprintf("%s at %s: specified %s, implemented %s", d.Class, d.Path, d.Want, d.Got)
}

func eqF(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return false
		}
	}
	return true
}

func eqI(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqS(a, b []string) bool {
	return strings.Join(a, "\x01") == strings.Join(b, "\x01") && len(a) == len(b)
}

// diffTrees lists the differences of the implementation's tree from the
// specified one: kind, value, arity, pos.
func diffTrees(want, got *N, path string, out *[]Diff) {
	if len(*out) > 20 {
		return
	}
	add := func(class, w, g string) {
		*out = append(*out, Diff{class, want.K, path, w, g})
	}
	if want.K != got.K {
		add("kind", want.K, got.K)
		return
	}
	if want.K == "none" {
		return
	}
	if want.S != got.S || !eqI(want.I, got.I) || !eqF(want.F, got.F) || !eqS(want.A, got.A) {
		add("value", want.val(), got.val())
	}
	if want.P != got.P || want.E != got.E || want.X != got.X || want.Y != got.Y {
		add("pos", want.span(), got.span())
	}
	if len(want.Kids) != len(got.Kids) {
		add("arity", strconv.Itoa(len(want.Kids)), strconv.Itoa(len(got.Kids)))
		return
	}
	for i := range want.Kids {
		diffTrees(want.Kids[i], got.Kids[i], path+"/"+want.K+"."+strconv.Itoa(i), out)
	}
}

func (n *N) val() string { return fmt.Sprintf("%s %q %v %v %q", n.K, n.S, n.I, n.F, n.A) }
func (n *N) span() string {
	if n.Y != 0 {
		return fmt.Sprintf("%s %d..%d, all of it to %d, sign %d", n.K, n.P, n.E, n.Y, n.X)
	}
	return fmt.Sprintf("%s %d..%d sign %d", n.K, n.P, n.E, n.X)
}

func (n *N) String() string {
	var b strings.Builder
	b.WriteString("(" + n.K)
	if n.S != "" {
		b.WriteString(" " + strconv.Quote(n.S))
	}
	if len(n.I) > 0 {
		fmt.Fprintf(&b, " %v", n.I)
	}
	if len(n.F) > 0 {
		fmt.Fprintf(&b, " %v", n.F)
	}
	if len(n.A) > 0 {
		fmt.Fprintf(&b, " %q", n.A)
	}
	for _, k := range n.Kids {
		b.WriteString(" " + k.String())
	}
	b.WriteString(")")
	return b.String()
}

func (n *N) count() int {
	c := 1
	for _, k := range n.Kids {
		c += k.count()
	}
	return c
}
