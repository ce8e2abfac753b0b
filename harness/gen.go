package main

import (
	"math/rand"
	"strconv"
	"strings"
)

// Random texts: statements of the grammar, and statements with small damage.

type piece struct {
	s    string
	glue bool // directly follows the previous piece
}

type G struct {
	*rand.Rand
	focus string
	out   []piece
	depth int
	// share of the layouts that differ from one space
	layout float64
	small  bool // few different values, so that parts are equal
}

func newG(seed int64, focus string) *G {
	return &G{Rand: rand.New(rand.NewSource(seed)), focus: focus, layout: 0.25}
}

func (g *G) w(s string)              { g.out = append(g.out, piece{s, false}) }
func (g *G) j(s string)              { g.out = append(g.out, piece{s, true}) }
func (g *G) p(p float64) bool        { return g.Float64() < p }
func (g *G) pick(s ...string) string { return s[g.Intn(len(s))] }

// randCase changes the case of some letters.
func (g *G) randCase(s string) string {
	switch g.Intn(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' && g.p(0.5) {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

func (g *G) kw(s string) { g.w(g.randCase(s)) }

var selNames = []string{"speed", "temp", "status", "a", "b", "c", "Foo", "fuel_level", "x1", "tracker",
	"count", "index", "éa", "ж", "日本", "_", "_z", "h", "km", "am", "every", "not_x", "inn", "ReSeT_", "µ"}

func (g *G) selName() string {
	if g.small {
		return g.pick("a", "b", "A")
	}
	return selNames[g.Intn(len(selNames))]
}

func (g *G) digits(max int) string {
	n := 1 + g.Intn(max)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.Intn(10))
	}
	return string(b)
}

func (g *G) integer() string {
	if g.small {
		return g.pick("0", "1", "2")
	}
	switch g.Intn(14) {
	case 0:
		return "0"
	case 1:
		return g.pick("00", "007", "010", "08", "0010")
	case 2:
		return g.pick("9223372036854775807", "9223372036854775808", "9223372036854775806",
			"18446744073709551616", "4294967296", "2147483648", "9007199254740993", "99999999999999999999")
	case 3:
		return g.digits(18)
	case 4:
		return g.pick("1_0", "1_", "1__2")
	}
	return strconv.Itoa(g.Intn(300))
}

func (g *G) float() string {
	if g.small {
		return g.pick("1.5", "2.0", "1.50")
	}
	switch g.Intn(10) {
	case 0:
		return g.digits(3) + "."
	case 1:
		return g.digits(18) + "." + g.digits(18)
	case 2:
		return g.pick("0.0", "0.1", "00.50", "1.0", "1.50", "0.000001", "123456789.987654321",
			"9223372036854775808.0", "9007199254740993.0", "100000000000000000000000.5", "1_0.5", "1.5_0")
	}
	return strconv.Itoa(g.Intn(200)) + "." + g.digits(3)
}

func (g *G) number() {
	if g.p(0.6) {
		g.w(g.integer())
	} else {
		g.w(g.float())
	}
}

func (g *G) smallNumber() {
	if g.small {
		g.w(g.pick("1", "2", "1.5"))
		return
	}
	switch g.Intn(3) {
	case 0:
		g.w(strconv.Itoa(g.Intn(1000)))
	default:
		g.w(strconv.Itoa(g.Intn(200)) + "." + g.digits(3))
	}
}

var unitWords = []string{"%", "PCT", "Pct", "bar", "Bar", "BAR", "Psi", "PSI", "psi", "rkm", "rKM", "Rkm", "Km",
	"km", "rm", "rM", "Rm", "M", "kph", "KPH", "Kph", "mph", "MPH", "Mph", "c", "C", "f", "F",
	"h", "m", "s", "ms", "H", "S", "h30m", "m15s", "h5m7s", "s500ms", "ms7us", "h0m0s"}
var badUnits = []string{"pct", "KM", "kM", "RKM", "RM", "us", "ns", "µs", "day", "d", "hh", "h5", "m5x", "Bars", "min", "sec",
	"kmh", "met", "si", "a", "x", "PsI", "hm", "s5", "Ms", "h30M", "x5", "e5", "km2", "mi"}

func (g *G) sign() {
	if g.p(0.3) {
		g.w(g.pick("-", "+", "-"))
		if g.p(0.8) {
			g.number()
			g.out[len(g.out)-1].glue = true
			return
		}
	}
	g.number()
}

func (g *G) unit() {
	u := unitWords[g.Intn(len(unitWords))]
	if g.p(0.12) {
		u = badUnits[g.Intn(len(badUnits))]
	}
	if g.p(0.85) {
		g.j(u)
	} else {
		g.w(u)
	}
}

func (g *G) quantity() { g.sign(); g.unit() }

func (g *G) distance() {
	g.smallNumber()
	g.j(g.pick("km", "Km", "M", "rm", "rkm", "Rkm", "rM", "rKM", "Rm"))
}

func (g *G) duration() {
	if g.small {
		g.w(g.pick("1", "2"))
		g.j(g.pick("h", "s"))
		return
	}
	g.w(strconv.Itoa(g.Intn(200)))
	if g.p(0.2) {
		g.out[len(g.out)-1].s += "." + g.digits(4)
	}
	g.j(g.pick("h", "m", "s", "ms", "h30m", "m15s", "h5m7s", "s500ms", "ms7us", "ms3us9ns", "H", "h1m1s"))
}

var strs = []string{`""`, `"a"`, `"one two"`, `"x\"y"`, `"\\"`, `"\n"`, `"\x41"`, `"\101"`, `"\u00e9"`, `"\U0001f600"`,
	`"é日😀"`, `"km"`, `"when"`, `"a,b"`, `"}"`, `"]"`, `"'"`, `"\""`, `"tab	x"`, `"\a\b\f\r\t\v"`, `"  "`, `"-"`, `"1"`}

func (g *G) str() {
	if g.small {
		g.w(g.pick(`"a"`, `"b"`))
		return
	}
	g.w(strs[g.Intn(len(strs))])
}

func (g *G) calKind() string { return g.pick("date", "time", "weekday", "month") }

func (g *G) two(n int) string {
	if n < 10 && g.p(0.8) {
		return "0" + strconv.Itoa(n)
	}
	return strconv.Itoa(n)
}

func (g *G) calElem(kind string) {
	edge := func(vals ...int) int { return vals[g.Intn(len(vals))] }
	switch kind {
	case "date":
		y, m, d := 2022+g.Intn(179), 1+g.Intn(12), 1+g.Intn(31)
		if g.p(0.15) {
			y = edge(2021, 2022, 2200, 2201, 0, 1, 20222, 99)
		}
		if g.p(0.1) {
			m = edge(0, 1, 12, 13)
		}
		if g.p(0.1) {
			d = edge(0, 1, 31, 32, 30, 29)
		}
		g.w(strconv.Itoa(y))
		g.j("-")
		g.j(g.two(m))
		g.j("-")
		g.j(g.two(d))
	case "time":
		h, m, s := g.Intn(25), g.Intn(60), g.Intn(60)
		if g.p(0.1) {
			h = edge(0, 12, 23, 24, 25, 99)
		}
		if g.p(0.1) {
			m = edge(0, 59, 60, 99)
		}
		if g.p(0.1) {
			s = edge(0, 59, 60, 61)
		}
		g.w(g.two(h))
		g.j(":")
		g.j(g.two(m))
		if g.p(0.5) {
			g.j(":")
			g.j(g.two(s))
		}
		if g.p(0.35) {
			u := g.pick("am", "pm", "Am", "Pm", "AM", "PM", "aM", "pM", "PM")
			if g.p(0.05) {
				u = g.pick("a", "p", "amm", "km", "m", "xm")
			}
			if g.p(0.7) {
				g.j(u)
			} else {
				g.w(u)
			}
		}
	case "weekday":
		n := g.pick("sun", "mon", "tue", "wed", "thu", "fri", "sat", "Sun", "Mon", "SAT", "tUe")
		if g.p(0.06) {
			n = g.pick("sunday", "jan", "mo", "x", "7", "m")
		}
		g.w(n)
	case "month":
		n := g.pick("jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec", "Jan", "May", "DEC", "sEp")
		if g.p(0.06) {
			n = g.pick("january", "sun", "ja", "x", "12", "sept")
		}
		g.w(n)
	}
}

func (g *G) calendar() {
	kind := g.calKind()
	g.kw(kind)
	g.j("[")
	g.calElem(kind)
	switch {
	case g.p(0.35):
		for n := 1 + g.Intn(3); n > 0; n-- {
			g.j(",")
			g.calElem(kind)
		}
	case g.p(0.45):
		g.w(g.pick("..", "..", "..", "..", ".", "range", ". ."))
		g.calElem(kind)
	}
	g.j("]")
}

func (g *G) coord() {
	if g.p(0.3) {
		g.w("-")
		if g.p(0.9) {
			g.number()
			g.out[len(g.out)-1].glue = true
			return
		}
	}
	g.number()
}

func (g *G) pair() {
	g.coord()
	g.j(",")
	g.coord()
}

func (g *G) pairs(max int) {
	for n := 1 + g.Intn(max); n > 0; n-- {
		g.w("[")
		g.pair()
		g.j("]")
		if n > 1 {
			g.j(",")
		}
	}
}

func (g *G) geoSimple(kind string) {
	g.kw(kind)
	g.j("[")
	switch kind {
	case "point":
		g.pair()
	case "line":
		max := 4
		if g.p(0.15) {
			max = 12
		}
		g.pairs(max)
	case "polygon":
		max := 4
		if g.p(0.15) {
			max = 12
		}
		for n := 1 + g.Intn(3); n > 0; n-- {
			g.w("[")
			g.pairs(max)
			g.j("]")
			if n > 1 {
				g.j(",")
			}
		}
	}
	g.j("]")
	if kind != "polygon" && g.p(0.35) || g.p(0.02) {
		g.j(":")
		g.distance()
		g.out[len(g.out)-2].glue = g.p(0.9)
	}
}

func (g *G) geoMulti(kind string) {
	g.kw(kind)
	g.j("[")
	for n := 1 + g.Intn(3); n > 0; n-- {
		switch {
		case kind != "collection":
			g.geoSimple(strings.TrimPrefix(kind, "multi"))
		case g.p(0.6):
			g.geoSimple(g.pick("point", "line", "polygon"))
		default:
			g.geoMulti(g.pick("multipoint", "multiline", "multipolygon"))
		}
		if n > 1 {
			g.j(",")
		}
	}
	g.j("]")
}

func (g *G) geometry() {
	if g.p(0.65) {
		g.geoSimple(g.pick("point", "line", "polygon"))
	} else {
		g.geoMulti(g.pick("multipoint", "multiline", "multipolygon", "collection"))
	}
}

func (g *G) selector() {
	g.w(g.selName())
	args := 0.2
	props := 0.15
	if g.focus == "sel" {
		args, props = 0.5, 0.4
	}
	if g.p(args) {
		g.j("{")
		n := g.Intn(4)
		if g.p(0.1) {
			n = 8 + g.Intn(8) // wide enough to be broken into lines
		}
		for i := 0; i < n; i++ {
			if g.p(0.25) {
				g.w("*")
			} else if n > 6 {
				g.w(strconv.Quote("device-" + g.digits(6)))
			} else {
				g.str()
			}
			if i+1 < n && g.p(0.95) {
				g.j(",")
			}
		}
		g.j("}")
	}
	if g.depth < 4 && g.p(props) {
		g.j(":")
		for n := 1 + g.Intn(3); n > 0; n-- {
			g.depth += 2
			g.operand()
			g.depth -= 2
			if n > 1 {
				g.j(",")
			}
		}
	}
}

func (g *G) array() {
	g.w("[")
	gen := g.scalar()
	for n := 1 + g.Intn(4); n > 0; n-- {
		if g.p(0.05) {
			gen = g.scalar()
		}
		g.wrapped(0.06, gen)
		if n > 1 {
			if g.p(0.03) {
				g.j(":")
			} else {
				g.j(",")
			}
		}
	}
	g.j("]")
}

func (g *G) ref() {
	g.w("@")
	if g.p(0.95) {
		g.j(g.selName())
	} else {
		g.w(g.selName())
	}
}

func (g *G) unitOf(set ...string) func() {
	return func() {
		g.smallNumber()
		g.j(set[g.Intn(len(set))])
	}
}

// scalar is a generator of operands of one kind.
func (g *G) scalar() func() {
	switch g.Intn(13) {
	case 0:
		return func() { g.w(strconv.Itoa(g.Intn(1000))) }
	case 1:
		return func() { g.w(g.float()) }
	case 2:
		return g.str
	case 3:
		return g.unitOf("km", "M", "rm")
	case 4:
		return g.unitOf("kph", "mph", "Kph")
	case 5:
		return g.unitOf("bar", "psi")
	case 6:
		return g.unitOf("C", "f", "c", "F")
	case 7:
		return g.unitOf("%", "pct", "Pct", "%")
	case 8:
		return g.duration
	case 9:
		return g.ref
	case 10:
		return func() { g.depth += 2; g.selector(); g.depth -= 2 }
	case 11:
		return g.sign
	}
	return func() {
		f := g.scalarPlain()
		f()
		g.w("..")
		f()
	}
}

func (g *G) scalarPlain() func() {
	f := g.scalarBare()
	if g.p(0.75) {
		return f
	}
	return func() { g.wrapped(0.8, f) }
}

func (g *G) scalarBare() func() {
	switch g.Intn(5) {
	case 0:
		return func() { g.w(strconv.Itoa(g.Intn(1000))) }
	case 1:
		return g.unitOf("km", "kph", "C", "%")
	case 2:
		return g.duration
	case 3:
		return g.sign
	}
	return func() { g.smallNumber() }
}

// wrapped puts parentheses around what f writes.
func (g *G) wrapped(share float64, f func()) {
	n := 0
	if g.depth < 6 && g.p(share) {
		n = 1 + g.Intn(3)
	}
	for i := 0; i < n; i++ {
		g.w("(")
	}
	f()
	for i := 0; i < n; i++ {
		g.j(")")
	}
}

func (g *G) operand() { g.wrapped(0.06, g.bare) }

func (g *G) bare() {
	g.depth++
	defer func() { g.depth-- }()
	if g.depth > 5 {
		g.w(g.selName())
		return
	}
	k := g.Intn(20)
	switch g.focus {
	case "ops":
		if g.p(0.75) {
			k = []int{0, 1, 10, 0, 10}[g.Intn(5)]
		}
	case "num":
		if g.p(0.8) {
			k = []int{1, 2, 3, 2, 13, 8}[g.Intn(6)]
		}
	case "cal":
		if g.p(0.8) {
			k = 5
		}
	case "geo":
		if g.p(0.8) {
			k = 6
		}
	case "sel":
		if g.p(0.85) {
			k = []int{0, 0, 0, 8, 8, 9, 13, 12}[g.Intn(8)]
		}
	}
	switch k {
	case 0:
		g.selector()
	case 1:
		g.sign()
	case 2:
		g.quantity()
	case 3:
		g.duration()
	case 4:
		g.str()
	case 5:
		g.calendar()
	case 6, 7:
		g.geometry()
	case 8:
		g.array()
	case 9:
		g.ref()
	case 10:
		g.w("(")
		g.expr()
		g.j(")")
	case 11:
		g.kw(g.pick("true", "false", "up", "down"))
	case 12:
		g.w("*")
	case 13:
		f := g.scalarPlain()
		f()
		g.w(g.pick("..", "..", "..", "..", "range", "RANGE", ". ."))
		f()
	default:
		g.scalar()()
	}
	if g.p(0.03) {
		g.w("..")
		g.scalarPlain()()
	}
}

var binOps = []string{"or", "and", ">", "<", ">=", "<=", "==", "!=", "eq", "not eq", "in", "not in", "nearby",
	"not nearby", "intersects", "not intersects", "+", "-", "*", "/", "rem", "mod"}

func (g *G) operator() {
	op := binOps[g.Intn(len(binOps))]
	if f := strings.Fields(op); len(f) == 2 {
		g.kw(f[0])
		g.kw(f[1])
		return
	}
	if op[0] >= 'a' {
		g.kw(op)
	} else {
		g.w(op)
	}
}

func (g *G) expr() {
	n := g.Intn(4)
	if g.focus == "ops" {
		n = g.Intn(7)
	}
	g.operand()
	for ; n > 0; n-- {
		g.operator()
		g.operand()
	}
}

// statement makes a statement.
func (g *G) statement() []piece {
	g.out = nil
	g.depth = 0
	g.small = g.p(0.2)
	set := 0.4
	tail := 0.35
	if g.focus == "stmt" {
		set, tail = 0.85, 0.8
	}
	if g.p(0.75) {
		g.kw("trigger")
		if g.p(set) {
			g.kw("set")
			n := 1 + g.Intn(3)
			if g.p(0.05) {
				n = 0
			}
			for i := 0; i < n; i++ {
				g.w(g.pick("x", "y", "z", "Foo", "foo", "v1", "km", "a", "ж"))
				g.w("=")
				g.operand()
				if g.p(0.93) {
					g.j(";")
				}
			}
		}
	}
	g.kw("when")
	if g.focus == "stmt" && g.p(0.6) {
		g.w(g.selName())
	} else {
		g.expr()
	}
	if g.p(tail) {
		g.kw("repeat")
		if g.p(0.92) {
			g.w(g.integer())
			if g.p(0.1) {
				g.out[len(g.out)-1].s = g.float()
			}
			if g.p(0.05) {
				g.unit()
			}
			if g.p(0.65) {
				if g.p(0.9) {
					g.kw("every")
				} else {
					g.w(g.selName())
				}
				if g.p(0.85) {
					g.duration()
				} else {
					g.quantity()
				}
			}
		}
	}
	if g.p(tail) {
		g.kw("reset")
		if g.p(0.9) {
			g.kw("after")
		} else {
			g.w(g.selName())
		}
		if g.p(0.85) {
			g.duration()
		} else {
			g.quantity()
		}
	}
	return g.out
}

var wordPool = append(append([]string{"trigger", "set", "when", "repeat", "reset", "after", "every", ",", ";", ":", "(", ")", "[", "]",
	"{", "}", "@", "=", ".", "..", "!", "not", "1", "2.5", "-", "+", "*", "/", "%", `"s"`, "a", "km", "date", "time", "weekday",
	"month", "point", "line", "polygon", "multipoint", "multiline", "multipolygon", "collection", "true", "down", "range", "2022", "#", "'", "&", "1h", "10s"},
	unitWords...), binOps...)

// damage changes some pieces.
func (g *G) damage(ps []piece) []piece {
	ps = append([]piece{}, ps...)
	for n := 1 + g.Intn(2); n > 0 && len(ps) > 0; n-- {
		i := g.Intn(len(ps))
		if g.p(0.2) {
			i = len(ps) - 1
		}
		switch g.Intn(6) {
		case 0:
			ps = append(ps[:i], ps[i+1:]...)
		case 1:
			ps = append(ps[:i+1], append([]piece{ps[i]}, ps[i+1:]...)...)
		case 2:
			j := g.Intn(len(ps))
			ps[i], ps[j] = ps[j], ps[i]
		case 3:
			ps[i].s = wordPool[g.Intn(len(wordPool))]
		case 4:
			ps = append(ps[:i+1], append([]piece{{wordPool[g.Intn(len(wordPool))], g.p(0.3)}}, ps[i+1:]...)...)
		case 5:
			ps = ps[:i+1]
		}
	}
	return ps
}

var blanks = []string{" ", "\n", "\t", "\r\n", "  ", " \n\t ", "\n\n", "\r"}

const tightPunct = "()[]{},;:@+-*/"

// echo writes an element of some list once or twice more, behind itself or at
// the end of the list.
func (g *G) echo(ps []piece) []piece {
	var commas []int
	for i, p := range ps {
		if p.s == "," {
			commas = append(commas, i)
		}
	}
	if len(commas) == 0 {
		return ps
	}
	c := commas[g.Intn(len(commas))]
	level := func(i, by int) int { // the end of the element next to i
		d := 0
		for i += by; i >= 0 && i < len(ps); i += by {
			switch s := ps[i].s; s {
			case "(", "[", "{":
				d += by
			case ")", "]", "}":
				d -= by
			case ",":
				if d == 0 {
					return i
				}
			}
			if d < 0 {
				return i
			}
		}
		return i
	}
	from := level(c, -1) + 1
	elem := append([]piece{{",", true}}, ps[from:c]...)
	at := c
	if g.p(0.4) {
		for at = level(c, 1); at < len(ps) && ps[at].s == ","; at = level(at, 1) {
		}
	}
	if at > len(ps) {
		at = len(ps)
	}
	var out []piece
	out = append(out, ps[:at]...)
	for n := 1 + g.Intn(2); n > 0; n-- {
		out = append(out, elem...)
	}
	return append(out, ps[at:]...)
}

// text lays the pieces out.
func (g *G) text(ps []piece) string {
	var b strings.Builder
	if g.p(0.1 * g.layout * 4) {
		b.WriteString(blanks[g.Intn(len(blanks))])
	}
	for i, p := range ps {
		if i > 0 {
			prev := ps[i-1].s
			tight := p.s == "" || prev == "" || strings.IndexByte(tightPunct, p.s[0]) >= 0 ||
				strings.IndexByte(tightPunct, prev[len(prev)-1]) >= 0
			switch {
			case p.glue && !g.p(g.layout*0.4):
			case tight && g.p(g.layout):
			case g.p(g.layout):
				b.WriteString(blanks[g.Intn(len(blanks))])
			default:
				b.WriteString(" ")
			}
		}
		b.WriteString(p.s)
	}
	if g.p(0.2 * g.layout * 4) {
		b.WriteString(blanks[g.Intn(len(blanks))])
	}
	return b.String()
}

var oddChars = []string{" ", "\n", "\t", "\r", "a", "Z", "_", "0", "9", ".", "..", "=", "!", "<", ">", "\"", "\\", "@", ";", ",",
	"(", ")", "[", "]", "{", "}", "+", "-", "*", "/", "%", ":", "#", "$", "&", "'", "?", "^", "`", "|", "~", "\x00",
	"\xff", "\uFEFF", "é", "Ж", "日", "😀", "µ", "€", "٣", "\x01", "\x0b", "\x7f", "\xc3"}

// scratchText damages characters.
func (g *G) scratchText(t string) string {
	rs := []rune(t)
	if len(rs) == 0 {
		return t
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		i := g.Intn(len(rs) + 1)
		if g.p(0.2) {
			i = len(rs)
		}
		c := oddChars[g.Intn(len(oddChars))]
		switch {
		case i == len(rs):
			t = t + c
		case g.p(0.5):
			t = string(rs[:i]) + c + string(rs[i:])
		case g.p(0.5):
			t = string(rs[:i]) + string(rs[i+1:])
		default:
			t = string(rs[:i]) + c + string(rs[i+1:])
		}
		if strings.ContainsAny(c, "\xff\xc3\x00") {
			return t // keep the broken bytes
		}
		rs = []rune(t)
		if len(rs) == 0 {
			return t
		}
	}
	return t
}

// make draws a text.
func (g *G) make() string {
	ps := g.statement()
	for len(ps) > 160 {
		ps = g.statement()
	}
	if g.p(0.12) {
		ps = g.echo(ps)
	}
	switch {
	case g.p(0.22):
		return g.text(g.damage(ps))
	case g.p(0.12):
		return g.scratchText(g.text(ps))
	}
	return g.text(ps)
}
