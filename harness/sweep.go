package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Sweeps are long statements that hold many values or parts of one kind: every
// date and time, numbers of all sizes in all units, and every construct in
// many sizes.  They are judged by the same specification as random texts.

type sweep struct {
	rng      *rand.Rand
	thorough bool
	out      []string
}

// lists cuts the items into texts of n each.
func (s *sweep) lists(open string, items []string, closing string, n int) {
	for len(items) > 0 {
		k := n
		if k > len(items) {
			k = len(items)
		}
		s.out = append(s.out, open+strings.Join(items[:k], ",")+closing)
		items = items[k:]
	}
}

// some keeps about one of n items in the quick run.
func (s *sweep) some(items []string, n int) []string {
	if s.thorough || n <= 1 {
		return items
	}
	var out []string
	for _, x := range items {
		if s.rng.Intn(n) == 0 {
			out = append(out, x)
		}
	}
	return out
}

// sizes of constructs: all small ones, and those around powers of two and ten
func (s *sweep) sizes(max int) (out []int) {
	edge := map[int]bool{}
	for _, e := range []int{64, 100, 128, 200, 256, 500, 512, 1000, 1024} {
		for d := -1; d <= 2; d++ {
			edge[e+d] = true
		}
	}
	full := 18
	if s.thorough {
		full = 140
	}
	for i := 0; i <= max; i++ {
		if i <= full || edge[i] || i < 140 && s.rng.Intn(9) == 0 {
			out = append(out, i)
		}
	}
	return
}

// large sizes, a few of them
func (s *sweep) large(max int) (out []int) {
	out = []int{257 + s.rng.Intn(20)}
	for i := 0; i < s.n(2, 12); i++ {
		out = append(out, 258+s.rng.Intn(max-258))
	}
	return
}

func repeated(n int, sep string, f func(i int) string) string {
	xs := make([]string, n)
	for i := range xs {
		xs[i] = f(i)
	}
	return strings.Join(xs, sep)
}

func pad2(n int) string { return fmt.Sprintf("%02d", n) }

func (s *sweep) cal() {
	var dates []string
	for y := 2022; y <= 2200; y++ {
		for m := 1; m <= 12; m++ {
			for d := 1; d <= 31; d++ {
				switch s.rng.Intn(4) {
				case 0:
					dates = append(dates, fmt.Sprintf("%d-%d-%d", y, m, d))
				default:
					dates = append(dates, fmt.Sprintf("%d-%02d-%02d", y, m, d))
				}
			}
		}
	}
	// in the quick run, the last days of the months of all years, and others
	var q []string
	for _, d := range dates {
		day, _ := strconv.Atoi(d[strings.LastIndex(d, "-")+1:])
		if s.thorough || day >= 28 && s.rng.Intn(2) == 0 || s.rng.Intn(6) == 0 {
			q = append(q, d)
		}
	}
	s.lists("when date[", q, "]", 40)
	for i := 0; i+1 < len(q); i += 37 {
		s.out = append(s.out, "when date["+q[i]+" .. "+q[s.rng.Intn(len(q))]+"]", "when date["+q[i+1]+"]")
	}
	var times []string
	for h := 0; h <= 24; h++ {
		for m := 0; m < 60; m++ {
			for _, u := range []string{"", "AM", "PM"} {
				switch s.rng.Intn(3) {
				case 0:
					times = append(times, fmt.Sprintf("%d:%d%s", h, m, u))
				case 1:
					times = append(times, fmt.Sprintf("%02d:%02d:%02d%s", h, m, s.rng.Intn(60), u))
				default:
					times = append(times, fmt.Sprintf("%02d:%02d%s", h, m, u))
				}
			}
		}
		for c := 0; c < 60; c++ {
			times = append(times, fmt.Sprintf("%02d:%02d:%02d", h, s.rng.Intn(60), c))
		}
	}
	q = s.some(times, 2)
	s.lists("when time[", q, "]", 40)
	for i := 0; i+1 < len(q); i += 17 {
		s.out = append(s.out, "when time["+q[i]+" .. "+q[s.rng.Intn(len(q))]+"]", "when time["+q[i+1]+"]")
	}
	days := []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"}
	months := []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}
	for _, p := range []struct {
		kw    string
		names []string
	}{{"weekday", days}, {"month", months}} {
		for _, a := range p.names {
			s.out = append(s.out, "when "+p.kw+"["+a+"]", "when "+p.kw+"["+strings.ToUpper(a)+"]", "when "+p.kw+"["+strings.Title(a)+"]")
			for _, b := range p.names {
				s.out = append(s.out, "when "+p.kw+"["+a+" .. "+b+"]", "when "+p.kw+"["+a+","+b+"]")
			}
		}
		for _, n := range s.sizes(260) {
			if n > 0 {
				s.out = append(s.out, "when "+p.kw+"["+repeated(n, ",", func(i int) string { return p.names[(i*5+n)%len(p.names)] })+"]")
			}
		}
	}
	for _, n := range s.sizes(260) {
		if n > 1 {
			s.out = append(s.out, "when date["+repeated(n, ",", func(i int) string { return fmt.Sprintf("%d-%d-%d", 2022+i%179, 1+i%12, 1+i%31) })+"]",
				"when time["+repeated(n, ",", func(i int) string { return fmt.Sprintf("%d:%d", i%25, i%60) })+"]")
		}
	}
}

// figures are numbers of all magnitudes.
func (s *sweep) figures(n int) (out []string) {
	for i := 0; i <= n; i++ {
		out = append(out, strconv.Itoa(i))
	}
	for i := 0; i <= n; i += 1 + s.rng.Intn(3) {
		out = append(out, fmt.Sprintf("%d.%d", i, s.rng.Intn(10)), fmt.Sprintf("%d.%02d", i, s.rng.Intn(100)), strconv.Itoa(i)+".0", "0."+pad2(i%100))
	}
	for b := uint(2); b < 63; b++ {
		for d := int64(-1); d <= 1; d++ {
			out = append(out, strconv.FormatInt(int64(1)<<b+d, 10))
			if d == 0 {
				out = append(out, strconv.FormatInt(int64(1)<<b, 10)+".5", strconv.FormatInt(int64(1)<<b, 10)+".0")
			}
		}
	}
	for k := 1; k <= 18; k++ {
		p := "1" + strings.Repeat("0", k)
		out = append(out, p, strings.Repeat("9", k), p+".5", "0."+strings.Repeat("0", k)+"1", "0."+strings.Repeat("3", k), strings.Repeat("7", k)+"."+strings.Repeat("3", k))
	}
	return
}

func (s *sweep) num() {
	top := 60
	if s.thorough {
		top = 1100
	}
	figs := s.figures(top)
	for i := 0; i < 200; i++ {
		figs = append(figs, strconv.Itoa(s.rng.Intn(20000)), fmt.Sprintf("%d.%d", s.rng.Intn(5000), s.rng.Intn(100000)))
	}
	// numbers of many digits, and very small and large ones
	digits := func(n int) string {
		return repeated(n, "", func(i int) string { return strconv.Itoa((s.rng.Intn(9) + 1)) })
	}
	var long []string
	for _, k := range []int{16, 17, 18, 19, 20, 21, 22, 24, 28, 32, 36, 38, 39, 40, 41, 42, 45, 50, 64, 80, 100, 128, 150, 200, 256, 300, 307, 320, 330} {
		long = append(long, "0."+strings.Repeat("0", k)+"1", "0."+strings.Repeat("0", k-3)+digits(3), "3."+digits(k), "0."+digits(k))
		if k < 308 {
			long = append(long, digits(k)+".5", "1"+strings.Repeat("0", k)+".0", digits(k/2)+"."+digits(k))
		}
	}
	for _, u := range []string{"", "", "%", "km", "bar", "mph", "C"} {
		for _, f := range long {
			if s.thorough || s.rng.Intn(3) == 0 {
				s.out = append(s.out, "when "+[]string{"", "a == ", "["}[s.rng.Intn(3)]+f+u)
				if t := &s.out[len(s.out)-1]; strings.Contains(*t, "[") {
					*t += "," + long[s.rng.Intn(len(long))] + u + "]"
				}
			}
		}
	}
	for i := 0; i < 60; i++ {
		s.out = append(s.out, "when point["+long[s.rng.Intn(len(long))]+","+[]string{"", "-"}[i%2]+long[s.rng.Intn(len(long))]+"]", "when line[["+long[s.rng.Intn(len(long))]+",1],[2,"+long[s.rng.Intn(len(long))]+"]]:"+long[s.rng.Intn(len(long))]+"m")
	}
	array := func(unit string, sign string) {
		var items []string
		for _, f := range figs {
			items = append(items, sign+f+unit)
		}
		s.rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
		s.lists("when [", s.some(items, 2), "]", 24)
		for i := 0; i < 40; i++ {
			a, b := items[s.rng.Intn(len(items))], items[s.rng.Intn(len(items))]
			s.out = append(s.out, "when "+a, "when a in "+a+" .. "+b)
		}
	}
	// integers and decimals do not mix
	var ints, decs []string
	for _, f := range figs {
		if strings.Contains(f, ".") {
			decs = append(decs, f, "-"+f, "+"+f)
		} else {
			ints = append(ints, f, "-"+f, "+"+f, "0"+f)
		}
	}
	s.lists("when [", s.some(ints, 2), "]", 40)
	s.lists("when [", s.some(decs, 2), "]", 40)
	for _, u := range []string{"%", "pct", "bar", "Psi", "km", "M", "kph", "mph", "C", "F"} {
		if u == "pct" {
			u = "PCT"
		}
		array(u, "")
	}
	for _, u := range []string{"bar", "C", "F", "psi"} {
		array(u, "-")
	}
	var durs []string
	for i := 0; i <= 130; i++ {
		for _, u := range []string{"h", "m", "s", "ms"} {
			durs = append(durs, strconv.Itoa(i)+u)
		}
		durs = append(durs, fmt.Sprintf("%dh%dm%ds", i, s.rng.Intn(200), s.rng.Intn(200)), fmt.Sprintf("%dm%ds", i, s.rng.Intn(100)),
			fmt.Sprintf("%ds%dms", i, s.rng.Intn(2000)), fmt.Sprintf("%d.%ds", i, s.rng.Intn(10000)), fmt.Sprintf("%d.%dh", i, s.rng.Intn(1000)),
			fmt.Sprintf("%dh%ds%dms%dus%dns", i, i, i, i, i))
	}
	for i := 0; i < 120; i++ {
		durs = append(durs, strconv.Itoa(s.rng.Intn(1000000))+"s", strconv.Itoa(s.rng.Intn(100000000))+"ms", strconv.Itoa(s.rng.Intn(2600000))+"h")
	}
	s.lists("when [", s.some(durs, 2), "]", 24)
	// strings of many lengths
	for _, n := range s.sizes(300) {
		s.out = append(s.out, `when "`+strings.Repeat("x", n)+`"`, `when "`+repeated(n, "", func(i int) string { return string(rune('0' + i%75)) })[0:0]+strings.Repeat("é", n)+`" == a`)
	}
	var all []string
	for r := rune(32); r < 0x180; r++ {
		if r < 127 || s.thorough && r%2 == 0 || s.rng.Intn(12) == 0 {
			if r != '"' && r != '\\' {
				all = append(all, `"`+string(r)+`"`)
			}
		}
	}
	for _, e := range []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\"`, `\x00`, `\x7f`, `\xff`, `\000`, `\377`, `\u0000`, `\uffff`, `\U0010ffff`} {
		all = append(all, `"`+e+`"`, `"a`+e+`b`+e+`"`)
	}
	// characters without a width or a form, and of all blocks
	for r := rune(0x80); r < 0x110000; r++ {
		if !utf8.ValidRune(r) || r == 0xFEFF || r == utf8.RuneError || r == 0x130 {
			continue
		}
		if unicode.In(r, unicode.Cf, unicode.Zs) && (r < 0x2070 || s.rng.Intn(4) == 0) || s.rng.Intn(map[bool]int{false: 400, true: 20000}[r >= 0x3000]) == 0 {
			x := string(r)
			all = append(all, []string{`"` + x + `"`, `"a` + x + `b"`, `"` + x + ` "`, `"x` + x + x + `"`}[s.rng.Intn(4)])
		}
	}
	s.lists("when [", all, "]", 24)
	for i := 0; i < 40; i++ {
		s.out = append(s.out, "when a{"+all[s.rng.Intn(len(all))]+"} == "+all[s.rng.Intn(len(all))])
	}
	for _, n := range []int{1000, 1010, 1015, 1020, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 3100} {
		s.out = append(s.out, `when "`+strings.Repeat("y", n+s.rng.Intn(3))+`" in a`)
	}
}

func (s *sweep) coord() string {
	sign := ""
	if s.rng.Intn(2) == 0 {
		sign = "-"
	}
	switch s.rng.Intn(5) {
	case 0:
		return sign + strconv.Itoa(s.rng.Intn(400))
	case 1:
		return sign + fmt.Sprintf("%d.%07d", s.rng.Intn(200), s.rng.Intn(10000000))
	case 2:
		return sign + fmt.Sprintf("%d.%d", s.rng.Intn(200), s.rng.Intn(10))
	case 3:
		return sign + fmt.Sprintf("%d.%015d", s.rng.Intn(200), s.rng.Int63n(1000000000000000))
	}
	return sign + []string{"0", "0.0", "90", "180", "360", "90.0", "180.0", "180.000001", "1000000", "0.000001"}[s.rng.Intn(10)]
}

func (s *sweep) pairs(n int) string {
	return repeated(n, ",", func(int) string { return "[" + s.coord() + "," + s.coord() + "]" })
}

func (s *sweep) geo() {
	rad := func() string {
		if s.rng.Intn(2) == 0 {
			return ""
		}
		return ":" + []string{"1", "0", "2.5", "100", "1000000", "0.001", "999.999"}[s.rng.Intn(7)] + []string{"km", "M", "rm", "rKM", "Km"}[s.rng.Intn(5)]
	}
	closed := func(n int) string { // the first point again at the end
		p := "[" + s.coord() + "," + s.coord() + "]"
		return p + "," + s.pairs(n) + "," + p
	}
	for _, n := range s.sizes(260) {
		if n == 0 {
			continue
		}
		s.out = append(s.out, "when line["+s.pairs(n)+"]"+rad(), "when polygon[["+s.pairs(n)+"]]", "when polygon[["+closed(n)+"]]", "when line["+closed(n)+"]"+rad())
		if n <= 140 {
			s.out = append(s.out,
				"when polygon["+repeated(n, ",", func(i int) string { return "[" + s.pairs(1+i%3) + "]" })+"]",
				"when multipoint["+repeated(n, ",", func(int) string { return "point[" + s.coord() + "," + s.coord() + "]" + rad() })+"]",
				"when multiline["+repeated(n, ",", func(int) string { return "line[" + s.pairs(1+n%3) + "]" + rad() })+"]",
				"when multipolygon["+repeated(n, ",", func(int) string { return "polygon[[" + s.pairs(1+n%3) + "]]" })+"]",
				"when collection["+repeated(n, ",", func(i int) string {
					return []string{"point[1,2]" + rad(), "line[" + s.pairs(2) + "]", "polygon[[" + s.pairs(3) + "],[" + s.pairs(1) + "]]",
						"multipoint[point[3,4],point[" + s.coord() + ",5]]", "multipolygon[polygon[[[1,2]]]]", "multiline[line[" + s.pairs(2) + "]" + rad() + "]"}[s.rng.Intn(6)]
				})+"]")
		}
	}
	for _, n := range s.large(800) {
		pt := func(i int) string { return fmt.Sprintf("[%d,%d]", i, i%7) }
		s.out = append(s.out,
			"when polygon["+repeated(n, ",", func(i int) string { return "[" + pt(i) + "]" })+"]",
			"when polygon[["+repeated(n, ",", pt)+"]]",
			"when line["+repeated(n, ",", pt)+"]"+rad(),
			"when "+[]string{"multipoint", "collection"}[s.rng.Intn(2)]+"["+repeated(n, ",", func(i int) string { return "point" + pt(i) })+"]")
	}
	for i := 0; i < s.n(400, 6000); i++ {
		s.out = append(s.out, "when point["+s.coord()+","+s.coord()+"]"+rad())
	}
	for i := 0; i < s.n(100, 1000); i++ {
		s.out = append(s.out, "when polygon["+repeated(1+s.rng.Intn(6), ",", func(int) string { return "[" + closed(s.rng.Intn(5)+1) + "]" })+"]")
	}
}

func (s *sweep) n(q, t int) int {
	if s.thorough {
		return t
	}
	return q
}

// texts of strings that mean something elsewhere
var signTexts = []string{"*", ",", "}", "{", "*, ", "}:", "%", "%s", "%d%%", ";", "@r", "true", "1", "1km", "//", "/*", "..", "[1]", "(", ")", "when", "#", "'", "`", "a\\\"b", "\\\\", "\\n", "\\u0041", "$", "null", "-1", " "}

// alike are n words of the same length that differ in one place.
func (s *sweep) alike(n, length int) []string {
	w := make([]byte, length)
	for i := range w {
		w[i] = "abcdefgxyz_"[s.rng.Intn(11)]
	}
	w[0] = 'q'
	at := s.rng.Intn(length)
	if s.rng.Intn(2) == 0 {
		at = length - 1
	}
	var out []string
	for i := 0; i < n; i++ {
		w[at] = "klmnopqrst"[i]
		out = append(out, string(w))
	}
	s.rng.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (s *sweep) sel() {
	// arguments that are nearly the same
	near := [][]string{{"x", "X"}, {"k1", "K1", "k01", "k1 "}, {"abc", "Abc", "ABC", "aBc", "abC"}, {"a", "a ", " a", "a  ", ""}, {"é", "É", "e", "e\u0301"},
		{"a\t", "a ", "a\u00a0"}, {"1", "01", "1.0", "+1"}, {"ss", "ß", "SS"}, {"k", "\u212a", "K"}, {"ı", "i", "I"}, {"a-b", "a_b", "ab"},
		{"x", "y", "X", "Y"}, {"б", "Б"}, {"ǆ", "ǅ", "Ǆ"}, {"10", "9", "1"}, {"aaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaA", "aaaaaaaaaaaaaaaaaaaaaaaaa"}}
	// names that look like something else
	for _, x := range signTexts {
		near = append(near, []string{x}, []string{x, "x"})
	}
	near = append(near, signTexts, signTexts[:4])
	// names that differ in one place
	for i := 0; i < s.n(40, 200); i++ {
		near = append(near, s.alike(2+s.rng.Intn(3), 1+s.rng.Intn(70)))
	}
	for i := 0; i < s.n(60, 400); i++ {
		a := s.alike(4, 1+s.rng.Intn(70))
		s.out = append(s.out, "when "+a[0]+[]string{"", "{\"x\"}", ":1"}[i%3]+" == "+a[1]+[]string{"", "{\"x\"}", ":1"}[i/3%3]+" and @"+a[2]+" > @"+a[3],
			"when [@"+a[0]+", @"+a[1]+", @"+a[2]+"] and [\""+a[0]+"\", \""+a[1]+"\"]",
			"trigger set "+a[0]+" = 1; "+a[1]+" = 2; "+a[2]+" = \""+a[3]+"\"; when @"+a[1]+" == @"+a[0])
	}
	for i := 0; i < s.n(400, 3000); i++ {
		args := append([]string{}, near[i%len(near)]...)
		if s.rng.Intn(3) == 0 {
			args = append(args, near[s.rng.Intn(len(near))]...)
		}
		s.rng.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		t := "when a{" + repeated(len(args), ",", func(i int) string { return "\"" + args[i] + "\"" }) + "}"
		s.out = append(s.out, t+[]string{"", ":1,2", " == b"}[s.rng.Intn(3)])
	}
	for _, n := range s.sizes(260) {
		args := func(f func(i int) string) string { return "{" + repeated(n, ",", f) + "}" }
		s.out = append(s.out,
			"when a"+args(func(i int) string { return strconv.Quote("k" + strconv.Itoa(i)) }),
			"when a"+args(func(i int) string { return strconv.Quote("k" + strconv.Itoa(i*7%5)) }),
			"when a"+args(func(i int) string {
				if i == n/2 {
					return "*"
				}
				return strconv.Quote("k" + strconv.Itoa(i))
			}),
			"when "+strings.Repeat("n", n+1)+"{\"x\"}:1 == @"+strings.Repeat("R", n+1),
			"when "+strings.Repeat("ñ", n+1)+" in @"+strings.Repeat("日", n+1))
		if n > 0 && n <= 140 {
			s.out = append(s.out,
				"when a:"+repeated(n, ",", func(i int) string { return strconv.Itoa(i) }),
				"when a{*}:"+repeated(n, ",", func(i int) string { return []string{"1km", "\"s\"", "@r", "2.5", "true", "5s", "1 .. 2"}[i%7] }),
				"when ["+repeated(n, ",", func(i int) string { return "@r" + strconv.Itoa(i) })+"]",
				"when ["+repeated(n, ",", func(i int) string { return "s" + strconv.Itoa(i) + "{\"x\"}" })+"]",
				"when ["+repeated(n, ",", func(i int) string { return strconv.Itoa(i) + " .. " + strconv.Itoa(i*3) })+"]",
				"when ["+repeated(n, ",", func(i int) string { return strconv.Quote("s" + strconv.Itoa(i)) })+"]",
				"when ["+repeated(n, ",", func(i int) string { return strconv.Itoa(i) + "km" })+"]")
		}
		if n > 0 && n <= 260 {
			s.out = append(s.out, "when ["+repeated(n, ",", func(i int) string { return strconv.Itoa(i * i) })+"]")
		}
	}
	for r := rune('a'); r <= 'z'; r++ {
		for q := rune('a'); q <= 'z'; q++ {
			name := string(r) + string(q)
			s.out = append(s.out, "when "+strings.ToUpper(name)+" == @"+strings.Title(name)+" and "+string(r)+"_"+string(q)+strconv.Itoa(int(q-'a'))+" > 1")
		}
	}
	for r := rune(0xa1); r < 0x600; r++ {
		if r == 0x130 { // what its lower case is depends on the language
			continue
		}
		if s.rng.Intn(s.n(40, 8)) == 0 {
			s.out = append(s.out, "when "+string(r)+"a == b"+string(r)+" and @"+string(r))
		}
	}
}

func (s *sweep) ops() {
	ops := []string{"or", "and", ">", "<", ">=", "<=", "==", "!=", "eq", "not eq", "in", "not in", "nearby",
		"not nearby", "intersects", "not intersects", "+", "-", "*", "/", "rem", "mod"}
	for _, n := range s.sizes(260) {
		op := ops[s.rng.Intn(len(ops))]
		s.out = append(s.out,
			"when a"+repeated(n, "", func(i int) string { return " " + op + " v" + strconv.Itoa(i) }),
			"when a"+repeated(n, "", func(i int) string { return " " + ops[s.rng.Intn(len(ops))] + " v" + strconv.Itoa(i) }),
			"when a"+repeated(n, "", func(i int) string {
				return " " + []string{"or", "and"}[s.rng.Intn(2)] + " (b == " + strconv.Itoa(i) + ")"
			}))
		if n <= 130 {
			s.out = append(s.out,
				"when "+strings.Repeat("(", n)+"a"+strings.Repeat(")", n),
				"when "+repeated(n, "", func(i int) string { return "a " + op + " (" })+"b"+strings.Repeat(")", n),
				"when "+strings.Repeat("(", n)+"a"+repeated(n, "", func(i int) string { return " " + ops[s.rng.Intn(len(ops))] + " b)" }))
		}
	}
	for _, n := range s.large(700) {
		op := ops[s.rng.Intn(len(ops))]
		level := [][]string{{"+", "-"}, {"*", "/", "rem", "mod"}, {"and"}, {"or"}, {"==", "<", "eq", "in", "not in"}, {"-"}}[s.rng.Intn(6)]
		s.out = append(s.out,
			"when a"+repeated(n, "", func(int) string { return " " + level[s.rng.Intn(len(level))] + " b" }),
			"when a"+repeated(n, "", func(int) string { return " " + op + " b" }),
			"when a"+repeated(n, "", func(i int) string { return " " + ops[s.rng.Intn(len(ops))] + " b" }))
	}
	// all triples of operators of the levels
	for _, a := range ops {
		for _, b := range ops {
			for _, d := range ops {
				if s.thorough || s.rng.Intn(12) == 0 {
					s.out = append(s.out, "when a "+a+" b "+b+" c "+d+" d")
				}
			}
		}
	}
}

func (s *sweep) stmt() {
	vals := []string{"1", "2.5", "\"s\"", "true", "5km", "point[1,2]", "date[2022-02-03]", "[1,2]", "a", "1 .. 2", "10C", "*", "5s"}
	for _, n := range s.sizes(140) {
		semi := []string{"; ", ";", " ", "\n"}[s.rng.Intn(4)]
		s.out = append(s.out, "trigger set "+repeated(n, semi, func(i int) string { return "v" + strconv.Itoa(i) + " = " + vals[(i+n)%len(vals)] })+"; when @v0 == @v1")
		// a name again, far away
		if n > 1 {
			s.out = append(s.out, "trigger set "+repeated(n, "; ", func(i int) string {
				if i == n-1 {
					return "v" + strconv.Itoa(s.rng.Intn(n)) + " = 1"
				}
				return "v" + strconv.Itoa(i) + " = " + vals[(i+n)%len(vals)]
			})+"; when a")
		}
	}
	more := append([]string{"collection[point[1,2]]", "line[[1,2],[3,4]]", "polygon[[[1,2],[3,4],[1,2]]]", "multipoint[point[1,2]:1m]", "multiline[line[[1,2]]]", "multipolygon[polygon[[[1,2]]]]",
		"time[1:20]", "weekday[mon]", "month[jan .. feb]", "a{\"x\"}:1", "@y", "(1 + a)", "-3", "5%", "not_a", "3 bar", "2kph"}, vals...)
	for i, x := range more {
		for _, y := range more {
			if z := more[(i+s.rng.Intn(len(more)))%len(more)]; s.thorough || s.rng.Intn(3) == 0 {
				s.out = append(s.out, "trigger set x = "+x+"; y = "+y+"; z = "+z+"; when a")
			}
		}
		for _, t := range []string{"x = W when a", "x = 1; y = W when a", "x = W; y = 2 when a", "x = 1; y = W; z = 3 when a", "z = W; y = W; x = W; when W"} {
			s.out = append(s.out, "trigger set "+strings.ReplaceAll(t, "W", x))
		}
	}
	for _, n := range s.large(600) {
		s.out = append(s.out, "trigger set "+repeated(n, " ", func(i int) string { return "v" + strconv.Itoa(i) + " = " + strconv.Itoa(i*i) + ";" })+" when a")
	}
	for i := 0; i <= s.n(150, 1200); i++ {
		s.out = append(s.out, fmt.Sprintf("when a repeat %d every %ds reset after %dh", i, i, i%60))
		if i%5 == 0 {
			s.out = append(s.out, fmt.Sprintf("when a repeat %d", i*i), fmt.Sprintf("when a repeat %d every %d.5m", i, i), fmt.Sprintf("when a reset after %dms", i*7))
		}
	}
	for _, f := range s.figures(40) {
		s.out = append(s.out, "when a repeat "+f, "when a repeat 1 every "+short(f)+"s", "when a reset after "+short(f)+"m")
	}
}

// short keeps few decimals: how further ones are rounded is left to strconv.
func short(f string) string {
	if i := strings.IndexByte(f, '.'); i >= 0 && len(f) > i+7 {
		return f[:i+7]
	}
	return f
}

func sweeps(seed int64, theme string, thorough bool) []string {
	s := &sweep{rng: rand.New(rand.NewSource(seed*31 + int64(len(theme)))), thorough: thorough}
	switch theme {
	case "cal":
		s.cal()
	case "num":
		s.num()
	case "geo":
		s.geo()
	case "sel":
		s.sel()
	case "ops":
		s.ops()
	case "stmt":
		s.stmt()
	}
	return s.out
}

// strange are texts with words that are not of the language.
func strange(rng *rand.Rand, theme string, thorough bool) (out []string) {
	for _, w := range foreign {
		w = strings.ReplaceAll(w, "~", " ")
		for _, t := range places[theme] {
			out = append(out, strings.ReplaceAll(t, "W", w))
		}
		// between any two tokens, and in place of any
		for _, t := range sentences[theme] {
			ps := strings.Fields(t)
			for i := range ps {
				if rest := strings.Join(ps[i+1:], " "); thorough || theme == "stmt" && rng.Intn(3) > 0 || rng.Intn(5) == 0 {
					out = append(out, strings.Join(ps[:i+1], " ")+" "+w+" "+rest)
				}
				if rest := strings.Join(ps[i+1:], " "); thorough || rng.Intn(12) == 0 {
					out = append(out, strings.Join(ps[:i], " ")+" "+w+" "+rest)
				}
			}
		}
	}
	return
}

// texts with a blank between all tokens
var sentences = map[string][]string{
	"stmt": {"trigger set x = 1 ; when a repeat 5 every 10s reset after 1h"},
	"ops":  {"when a not in b and ( c + 1 ) < 2"},
	"num":  {"when [ - 5 km , 2.5 % ] == 3h"},
	"cal":  {"when date [ 2022-02-03 .. 2022-02-04 ]", "when time [ 1:20 am , 3:30 pm ]", "when month [ jan .. feb ]"},
	"geo":  {"when collection [ point [ - 1 , 2 ] : 3km ]"},
	"sel":  {"when a { \"x\" , * } : 1 , b in [ @x , 1 .. 2 ]"},
}

// where a foreign word might be taken for one of ours
var places = map[string][]string{
	"stmt": {"when a repeat 5 W", "when a repeat 5 W 5s", "when a repeat W", "when a repeat 5 every W", "when a W", "when a reset W 5s", "when a reset after W",
		"when a reset after 5 W", "W when a", "trigger W a", "trigger set x = W; when a", "trigger set W = 1; when a", "when a reset after 5s W", "trigger set x W 1 when a",
		"when a repeat 5 every W 10s", "when a reset after W 10s", "when a repeat W 5 every 10s", "when a W repeat 5", "when a repeat 5 every 10s W reset after 1h"},
	"ops": {"when a W b", "when a not W b", "when W a", "when a and W b", "when (a W b)", "when a W (b)"},
	"num": {"when 5 W", "when 5W", "when 2.5W", "when 2.5 W", "when -5 W", "when a == W", "when 1h W"},
	"cal": {"when month[W]", "when weekday[W]", "when weekday[mon, W]", "when month[jan .. W]", "when time[1:20 W]", "when time[1:20W]", "when date[W]", "when W[mon]", "when date[2022-02-03 W 2022-02-04]", "when W[1:20]"},
	"geo": {"when W[1, 2]", "when point[1, 2]:3W", "when W[point[1,2]]", "when collection[W[1, 2]]", "when point W [1, 2]", "when line[[1, 2]]:W", "when point[W, 2]"},
	"sel": {"when a{W}", "when a:W", "when [W]", "when @W", "when 1 W 2", "when W{\"x\"}:1", "when a in W", "when [1 W 2]"},
}

var rePieces = regexp.MustCompile(`"(\\.|[^"])*"|\.\.|[\pL_][\pL\pN_]*|[0-9.]+|[=!<>]=|\s+|(?s:.)`)

// words that other languages and other writers have where ours has its own
var foreign = strings.Fields("once twice times always never each every daily until while if then else end do for from to by at on is was has like between within contains outside near " +
	"xor nand nor implies && || & | ~ ^ ** // %% <> =< => === !== := ?? ? -> ++ -- is~not isnt nin null nil none yes no TRUE1 on off undefined nan inf " +
	"miles mile mi ft feet yd nm metres meters km/h kmh kmph knots kn mps m/s rpm kelvin K kPa hPa pa atm mbar torr mmHg percent promille deg rad " +
	"seconds second secs sec minutes minute mins min hours hour hrs hr days day d weeks week w months years ms us ns µs mS " +
	"january jän januar janv febr mär mars avr mai juin juil août sept okt dez thurs tues weds wednes mond sund satur mo tu we th fr sa su so di mi do noon midnight a.m. p.m. A P m z utc gmt " +
	"circle box rect rectangle ring geom geometry multigeometry geometrycollection linestring multilinestring pt poly today now tomorrow")

// spoiled is a text with a token too many, too few, another or exchanged: at the end
// of its last part, or anywhere.
func spoiled(rng *rand.Rand, text string) string {
	ps := rePieces.FindAllString(text, -1)
	if len(ps) < 3 {
		return text
	}
	at := 1 + rng.Intn(len(ps)-1)
	if rng.Intn(2) == 0 { // before what closes the last part
		at = len(ps)
		for k := rng.Intn(3); at > 1 && k >= 0 && strings.ContainsAny(ps[at-1], "])} "); k-- {
			at--
		}
	}
	signs := []string{",", ",", ";", ":", ".", "..", "]", "[", ")", "(", "}", "{", "-", "1", "a", "@", "x = 1", "when", "and", "not", "*", "every", "=", "\"s\"", ps[rng.Intn(len(ps))]}
	cut := func(i, j int, with ...string) string {
		return strings.Join(ps[:i], "") + strings.Join(with, "") + strings.Join(ps[j:], "")
	}
	switch rng.Intn(8) {
	case 6, 7: // a word that does not belong here
		x := " " + strings.ReplaceAll(foreign[rng.Intn(len(foreign))], "~", " ") + " "
		k := 1 + rng.Intn(len(ps)-1)
		if rng.Intn(2) == 0 {
			k = at - 1
		}
		if rng.Intn(3) > 0 {
			for k > 1 && strings.TrimSpace(ps[k]) == "" {
				k--
			}
			return cut(k, k+1, x)
		}
		return cut(k, k, x)
	case 0:
		return cut(at-1, at)
	case 1:
		return cut(at-1, at, " "+signs[rng.Intn(len(signs))]+" ")
	case 2:
		return cut(at, at, ps[at-1])
	}
	return cut(at, at, signs[rng.Intn(len(signs))])
}

// spaced is a text with blanks around its punctuation.
func spaced(rng *rand.Rand, text string) string {
	before, after := "", ""
	rare := 1
	switch rng.Intn(8) {
	case 0:
		after = ","
	case 1:
		before = "]})"
	case 2:
		before, after = "[](){},:;", "[](){},:;"
	case 3:
		before, after, rare = "[](){},:;", "[](){},:;", 4
	case 4:
		before, after, rare = "]})", ",[({", 2
	default:
		return text
	}
	sp := blanks[rng.Intn(len(blanks))]
	var b strings.Builder
	quoted := false
	for i := 0; i < len(text); i++ {
		ch := text[i]
		if ch == '"' && (i == 0 || text[i-1] != '\\') {
			quoted = !quoted
		}
		put := func(at string) {
			if !quoted && strings.IndexByte(at, ch) >= 0 && rng.Intn(rare) == 0 {
				if rng.Intn(3) == 0 {
					sp = blanks[rng.Intn(len(blanks))]
				}
				b.WriteString(sp)
			}
		}
		put(before)
		b.WriteByte(ch)
		put(after)
	}
	return b.String()
}

// sweepTexts are the sweeps of a theme; a check of all themes takes one of twelve
// in the quick run.
func (c *Ctx) sweepTexts(theme string, part bool) []string {
	ts := sweeps(c.Seed, theme, c.Thorough)
	words := strange(rand.New(rand.NewSource(c.Seed)), theme, c.Thorough)
	whole := c.Prop == "C02"
	if !whole {
		ts = append(ts, words...)
	}
	for i := range ts {
		ts[i] = spaced(c.Rand, ts[i])
	}
	one := 3
	if part {
		one = 1
	}
	for i, n := 0, len(ts); i < n; i++ {
		if k := len(ts[i]); c.Intn(one) == 0 && k < 4000 {
			ts = append(ts, spoiled(c.Rand, ts[i]))
		}
	}
	if !part || c.Thorough {
		if whole {
			ts = append(ts, words...)
		}
		return ts
	}
	var out []string
	for _, t := range ts {
		if c.Intn(12) == 0 {
			out = append(out, t)
		}
	}
	if whole {
		out = append(out, words...)
	}
	if theme == "sel" {
		out = append(out, invisible()...)
	}
	return out
}

// invisible are strings of characters without a form of their own.
func invisible() (out []string) {
	var all []string
	for r := rune(0x80); r < 0x3100; r++ {
		if r < 0xC0 || 0x2000 <= r && r < 0x2070 || unicode.In(r, unicode.Cf, unicode.Zs) {
			all = append(all, `"a`+string(r)+`b"`)
		}
	}
	s := &sweep{}
	s.lists("when [", all, "]", 24)
	return s.out
}
