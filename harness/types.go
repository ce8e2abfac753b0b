package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	gql "github.com/mmadfox/go-geoql-parser"
)

var selTypes = map[string]gql.SelectorType{"Int": gql.Int, "Float": gql.Float, "String": gql.String,
	"Boolean": gql.Boolean, "ArrayInt": gql.ArrayInt, "ArrayFloat": gql.ArrayFloat,
	"ArrayString": gql.ArrayString, "Other": gql.SelectorType(99), "Zero": gql.SelectorType(0)}

var opText = map[string]string{"OR": "or", "AND": "and", "LSS": "<", "LEQ": "<=", "GTR": ">", "GEQ": ">=",
	"EQL": "eq", "LEQL": "==", "LNEQ": "!=", "NOT_EQ": "not eq", "IN": "in", "NOT_IN": "not in",
	"INTERSECTS": "intersects", "NOT_INTERSECTS": "not intersects", "NEARBY": "nearby",
	"NOT_NEARBY": "not nearby", "ADD": "+", "SUB": "-", "MUL": "*", "QUO": "/", "REM": "rem"}

func goDict(d map[string]string) gql.Dictionary {
	out := gql.Dict()
	for k, v := range d {
		out[k] = selTypes[v]
	}
	return out
}

// typed compares CheckType with the judgement bad: "" or the operator that
// cannot be applied.
func (c *Ctx) typed(kind, text string, d map[string]string, bad string) {
	r := realParse(text)
	if r.outcome() != "ok" {
		return // that is C02
	}
	c.count(kind, text+" => "+bad)
	before := r.tree()
	dict := goDict(d)
	var err error
	say := func(class string, detail ...string) {
		dj, _ := json.Marshal(d)
		c.violate(class, text, append(detail, "dictionary: "+string(dj))...)
	}
	run := func() {
		if pan := guarded("CheckType", text, func() { err = gql.CheckType(r.Stmt, dict) }); pan != "" {
			say("outcome", "CheckType panics", pan)
		}
	}
	run()
	first := err
	switch {
	case bad == "" && err != nil:
		say("typing", "every operator is applied to operands it is defined for, but CheckType reports", err.Error())
	case bad != "" && err == nil:
		say("typing", "operator "+bad+" is applied to operands it is not defined for, but CheckType accepts")
	case bad != "" && !strings.Contains(err.Error(), " "+opText[bad]+" "):
		say("typing", "the first operator that cannot be applied is "+bad+", but CheckType reports", err.Error())
	}
	for i := 0; i < 2; i++ {
		run()
		if fmt.Sprint(err) != fmt.Sprint(first) {
			say("deterministic", fmt.Sprint(first), fmt.Sprint(err))
		}
	}
	var ds []Diff
	diffTrees(before, r.tree(), "", &ds)
	for _, x := range ds {
		say("mutation", "CheckType changes the tree", x.String())
	}
	if fmt.Sprint(dict) != fmt.Sprint(goDict(d)) {
		say("mutation", "CheckType changes the dictionary to", fmt.Sprint(dict))
	}
}

var reName = regexp.MustCompile(`[a-zéжµ_][a-z0-9éжµ_日本]*`)

func (c *Ctx) randomDict(rng *rand.Rand, text string) map[string]string {
	names := []string{"Int", "Float", "String", "Boolean", "ArrayInt", "ArrayFloat", "ArrayString", "Int", "Float", "Other", "Zero", ""}
	d := map[string]string{"a": "Int"}
	one := names[rng.Intn(len(names))]
	for _, n := range reName.FindAllString(strings.ToLower(text), -1) {
		t := names[rng.Intn(len(names))]
		if rng.Intn(2) == 0 {
			t = one
		}
		if t != "" {
			d[n] = t
		}
	}
	return d
}

func init() {
	checks["C12"] = func(c *Ctx) {
		deep := "0"
		if c.Thorough {
			deep = "1"
		}
		dict := map[string]string{"si": "Int", "sf": "Float", "ss": "String", "sb": "Boolean",
			"ai": "ArrayInt", "af": "ArrayFloat", "as": "ArrayString", "bad": "Other"}
		head := ""
		runTLC("GqlTypesEnum", map[string]string{"GQL_DEEP": deep}, func(ln []byte) {
			var v struct{ X, Bad, Op, Head string }
			must(json.Unmarshal(ln, &v))
			if v.Head != "" {
				head = v.Head
				return
			}
			kind := "enumerated, ill-typed"
			if v.Bad == "" {
				kind = "enumerated, well-typed"
			}
			c.typed(kind, head+v.X, dict, v.Bad)
		})
		rng := rand.New(rand.NewSource(c.Seed * 31))
		n := c.n(14000, 400000)
		for done := 0; done < n; done += 20000 {
			k := n - done
			if k > 20000 {
				k = 20000
			}
			texts := typeTexts(c.Seed*15485863+int64(done), k)
			vals := make([]interface{}, k)
			dicts := make([]map[string]string, k)
			for i, t := range texts {
				dicts[i] = c.randomDict(rng, t)
				vals[i] = map[string]interface{}{"c": chars(t), "d": dicts[i]}
			}
			in := writeJSON("typed.json", vals)
			runTLC("GqlTypesOracle", map[string]string{"GQL_IN": in}, func(ln []byte) {
				var v struct {
					I   int
					OK  bool
					Bad string
				}
				must(json.Unmarshal(ln, &v))
				if !v.OK {
					return
				}
				kind := "random, ill-typed"
				if v.Bad == "" {
					kind = "random, well-typed"
				}
				c.typed(kind, texts[v.I-1], dicts[v.I-1], v.Bad)
			})
		}
	}
}

// typeTexts are statements about operators, most of them well-typed.
func typeTexts(seed int64, n int) []string {
	rng := rand.New(rand.NewSource(seed))
	general := randomTexts(seed, "", n/4+1)
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	// arrays of names, with one of another type anywhere
	elems := func() string {
		set := [][]string{{"si"}, {"si", "ai"}, {"@vi"}, {"@vf"}, {"@vs"}, {"ss", "as"}, {"sf"}, {"si", "sf", "n1"}}[rng.Intn(8)]
		n := 1 + rng.Intn(6)
		if rng.Intn(10) == 0 {
			n = 1 + rng.Intn(70)
		}
		odd := rng.Intn(2 * n)
		return "[" + repeated(n, ", ", func(i int) string {
			if i == odd {
				if set[0][0] == '@' {
					return pick("@vs", "@vi", "@vf", "@vb", "@vg", "@va", "@none")
				}
				return pick("ss", "si", "sf", "sb", "undeclared")
			}
			return pick(set...)
		}) + "]"
	}
	var expr func(ty string, d int) string
	expr = func(ty string, d int) string {
		if rng.Intn(60) == 0 {
			ty = pick("num", "str", "bool", "geo")
		}
		if d <= 0 || rng.Intn(4) == 0 {
			switch ty {
			case "num":
				return pick("1", "-2", "2.5", "20%", "3km", "4kph", "-5C", "2Bar", "@vi", "@vf", "si", "sf", "ai", "n"+fmt.Sprint(rng.Intn(4)))
			case "str":
				return pick(`"s"`, `""`, "@vs", "ss", "as")
			case "geo":
				return pick("point[1,2]", "line[[1,2],[3,4]]:2km", "polygon[[[1,2]]]", "collection[point[1,2]]", "@vg", "multipoint[point[1,2]]")
			}
			return pick("true", "false", "@vb", "sb")
		}
		e := func(t string) string { return expr(t, d-1) }
		switch ty {
		case "num":
			return "(" + e("num") + " " + pick("+", "-", "*", "/", "rem") + " " + e("num") + ")"
		case "str":
			return "(" + e("str") + " + " + e("str") + ")"
		case "geo":
			return e("geo")
		}
		eq := pick("==", "!=", "eq", "not eq")
		switch rng.Intn(9) {
		case 0:
			return e("num") + " " + pick("<", ">", "<=", ">=") + " " + e("num")
		case 1:
			return e("num") + " " + eq + " " + e("num")
		case 2:
			return e("str") + " " + eq + " " + e("str")
		case 3:
			return e("num") + " " + pick("in", "not in") + " " + pick("[1, 2]", "[1.5]", "1 .. 2", "2.5 .. 3", "@va", "[si]", elems(), elems(), "[@vi]", e("geo"), "[1kph, 2kph]")
		case 4:
			return e("geo") + " " + pick("nearby", "intersects", "not nearby", "not intersects", "in", "==") + " " + e("geo")
		case 5:
			return e("str") + " in " + pick(`["s"]`, `["a","b"]`, "[ss, ss]", "@vas", elems(), "["+repeated(1+rng.Intn(9), ", ", func(int) string { return "ss" })+"]")
		case 6:
			return "(" + e("bool") + ") " + eq + " (" + e("bool") + ")"
		}
		return "(" + e("bool") + ") " + pick("and", "or") + " (" + e("bool") + ")"
	}
	out := make([]string, n)
	for i := range out {
		if i < len(general) && rng.Intn(2) == 0 {
			out[i] = general[i]
			continue
		}
		filler := ""
		if rng.Intn(12) == 0 { // many variables
			most := 12
			if rng.Intn(3) == 0 {
				most = 150
			}
			ty := pick("1", "2.5", `"s"`, "true", "point[1,2]", "[1]", "a", "5s")
			for k := rng.Intn(most); k > 0; k-- {
				filler += fmt.Sprintf("w%d = %s; ", k, pick(ty, "1"))
			}
		}
		if rng.Intn(14) == 0 {
			out[i] = refText(rng)
			continue
		}
		head := "trigger set " + filler + "vi = " + pick("1", "-3") + "; vf = " + pick("1.5", "2km", "20%") + `; vs = "s"; vb = ` + pick("true", "false") +
			"; vg = " + pick("point[1,2]", "line[[1,2],[3,4]]", "polygon[[[1,2]]]", "multipoint[point[1,2]]", "collection[point[1,2]]") +
			"; va = " + pick("[1]", "[1.5]", "[1kph]", "[si, si]") + `; vas = ["x"]; when `
		out[i] = head + expr("bool", 1+rng.Intn(4))
		switch rng.Intn(40) {
		case 2: // very long, and perhaps ill-typed at a late place
			n := 64 + rng.Intn(300)
			bad := -1
			if rng.Intn(2) == 0 {
				bad = n - 1 - rng.Intn(9)
			}
			shape := rng.Intn(4)
			for k := 0; k < n; k++ {
				op := pick(" and ", " or ")
				x := pick("1 > 0", "si < 2", "@vb", `"s" == ss`, "@vg nearby point[1,2]", "1 in [1, 2]")
				if k == bad {
					x = pick("true > 1", "@vs < 2", "1 == \"s\"", "@vg + 1", "1 in [\"s\"]", "@none > 1")
				}
				switch shape {
				case 0:
					out[i] += op + "(" + x + ")"
				case 1:
					out[i] += op + x
				case 2:
					out[i] += op + "((" + x + ")" + pick(" and ", " or ") + "true)"
				case 3:
					out[i] += op + "(" + x
				}
			}
			out[i] += strings.Repeat(")", strings.Count(out[i], "(")-strings.Count(out[i], ")"))
		case 0: // long
			for k := rng.Intn(70); k > 0; k-- {
				out[i] += pick(" and ", " or ", " and (", " or (") + "(" + expr("bool", 1) + ")"
			}
			out[i] += strings.Repeat(")", strings.Count(out[i], "(")-strings.Count(out[i], ")"))
		case 1: // long sums
			out[i] += " and 1 < " + pick("1", "2.5", "@vi", "si")
			bad := rng.Intn(100)
			for k := 0; k < rng.Intn(90); k++ {
				out[i] += pick(" + ", " - ", " * ", " + (") + pick("1", "2.5", "@vi", "si", "n1")
				if k == bad {
					out[i] += " + " + pick("@vs", "true", "ss", "@vg")
				}
			}
			out[i] += strings.Repeat(")", strings.Count(out[i], "(")-strings.Count(out[i], ")"))
		}
	}
	return out
}

// refText is a statement whose variables stand for values with references, to
// themselves, to each other and to variables before or behind.
func refText(rng *rand.Rand) string {
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	ref := func() string { return "@" + pick("x", "y", "z", "x", "X", "none") }
	atom := func() string { return pick(ref(), ref(), "1", "2.5", "si", `"s"`, "true") }
	value := func() string {
		switch rng.Intn(9) {
		case 0:
			return "(" + ref() + ")"
		case 1:
			return "(" + ref() + " " + pick("+", "-", "*", "==", "in", "and", "nearby") + " " + atom() + ")"
		case 2:
			return "((" + atom() + " " + pick("+", "/", "<", "or") + " " + ref() + "))"
		case 3:
			return ref() + " .. " + atom()
		case 4:
			return atom() + " .. " + ref()
		case 5:
			return "a{\"k\"}:" + ref() + "," + ref()
		case 6:
			return "[" + ref() + " .. " + ref() + ", 1 .. 2]"
		case 7:
			return "[a:" + ref() + "]"
		}
		return atom()
	}
	t := "trigger set "
	for _, n := range []string{"x", "y", "z", "X"}[:1+rng.Intn(4)] {
		v := value()
		if strings.HasPrefix(v, "@") && !strings.Contains(v, "..") {
			v = "(" + v + ")"
		}
		t += n + " = " + v + "; "
	}
	t += "when " + ref() + " " + pick("==", ">", "+", "in", "and", "or", "not in", "nearby", "!=") + " "
	return t + pick(atom(), ref(), "["+ref()+", "+ref()+"]", "1 .. "+ref(), "("+ref()+" == "+ref()+")", ref()+" and "+ref())
}
