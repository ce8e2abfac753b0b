package main

import (
	"fmt"
	"strings"
)

// Every call returns, whatever the text.

type nesting struct {
	name            string
	open, mid, shut string
	before, after   string
}

var nestings = []nesting{
	{"parentheses", "(", "a", ")", "when ", ""},
	{"parentheses and operators", "(b and ", "a", ") or c", "when ", ""},
	{"arrays", "[", "1", "]", "when a in ", ""},
	{"collections", "collection[", "point[1,2]", "]", "when ", ""},
	{"signs", "-", "1", "", "when ", ""},
	{"signed parentheses", "-(", "1", ")", "when ", ""},
	{"arrays of parentheses", "[(", "1", ")]", "when ", ""},
	{"assigned arrays", "[", "1", "]", "trigger set x = ", " when a"},
	{"selectors", "a:", "1", "", "when ", ""},
	{"polygons", "polygon[", "[[1,2]]", "]", "when ", ""},
	{"brackets", "point[", "1", "]", "when ", ""},
	{"lines", "line[", "[1,2]", "]", "when ", ""},
	{"dates", "date[", "2022-01-02", "]", "when ", ""},
	{"names", "@", "x", "", "when ", ""},
	{"braces", "a{", "\"x\"", "}", "when ", ""},
	{"semicolons", ";", "a", "", "when ", ""},
	{"assignments", "x = 1; ", "", "", "trigger set ", " when a"},
	{"operators", "a + ", "b", "", "when ", ""},
	{"operators of rising precedence", "a or b and c == d + e * ", "f", "", "when ", ""},
	{"comparisons", "a < b and ", "c", "", "when ", ""},
	{"ranges", "1 .. ", "2", "", "when a in ", ""},
	{"elements", "1, ", "2", "", "when a in [", "]"},
	{"points", "[1,2], ", "[3,4]", "", "when line[", "]"},
	{"rings", "[[1,2]], ", "[[3,4]]", "", "when polygon[", "]"},
	{"arguments", "\"x\", ", "\"y\"", "", "when a{", "}"},
	{"calendar values", "mon, ", "tue", "", "when weekday[", "]"},
	{"objects", "point[1,2], ", "point[3,4]", "", "when collection[", "]"},
	{"digits", "9", "", "", "when ", ""},
	{"fraction", "9", "", "", "when 0.", ""},
	{"letters", "a", "", "", "when ", ""},
	{"string", "b", "", "", "when \"", "\""},
	{"repetitions", "repeat ", "5", "", "when a ", ""},
	{"triggers", "trigger ", "", "", "", " when a"},
	{"nots", "not ", "in b", "", "when a ", ""},
	{"points in a row", ".", "", "", "when a", ""},
	{"conditions", "true and ", "true", "", "when ", ""},
	{"alternatives", "true or ", "true", "", "when ", ""},
	{"nested conditions", "true and (", "true", ")", "when ", ""},
	{"conditions nested at the left", "(", "1 < 2", " or true)", "when ", ""},
	{"sums", "1 + ", "2.5", "", "when a < ", ""},
	{"nested products", "(2 * ", "a", ")", "when 1 > ", ""},
	{"remainders nested at the left", "(", "a", " rem 3)", "when 1 > ", ""},
	{"equal operands", "true == ", "true", "", "when ", ""},
	{"joined strings", "\"x\" + ", "\"y\"", "", "when \"z\" == ", ""},
	{"references", "@v + ", "@v", "", "trigger set v = 1 when 2 == ", ""},
	{"references in arrays", "@v, ", "@v", "", "trigger set v = 1 when a in [", "]"},
	{"elements nested", "[1, ", "2", "]", "when a in ", ""},
	{"ranges nested", "(1 .. ", "2", ")", "when a in ", ""},
	{"properties", "1, ", "2", "", "when a:", ""},
	{"selectors with properties", "a:1 : ", "b", "", "when [", "]"},
	{"variables", "v = 1 ", "", "", "trigger set ", "when a"},
	{"wildcards", "*, ", "*", "", "when a{", "}"},
	{"times", "11:22, ", "3:04", "", "when time[", "]"},
	{"dates in a list", "2022-02-03, ", "2022-02-04", "", "when date[", "]"},
	{"months", "jan, ", "feb", "", "when month[", "]"},
	{"lines in multiline", "line[[1,2]], ", "line[[3,4]]", "", "when multiline[", "]"},
	{"polygons in multipolygon", "polygon[[[1,2]]], ", "polygon[[[3,4]]]", "", "when multipolygon[", "]"},
	{"blanks", " ", "a", "", "when ", ""},
	{"line ends", "\r\n", "a", "", "when ", ""},
	{"escapes", "\\n", "", "", "when \"", "\""},
	{"strings in an array", "\"s\", ", "\"t\"", "", "when [", "]"},
	{"references in an array", "@x, ", "@y", "", "when [", "]"},
	{"ranges in an array", "1 .. 2, ", "3 .. 4", "", "when [", "]"},
	{"duration units", "h1m1s1", "h", "", "when 1", ""},
}

func (n *nesting) text(k int, closed bool) string {
	t := n.before + strings.Repeat(n.open, k)
	if closed {
		t += n.mid + strings.Repeat(n.shut, k) + n.after
	}
	return t
}

// totally calls everything on the text.
func (c *Ctx) totally(kind, text string) {
	c.count(kind, fmt.Sprintf("%q", text))
	if msg := everything(text); msg != "" {
		c.violate("no outcome", text, msg)
	}
}

func init() {
	checks["C01"] = func(c *Ctx) {
		var fams []Family
		for _, t := range themes {
			fams = append(fams, families(t, c.Thorough, true)...)
		}
		enumerate(fams, func(f *Family, s *Spec) {
			kind := "enumerated, rejected"
			if s.R.OK {
				kind = "enumerated, accepted"
			}
			c.totally(kind, s.Text)
			if s.Dead && c.Intn(4) == 0 {
				c.totally("continued", s.Text+" "+f.Words[c.Intn(len(f.Words))])
			}
		})
		depths := []int{1, 2, 3, 17, 200, 1000, 4999, 9998, 9999, 10000, 10001, 10002, 30000}
		if c.Thorough {
			depths = append(depths, 100000, 1000000)
		}
		// what the specification says of three and of seventeen repetitions
		var texts []string
		for i := range nestings {
			texts = append(texts, nestings[i].text(3, true), nestings[i].text(17, true))
		}
		spec := oracle(texts)
		texts = nil
		for i := range nestings {
			n := &nestings[i]
			accepted := spec[2*i].R.OK && spec[2*i+1].R.OK
			for _, k := range depths {
				if k > 10002 && strings.Contains(n.name, "operators") && !c.Thorough {
					continue
				}
				for _, closed := range []bool{true, false} {
					t := n.text(k, closed)
					c.totally("repeated "+n.name, t)
					if closed && k <= 17 {
						texts = append(texts, t)
					}
					if closed && accepted && n.name != "digits" && k >= 3 && k <= 1000 {
						if r := realParse(t); r.outcome() != "ok" {
							c.violate("moderate nesting rejected", t, n.name, fmt.Sprint(k), r.outcome())
						}
					}
				}
				// damage in the middle
				t := n.text(k, true)
				i := c.Intn(len(t))
				c.totally("damaged "+n.name, t[:i]+")"+t[i:])
				c.totally("damaged "+n.name, t[:i]+"\xff"+t[i:])
			}
		}
		// shallow, the outcome is the specified one
		for _, s := range oracle(texts) {
			for _, d := range compare(s) {
				if d.Class == "accept" || d.Class == "outcome" {
					c.violate(d.Class, s.Text, d.String(), "specified: "+s.describe())
				}
			}
		}
		for i := c.n(40000, 600000); i > 0; i-- {
			switch i % 4 {
			case 0:
				b := make([]byte, c.Intn(80))
				c.Read(b)
				c.totally("any bytes", string(b))
			case 1:
				b := make([]byte, c.Intn(60))
				for j := range b {
					b[j] = byte(c.Intn(128))
				}
				c.totally("any characters", "when "+string(b))
			case 2:
				c.totally("any tokens", "when "+garbage(c.Rand))
			case 3:
				t := wordSoup(c)
				c.totally("any words", t)
			}
		}
		for i, t := range themes {
			for _, t := range randomTexts(c.Seed*41+int64(i), t, c.n(3000, 40000)) {
				c.totally("random", t)
				// cut or doubled somewhere
				k := c.Intn(len(t) + 1)
				c.totally("cut", t[:k])
				l := c.Intn(len(t) + 1)
				c.totally("spliced", t[:k]+t[l:])
			}
		}
		for i := c.n(4000, 40000); i > 0; i-- {
			c.totally("variables of references", refText(c.Rand))
		}
		documented(c)
	}
}

var soup = ww("trigger set when repeat reset every after rem or and == in not~in nearby .. range time[ date[ weekday[ month[ point[ multipoint[ line[ " +
	"multiline[ polygon[ multipolygon[ collection[ true up a b{ } ( ) [ ] , ; : = . - + * / 1 2.5 0 11:22 2022-01-02 mon jan 1km 2kph 3% 1h " +
	"1bar 1C \"s\" @x @ ! not > < 24 59 99999999999999999999 1. .5")

func wordSoup(c *Ctx) string {
	var b strings.Builder
	if c.Intn(3) > 0 {
		b.WriteString("when ")
	}
	for n := c.Intn(14); n > 0; n-- {
		b.WriteString(soup[c.Intn(len(soup))])
		if c.Intn(3) > 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// documented calls everything on the statements of the documentation.
func documented(c *Ctx) {
	for _, t := range corpus {
		c.totally("documented", t)
		for k := 0; k <= len(t); k++ {
			c.totally("documented, cut", t[:k])
		}
	}
}
