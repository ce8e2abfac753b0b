package main

import "strings"

// ww are the words of s; "~" stands for a blank
func ww(s string) []string {
	out := strings.Fields(s)
	for i := range out {
		out[i] = strings.ReplaceAll(out[i], "~", " ")
	}
	return out
}

var allUnits = "% PCT Pct pct bar Bar BAR Psi PSI psi rkm rKM Rkm Km km rm rM Rm M kph KPH Kph mph MPH Mph c C f F h m s ms h30m m15s H us ns KM RM"

// families are the enumerated shapes of texts, by theme. d and t are the
// depths of the quick and of the thorough run; a run of all themes (wide)
// takes one word less.
func families(theme string, thorough, wide bool) []Family {
	var out []Family
	add := func(name string, prefix, words []string, d, t int) {
		if thorough {
			d = t
		}
		if wide && d > 3 {
			d--
		}
		out = append(out, Family{name, prefix, words, d})
	}
	switch theme {
	case "stmt":
		add("statement", nil, ww("trigger set x = 1 ; when a repeat every 10~s reset"), 8, 10)
		add("tail", ww("when a"), ww("repeat reset after every 5 0 1.5 10~s 2~km - + ; and ("), 7, 8)
		add("assign", ww("trigger set"), ww("x y X = 1 @~x [~@~x~] [~1~] ; when date"), 8, 9)
		add("assign2", ww("trigger set x = 1 ;"), ww("x y X = == 1 @~x a [ ] ; when set"), 7, 8)
		add("start", nil, ww("trigger TRIGGER when When set SET a 1 ( ) ; repeat reset 5"), 5, 6)
	case "ops":
		add("pairs", ww("when a"), append(ww("b"), ww("or and > < >= <= == != eq not~eq in not~in nearby not~nearby intersects not~intersects + - * / rem mod")...), 4, 5)
		add("levels", ww("when"), ww("a b or and == in + * ( )"), 7, 8)
		add("chain", ww("when a"), ww("or~b and~c <~d ==~e -~f *~g /~h ) or~( and~( ==~( +~("), 6, 7)
		add("paren", ww("when ("), ww("( ) a 1 - + * and .."), 6, 7)
		add("parens", ww("when"), ww("((1)) (((2))) ((a)) ( ) [ ] .. , : a + ((-~1~km))"), 5, 6)
	case "num":
		add("unit", ww("when"), append(ww("1 2.50 - + ( a"), ww(allUnits)...), 4, 4)
		add("lit", ww("when"), ww("0 00 007 1. 1.0 0.0 01.50 1_0 1_0.5 1_.5 9223372036854775807 9223372036854775808 9223372036854775808. 123456789012345678.12345 1e5 0x10 .5 - + km h true FALSE Up doWN \"x\" \"\" \"a\\\"b\""), 4, 4)
		add("dur", ww("when"), ww("1 1.5 0 0.25 100000000 2562047 2562048 h m s ms us ns h1m h1m1s h1 hm s1ms1us1ns h5 m1h M H1M s0x sm"), 3, 4)
		add("signed", ww("when"), ww("- + 1 2.5 km C % s bar kph ( ) .. a"), 6, 7)
	case "cal":
		add("date", ww("when date ["), ww("2022 2021 2200 2201 - 0 01 1 12 13 31 32 ] ,"), 6, 6)
		add("dates", ww("when date"), ww("[ ] , .. . - 2022-02-03 2023 : 11 and a ..~a"), 7, 8)
		add("time", ww("when time ["), ww("0 24 25 59 60 7 : AM pM am ] , .. xm"), 6, 7)
		add("times", ww("when time"), ww("[ ] , .. . : 11:22 11:22:33 AM 9"), 7, 8)
		add("weekday", ww("when weekday"), ww("[ ] , .. . sun Mon TUE wed thu fri sat sunday jan 1"), 6, 6)
		add("month", ww("when month"), ww("[ ] , .. jan Feb MAR apr may jun jul aug sep oct nov dec x"), 6, 6)
		add("mixed", ww("when"), ww("date[2022-02-03] time[11:22~PM] weekday[~mon~] month[may] .. in [ ] , ("), 6, 7)
	case "geo":
		add("point", ww("when point"), ww("[ ] , 1 2.5 - : 3~km 3"), 9, 10)
		add("line", ww("when line [ ["), ww("[ ] , 1 - ]:3~km ],["), 8, 10)
		add("polygon", ww("when polygon [ [ ["), ww("[ ] , 1 -2 ],[ ]],[["), 8, 10)
		add("multi", ww("when"), ww("multipoint[ multiline[ multipolygon[ collection[ point[1,2] line[[1,2],[3,4]]:2km polygon[[[1,2]]] ] ,"), 6, 7)
		add("radius", ww("when point[1,2] :"), ww("1 2.5 km M rm Km KM kph % - + : ] h"), 4, 5)
		add("path", ww("when"), ww("point line polygon [ ] 1,2 , :1km"), 9, 11)
		add("nest", ww("when collection ["), ww("point[1,2] multipoint[ collection[ line[[1,2]] ] , polygon[ [[1,2]] 1"), 6, 7)
	case "sel":
		add("args", ww("when"), ww("a B { } \"x\" \"y\" * , : 1"), 6, 7)
		add("props", ww("when"), ww("a:1 b {\"x\"} : , 1~km \"s\" [ ] @r"), 6, 7)
		add("array", ww("when"), ww("[ ] , : 1 2.5 \"s\" @r a 1~km 1..2"), 6, 6)
		add("range", ww("when"), ww("1 2.5 .. range - a ( ) [ ] ,"), 6, 7)
		add("ref", ww("when"), ww("@ x X 1 [ ] , .. @y * .. ("), 6, 6)
		add("kinds", ww("when ["), ww("1 1.5 \"s\" 1~km 1~kph 1~bar 1~C 1~% 1~h @r a true * (1) [1] 1..2 date[2022-02-03] point[1,2] , ]"), 5, 5)
	}
	return out
}

var themes = []string{"stmt", "ops", "num", "cal", "geo", "sel"}
