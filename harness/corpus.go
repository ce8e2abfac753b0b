package main

// corpus has a statement for every construct of the language.
var corpus = []string{
	`when a`,
	`trigger set x = 1; y = 2.5; z = "s"; w = true; p = point[1,2]:3km; q = [1,2,3]; when @x > 1 and @y < 2 repeat 3 every 10s reset after 1h`,
	`trigger when a{"x","y",*}:1km,2km intersects line[[1,2],[3,4],[5,6],[7,8],[9,10],[11,12],[13,14]]:500M repeat 2 every 1.5s`,
	`trigger set pl = polygon[[[1,2],[3,4],[5,6],[7,8],[9,10],[11,12]],[[-1,-2],[3.5,4.25]]]; when b{*} not in @pl repeat 5`,
	`when c nearby multipoint[point[1,2]:1km, point[-3,4.5]] or d intersects multiline[line[[1,2],[3,4]], line[[5,6],[7,8]]:2M]`,
	`when e not intersects collection[point[1,2], line[[1,2],[3,4]], polygon[[[1,2],[3,4]]], multipolygon[polygon[[[1,1]]]], multipoint[point[0,0]]]`,
	`when t in time[9:01AM .. 12:12PM] and u in time[11:11:11, 00:00] and v == time[1:02]`,
	`when d in date[2030-10-02 .. 2031-01-01] or d == date[2022-02-03] or d not in date[2022-01-01, 2022-12-31]`,
	`when w in weekday[Sun .. Fri] and w == weekday[Mon] and m in month[Jan, Feb] and m not eq month[Dec]`,
	`when (a + b) * (c - d) / 3 rem 2 >= 1.5 and ((x != -1 or y <= +2)) and not_z eq false`,
	`when s in 10Kph .. 40Kph and p in [12Bar .. 44Psi] and t > -10C and t < +3F and u > 20% and l < 5Km and q > 1h30m5s`,
	`when sel{"786d9e27-f277-4d5d-b658-3198c133c43d","786d9e27-f277-4d5d-b658-3198c133c43b","786d9e27-f277-4d5d-b658-3198c133c43e"} in [1kph, 2kph] or * == a`,
	`when [a, b] == [@x, @y] and [1h, 2m] == ["s", "t"] and [a:1 : b] == [1 .. 2, 3 .. 4] and x in @r .. 5`,
	`trigger set v = [1 .. 2]; u = date[2022-02-03]; t = time[1:02PM]; f = false; when a mod 2 == 0 reset after 30s`,
}
