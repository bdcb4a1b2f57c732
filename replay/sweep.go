package replay

import (
	"fmt"
	"sort"
	"strings"

	"verif/spec"
)

// sweepRunes are the code points put into every context.
func sweepRunes() []string {
	var out []string
	for c := rune(0); c < 0x80; c++ {
		l := c|32 >= 'a' && c|32 <= 'z' || c >= '0' && c <= '9'
		if !l || strings.ContainsRune("aezAMZ059", c) {
			out = append(out, string(c))
		}
	}
	for _, c := range []rune{0x80, 0x85, 0xa0, 0xe9, 0xff, 0x100, 0x130, 0x131, 0x17f, 0x2c6, 0x7ff, 0x800, 0x2028, 0x212a, 0x4e2d, 0xd7ff, 0xe000, 0xfb00, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff} {
		out = append(out, string(c))
	}
	return append(out, "\xff", "\xc3", "\xed\xa0\x80", "\r\n ", "\r\n", "\\\\", "\\\"", "()", "(a)", "\"a\"", "\"\"", "=?utf-8?q?a?=")
}

var addrContexts = []string{
	"%s", "%sa@b", "a%sb@c", "a%s@b", "a@%sb", "a@b%sc", "a@b%s", "a.%s@b", "a@b.%s", "\"%s\"@b", "\"a%sb\"@c", "\"\\%s\"@b", "\" %s \"@b",
	"a@[%s]", "a@[1%s2]", "(%s)a@b", "a@b(x%sy)", "(\\%s)a@b", "%s <a@b>", "x%sy <a@b>", "x %s y <a@b>", "\"x%sy\" <a@b>", "\"\\%s\" <a@b>",
	"x <%sa@b>", "x <a@b%s>", "x <a@b>%s", "x <@%s:a@b>", "x <@c,%s@d:a@b>", "g:%s;", "g%s:a@b;", "g:a@b%s;", "g:a@b,%s;", "a@b,%s", "a@b%sc@d", "a@b,%s,c@d", "%s,a@b", "a@b:%s", "x <a@b:%s>",
	"=?%s?q?a?= <a@b>", "=?utf-8?%s?a?= <a@b>", "=?utf-8?q?%s?= <a@b>", "=?utf-8?b?%s?= <a@b>", "=?utf-8?q?a?=%s=?utf-8?q?b?= <a@b>", "=?utf-8?q?a?=%sb <a@b>", "b%s=?utf-8?q?a?= <a@b>", "=?utf-8?q?a?=%s@b",
	"x.%s <a@b>", "x%s. <a@b>", "\"a\"%s@b", "\"a\"%s.b@c", "a%s.%sb@c", "a@b%s.%sc",
}

var dateContexts = []string{
	"%s", "1%s Jan 2020 00:00", "%s1 Jan 2020 00:00", "1%sJan%s2020%s00:00", "1 %s 2020 00:00", "1 Jan %s 00:00", "1 Jan 2020 %s", "1 Jan 2020 00%s00", "1 Jan 2020 00:00%s", "1 Jan 2020 00:00 %s", "1 Jan 2020 00:00:00 %s", "1 Jan 2020 00:00:00%s+0000",
	"Mon%s1 Jan 2020 00:00", "%s, 1 Jan 2020 00:00", "Mon,%s1 Jan 2020 00:00", "1 Jan 2020 00:00:%s", "1 Jan 2020 00%s:%s00", "1 Jan 2020 00:00 +0%s00", "1 Jan 20%s 00:00", "(%s) 1 Jan 2020 00:00", "1 Jan 2020 00:00 (\\%s)",
}

// Sweep lists the systematic inputs, those with marked characters and given
// texts first; it returns how many these are.
func Sweep(marks map[rune]bool, texts []string, emit func(date bool, in string)) (first int) {
	all := emit
	emit = func(date bool, in string) {
		first++
		all(date, in)
	}
	for _, t := range texts {
		for _, c := range addrContexts {
			emit(false, strings.ReplaceAll(c, "%s", t))
		}
		for _, c := range dateContexts {
			emit(true, strings.ReplaceAll(c, "%s", t))
		}
	}
	var ms []rune
	for r := range marks {
		ms = append(ms, r)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i] < ms[j] })
	for _, r := range ms {
		for _, c := range addrContexts {
			emit(false, strings.ReplaceAll(c, "%s", string(r)))
		}
		for _, c := range dateContexts {
			emit(true, strings.ReplaceAll(c, "%s", string(r)))
		}
	}
	emit = all
	rs := sweepRunes()
	for _, c := range addrContexts {
		for _, r := range rs {
			emit(false, strings.ReplaceAll(c, "%s", r))
		}
	}
	for _, c := range dateContexts {
		for _, r := range rs {
			emit(true, strings.ReplaceAll(c, "%s", r))
		}
	}
	for c := rune(0); c < 0x100; c++ {
		emit(false, string(c)+"@b")
		emit(false, "x"+string(c)+" <a@b"+string(c)+">")
		emit(false, "\"\\"+string(c)+"\"@b")
	}
	var zones []string
	for z := range spec.Zones {
		zones = append(zones, z, strings.ToUpper(z), strings.ToUpper(z[:1])+z[1:])
	}
	for c := 'A'; c <= 'Z'; c++ {
		zones = append(zones, string(c), string(c+32))
	}
	for h := 0; h < 100; h++ {
		zones = append(zones, fmt.Sprintf("+%02d00", h), fmt.Sprintf("-%02d00", h), fmt.Sprintf("%02d30", h))
		zones = append(zones, fmt.Sprintf("+00%02d", h), fmt.Sprintf("-00%02d", h), fmt.Sprintf("-01%02d", h), fmt.Sprintf("00%02d", h))
	}
	zones = append(zones, "UTC", "AEST", "+5959", "-9999", "+000", "+00000", "", "Z0", "ZZ", "PSTT", "BST", "CEST", "0000", "-0000")
	for _, z := range zones {
		emit(true, "1 Jan 2020 00:00:00 "+z)
		emit(true, "Wed, 31 Dec 1969 23:59 "+z)
	}
	for y := 0; y < 100; y++ {
		emit(true, fmt.Sprintf("1 Jan %02d 00:00", y))
		emit(true, fmt.Sprintf("29 Feb %02d 12:34:56 +0100", y))
		emit(true, fmt.Sprintf("1 Jan %03d 00:00", y*10+y%7))
		emit(true, fmt.Sprintf("1 Jan %04d 00:00 Z", y*100+y))
		emit(true, fmt.Sprintf("%02d Mar 2021 00:00", y))
		emit(true, fmt.Sprintf("1 Mar 2021 %02d:00", y))
		emit(true, fmt.Sprintf("1 Mar 2021 00:%02d", y))
		emit(true, fmt.Sprintf("1 Mar 2021 00:00:%02d", y))
		if y < 10 {
			emit(true, fmt.Sprintf("%d Mar %d 0:00", y, y))
			emit(true, fmt.Sprintf("%d Mar 2020 00:%d", y, y))
		}
	}
	for _, y := range []string{"1899", "1900", "1949", "1950", "1969", "1970", "1999", "2000", "2049", "2050", "9999", "10000", "0000", "00000", "02020"} {
		emit(true, "1 Jan "+y+" 00:00 +0000")
		emit(true, "1 Jan "+y+" 00:00")
	}
	for _, m := range spec.Months {
		for _, v := range []string{m, strings.ToLower(m), strings.ToUpper(m), m[:2], m + "e", m[:1] + strings.ToUpper(m[1:2]) + m[2:]} {
			for _, d := range []string{"1", "01", "29", "30", "31", "32"} {
				emit(true, d+" "+v+" 2021 01:02:03 -0330")
			}
		}
	}
	for _, d := range []string{"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun", "mon", "SUN", "Mond", "Mo", "Xxx"} {
		emit(true, d+", 4 Jul 1976 12:00:00 EST")
		emit(true, d+" , 4 Jul 76 12:00 est")
		emit(true, d+" 4 Jul 1976 12:00")
	}
	// long and deep inputs
	for _, n := range []int{2, 3, 10, 60, 300} {
		emit(false, strings.Repeat("(", n)+"x"+strings.Repeat(")", n)+"a@b")
		emit(false, "a@b"+strings.Repeat(", c@d", n))
		emit(false, strings.Repeat("g: a@b, c@d;", 1)+strings.Repeat(", h: x <a@b>;", n))
		emit(false, "\""+strings.Repeat("a b", n)+"\" <"+strings.Repeat("a", n)+"@"+strings.Repeat("b", n)+">")
		emit(false, strings.Repeat("w ", n)+"<a@b>")
		emit(false, strings.Repeat("=?utf-8?q?a?= ", n)+"<a@b>")
		emit(false, strings.Repeat("a.", n)+"b@c"+strings.Repeat(".d", n))
		emit(false, "a@b"+strings.Repeat(" ", n))
		emit(false, strings.Repeat(",", n)+"a@b"+strings.Repeat(",", n))
		emit(false, "g:"+strings.Repeat(",", n)+";")
		emit(false, "g: a@b"+strings.Repeat(",", n)+" c@d;")
		emit(false, "x <@a"+strings.Repeat(",@b", n)+":c@d>")
		emit(false, "\""+strings.Repeat("\\\"", n)+"\"@c")
		emit(true, strings.Repeat("(", n)+strings.Repeat(")", n)+"1 Jan 2020 00:00")
		emit(true, "1 Jan "+strings.Repeat("2", n)+" 00:00")
		emit(true, strings.Repeat("1", n)+" Jan 2020 00:00")
	}
	for _, n := range []string{"0", "00", "1", "25", "255", "256", "32767", "32768", "65535", "65536", "99999", "2147483648", "9223372036854775808", "18446744073709551616", strings.Repeat("9", 40), strings.Repeat("0", 40)} {
		emit(false, "a@b:"+n)
		emit(false, "x <a@b :"+n+">")
		emit(false, "a@"+n)
		emit(false, n+"@b")
		emit(false, "a@["+n+"]")
	}
	return first
}

// Short lists all strings over the structural characters up to length n.
func Short(n int, emit func(date bool, in string)) {
	al := []string{"a", "1", "@", ".", ",", ";", ":", "<", ">", "(", ")", "\"", "\\", " ", "\r\n", "[", "]", "=", "?", "é"}
	var f func(s string, n int)
	f = func(s string, n int) {
		emit(false, s)
		if n == 0 {
			return
		}
		for _, a := range al {
			f(s+a, n-1)
		}
	}
	f("", n)
}
