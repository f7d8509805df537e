package main

import (
	"strings"
	"unicode"
)

// Letters of the word lists as one code point and in parts.
var composed = func() [][2]string {
	l := [][2]string{
		{"á", "a\u0301"}, {"é", "e\u0301"}, {"í", "i\u0301"}, {"ó", "o\u0301"}, {"ú", "u\u0301"}, {"ý", "y\u0301"},
		{"à", "a\u0300"}, {"è", "e\u0300"}, {"ì", "i\u0300"}, {"ò", "o\u0300"}, {"ù", "u\u0300"},
		{"â", "a\u0302"}, {"ê", "e\u0302"}, {"î", "i\u0302"}, {"ô", "o\u0302"}, {"û", "u\u0302"},
		{"ä", "a\u0308"}, {"ë", "e\u0308"}, {"ï", "i\u0308"}, {"ö", "o\u0308"}, {"ü", "u\u0308"},
		{"ñ", "n\u0303"}, {"ã", "a\u0303"}, {"õ", "o\u0303"}, {"ç", "c\u0327"},
		{"č", "c\u030c"}, {"ď", "d\u030c"}, {"ě", "e\u030c"}, {"ň", "n\u030c"}, {"ř", "r\u030c"}, {"š", "s\u030c"}, {"ť", "t\u030c"}, {"ž", "z\u030c"}, {"ů", "u\u030a"},
	}
	for _, c := range "かきくけこさしすせそたちつてとはひふへほ" {
		l = append(l, [2]string{string(c + 1), string(c) + "\u3099"})
	}
	for _, c := range "はひふへほ" {
		l = append(l, [2]string{string(c + 2), string(c) + "\u309a"})
	}
	return l
}()

func decompose(s string) string {
	for _, p := range composed {
		s = strings.ReplaceAll(s, p[0], p[1])
	}
	var b strings.Builder
	for _, c := range s {
		if c >= 0xac00 && c < 0xac00+11172 { // Hangul
			i := c - 0xac00
			b.WriteRune(0x1100 + i/588)
			b.WriteRune(0x1161 + i%588/28)
			if t := i % 28; t != 0 {
				b.WriteRune(0x11a7 + t)
			}
			continue
		}
		b.WriteRune(c)
	}
	return b.String()
}

func compose(s string) string {
	for _, p := range composed {
		s = strings.ReplaceAll(s, p[1], p[0])
	}
	in := []rune(s)
	var out []rune
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c >= 0x1100 && c < 0x1113 && i+1 < len(in) && in[i+1] >= 0x1161 && in[i+1] < 0x1176 {
			x := 0xac00 + (c-0x1100)*588 + (in[i+1]-0x1161)*28
			i++
			if i+1 < len(in) && in[i+1] > 0x11a7 && in[i+1] < 0x11c3 {
				x += in[i+1] - 0x11a7
				i++
			}
			out = append(out, x)
			continue
		}
		out = append(out, c)
	}
	return string(out)
}

// bare is the text without its accents.
func bare(s string) string {
	return strings.Map(func(c rune) rune {
		if unicode.Is(unicode.Mn, c) {
			return -1
		}
		return c
	}, decompose(s))
}

func otherForm(s string, how int) string {
	switch how {
	case 0, 1:
		if d := decompose(s); d != s {
			return d
		}
		return compose(s)
	case 2:
		if c := compose(s); c != s {
			return c
		}
		return decompose(s)
	case 3:
		return bare(s)
	}
	return strings.ToUpper(s)
}
