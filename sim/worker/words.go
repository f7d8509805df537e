package main

import (
	"fmt"
	"strings"

	"github.com/aureleoules/btc"
	"verif.local/sim/ref"
)

// Word lists by number: 0-8 the package's, 9- the harness's own.
const (
	wlReversed = 9
	wlSynth    = 10
	wlLarge    = 11 // more than 2048 words
	wlShort    = 12 // 2047 words
	wlOne      = 13
	wlEmpty    = 14
	wlNil      = 15
)

var lists [16]btc.Wordlist
var saved [16][]string // copies, taken before any call
var words [16][]string // what the lists have to be: 0-8 the official BIP-39 lists

// beyond are the words behind the end of the caller's own lists.
const beyond = "beyond"

// permList sets the order of the words in the caller's own list.
func permList(seed uint64) {
	l := lists[wlSynth]
	for i := range l {
		l[i] = synWords[i]
	}
	if seed != 0 {
		r := newRng(seed)
		for i := len(l) - 1; i > 0; i-- {
			j := r.n(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	copy(saved[wlSynth], l)
	ref.Forget(saved[wlSynth])
}

var synWords []string

var badList = -1 // first package list that is not the official one

func initLists() {
	lists = [16]btc.Wordlist{
		btc.EnglishWordlist, btc.FrenchWordlist, btc.JapaneseWordlist, btc.ItalianWordlist,
		btc.SpanishWordlist, btc.KoreanWordlist, btc.CzechWordlist,
		btc.ChineseTraditionalWordlist, btc.ChineseSimplifiedWordlist,
	}
	syn := func(n int, f string) btc.Wordlist {
		// the caller's list is part of a larger one
		big := make(btc.Wordlist, n+8)
		for i := n; i < n+8; i++ {
			big[i] = beyond
		}
		l := big[:n]
		for i := range l {
			l[i] = fmt.Sprintf(f, i)
		}
		return l
	}
	rev := make(btc.Wordlist, 2048)
	for i := range rev {
		rev[i] = ref.Lists[0][2047-i]
	}
	lists[wlReversed] = rev
	lists[wlSynth] = syn(2048, "w%d")
	lists[wlLarge] = syn(3000, "large%d")
	lists[wlShort] = syn(2047, "short%d")
	lists[wlOne] = btc.Wordlist{"abandon"}
	lists[wlEmpty] = btc.Wordlist{}
	for i := range lists {
		saved[i] = append([]string(nil), lists[i]...)
		words[i] = saved[i]
	}
	for i := range ref.Lists {
		words[i] = ref.Lists[i]
		if badList < 0 && strings.Join(saved[i], " ") != strings.Join(words[i], " ") {
			badList = i
		}
	}
	synWords = append([]string(nil), lists[wlSynth]...)
}

// listsChanged says which list was modified.
func listsChanged() string {
	cur := [9]btc.Wordlist{
		btc.EnglishWordlist, btc.FrenchWordlist, btc.JapaneseWordlist, btc.ItalianWordlist,
		btc.SpanishWordlist, btc.KoreanWordlist, btc.CzechWordlist,
		btc.ChineseTraditionalWordlist, btc.ChineseSimplifiedWordlist,
	}
	for i := range lists {
		l := lists[i]
		if i < 9 {
			l = cur[i]
		}
		if len(l) != len(saved[i]) {
			return fmt.Sprintf("word list %d has %d words", i, len(l))
		}
		for j, w := range l {
			if w != saved[i][j] {
				return fmt.Sprintf("word %d of list %d changed from %q to %q", j, i, saved[i][j], w)
			}
		}
		if i == wlSynth || i == wlShort || i == wlLarge {
			for j, w := range l[len(l) : len(l)+8] {
				if w != beyond {
					return fmt.Sprintf("word %d behind the end of list %d changed to %q", j, i, w)
				}
			}
		}
	}
	return ""
}
