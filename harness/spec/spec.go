// Package spec is the reference meaning of the editing operations.
package spec

import "verif/harness/vrt"

func IsWord(r rune) bool {
	return vrt.Or(vrt.And(r >= 'a', r <= 'z'), vrt.Or(vrt.And(r >= 'A', r <= 'Z'), vrt.And(r >= '0', r <= '9')))
}

func Cp(r []rune) []rune { return append([]rune{}, r...) }

func Cat(a ...[]rune) []rune {
	out := []rune{}
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

// Same compares slices without splitting paths per element.
func Same(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vrt.And(ok, a[i] == b[i])
	}
	return ok
}

// SymLine is an arbitrary line of n runes.
func SymLine(name string, n int) []rune {
	l := make([]rune, n)
	for i := range l {
		l[i] = vrt.Rune(name, 1, 0x10FFFF)
	}
	return l
}

// Names lists the buffer operations.
var Names = []string{
	"MoveToLineStart", "MoveToLineEnd", "MoveBackward", "MoveForward", "WriteRune", "WriteRunes", "Backspace", "Delete",
	"Kill", "KillFront", "Erase", "Transpose", "MoveToPrevWord", "MoveToNextWord", "BackEscapeWord", "DeleteWord",
	"MoveToEndWord", "MoveTo", "Replace", "WriteString",
}

const N = 20

// Apply is the documented effect of op k on (line, idx); kill is what the operation cuts (nil: no cut).
func Apply(k int, l []rune, i int, x rune, prev, rev bool) (nl []rune, ni int, kill []rune, ok bool) {
	n := len(l)
	nl, ni, ok = Cp(l), i, true
	w := func(j int) bool { return IsWord(l[j]) }
	start := func(j int) bool { // a word starts at j
		return j > 0 && j < n && w(j) && !w(j-1)
	}
	switch k {
	case 0:
		ni = 0
	case 1:
		ni = n
	case 2:
		if i > 0 {
			ni = i - 1
		}
	case 3:
		if i < n {
			ni = i + 1
		}
	case 4:
		nl, ni = Cat(l[:i], []rune{x}, l[i:]), i+1
	case 5, 19:
		nl, ni = Cat(l[:i], []rune{x, 'q', 'z'}, l[i:]), i+3
	case 6:
		if i > 0 {
			nl, ni = Cat(l[:i-1], l[i:]), i-1
		}
	case 7:
		ok = i < n
		if i < n {
			nl, kill = Cat(l[:i], l[i+1:]), Cp(l[i:i+1])
		}
	case 8:
		nl, kill = Cp(l[:i]), Cp(l[i:])
	case 9:
		if i > 0 {
			nl, ni, kill = Cp(l[i:]), 0, Cp(l[:i])
		}
	case 10:
		nl, ni, kill = nil, 0, Cp(l)
	case 11:
		switch {
		case n == 0:
		case n == 1:
			ni = 1
		case i == 0:
			nl[0], nl[1] = l[1], l[0]
			ni = 2
		case i == n:
			nl[n-1], nl[n-2] = l[n-2], l[n-1]
		default:
			nl[i], nl[i-1] = l[i-1], l[i]
			ni = i + 1
		}
	case 12:
		ok = i > 0
		j := i - 1
		for j > 0 && !start(j) {
			j--
		}
		if j < 0 {
			j = 0
		}
		ni = j
	case 13:
		j := i + 1
		for j < n && !start(j) {
			j++
		}
		if j > n {
			j = n
		}
		ni = j
	case 14:
		if i > 0 {
			j := i - 1
			for j > 0 && !start(j) {
				j--
			}
			nl, ni, kill = Cat(l[:j], l[i:]), j, Cp(l[j:i])
		}
	case 15:
		// through the end of the next word; of the separators after it only the last one is kept
		if i < n {
			j := i
			for j < n && !w(j) {
				j++
			}
			j++
			for j < n && !start(j) {
				j++
			}
			if j < n {
				nl, kill = Cat(l[:i], l[j-1:]), Cp(l[i:j-1])
			} else {
				nl, kill = Cp(l[:i]), Cp(l[i:])
			}
		}
	case 16:
		if i < n {
			j := i
			if j+1 < n && w(j) && !w(j+1) { // already on the last character of a word
				j++
			}
			e := j + 1
			for e < n && !(!w(e) && w(e-1)) {
				e++
			}
			if e < n {
				ni = e - 1
			} else {
				ni = n
			}
		}
	case 17:
		ok = false
		if rev {
			for j := i - 1; j >= 0; j-- {
				if l[j] == x {
					ni, ok = j, true
					if prev {
						ni++
					}
					return
				}
			}
			return
		}
		for j := i + 1; j < n; j++ {
			if l[j] == x {
				ni, ok = j, true
				if prev {
					ni--
				}
				return
			}
		}
	case 18:
		if i < n {
			nl[i] = x
		}
	}
	return
}
