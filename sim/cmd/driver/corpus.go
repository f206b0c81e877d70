package main

import (
	_ "embed"
	"regexp"
	"strings"
)

//go:embed corpus.txt
var corpusText string

// A fragment is a piece of a session: one or more lines.
type fragment struct {
	file string
	text string
	pure bool // defines and assigns nothing
}

var fragments, pureFragments = loadCorpus()

var impureRE = regexp.MustCompile(`(?m)^\s*(op|opdelete)\b|:=|\bivy\b`)

func loadCorpus() (all, pure []fragment) {
	for _, b := range strings.Split("\n"+corpusText, "\n%% ")[1:] {
		name, text, _ := strings.Cut(b, "\n")
		f := fragment{file: name, text: text}
		f.pure = !impureRE.MatchString(text) && len(assigned(text)) == 0
		if slowRE.MatchString(text) {
			continue
		}
		all = append(all, f)
		if f.pure {
			pure = append(pure, f)
		}
	}
	return all, pure
}

// Fragments that take long in the simulator, and those that shadow too much.
var slowRE = regexp.MustCompile(`1e[3-9]|\*\*\s*\d{4}|<<\s*\d{5}|!\s*\d{3,}|iota \d{4}|iota 1e|hanoi|\backer|\bfib|primes|sieve|queens|life`)

// corpus picks n fragments in sequence or at random.
func corpus(r *RNG, from []fragment, n int) []string {
	var out []string
	if r.p(1, 2) {
		i := r.n(len(from))
		for k := 0; k < n && i+k < len(from); k++ {
			out = append(out, from[i+k].text)
		}
		return out
	}
	for k := 0; k < n; k++ {
		out = append(out, from[r.n(len(from))].text)
	}
	return out
}

var (
	stringRE = regexp.MustCompile("\"(\\\\.|[^\"\\\\])*\"|'(\\\\.|[^'\\\\])*'|`[^`]*`|#.*")
	identRE  = regexp.MustCompile(`[\pL_][\pL\pN_]*`)
)

// assigned returns names that might be assigned to in the text: all those
// between the start of a statement and an equals sign.
func assigned(text string) map[string]bool {
	text = stringRE.ReplaceAllString(text, " ")
	names := map[string]bool{}
	start, depth := 0, 0
	for i := 0; i < len(text); i++ {
		switch text[i] {
		case '[':
			depth++
		case ']':
			depth--
		case ';':
			if depth <= 0 {
				start = i + 1
			}
		case '\n', ':':
			start, depth = i+1, 0
		case '=':
			if i+1 < len(text) && text[i+1] == '=' {
				for i+1 < len(text) && text[i+1] == '=' {
					i++
				}
				continue
			}
			if i > 0 && strings.IndexByte("<>!=", text[i-1]) >= 0 {
				continue
			}
			for _, n := range identRE.FindAllString(text[start:i], -1) {
				names[n] = true
			}
		}
	}
	return names
}
