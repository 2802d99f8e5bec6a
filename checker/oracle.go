package main

import (
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// TeX classes of the symbols of mathematics, from the TeXbook (appendix B and
// F), LaTeX and AMS: kept here independently of the library.

var texBinary = words(`+ - *
\pm \mp \times \div \ast \star \circ \bullet \cdot \cap \cup \uplus \sqcap \sqcup \vee \wedge \setminus \wr
\diamond \bigtriangleup \bigtriangledown \triangleleft \triangleright \lhd \rhd \unlhd \unrhd
\oplus \ominus \otimes \oslash \odot \bigcirc \dagger \ddagger \amalg`)

var texRelation = words(`= < > :
\leq \prec \preceq \ll \subset \subseteq \sqsubset \sqsubseteq \in \vdash \geq \succ \succeq \gg \supset \supseteq
\sqsupset \sqsupseteq \ni \dashv \equiv \sim \simeq \asymp \approx \cong \neq \doteq \doteqdot \models \perp \mid
\parallel \bowtie \Join \smile \frown \propto`)

var texArrow = words(`\leftarrow \longleftarrow \uparrow \Leftarrow \Longleftarrow \Uparrow \rightarrow \longrightarrow
\downarrow \Rightarrow \Longrightarrow \Downarrow \leftrightarrow \longleftrightarrow \updownarrow \Leftrightarrow
\Longleftrightarrow \Updownarrow \mapsto \longmapsto \nearrow \hookleftarrow \hookrightarrow \searrow \leftharpoonup
\rightharpoonup \swarrow \leftharpoondown \rightharpoondown \nwarrow \rightleftharpoons \leadsto`)

// classed with spaces on both sides, though not binary operators, relations
// or arrows in every TeX format.
var texLoose = words(`\dots \dotplus`)

var texFunction = words(`\arccos \arcsin \arctan \arg \cos \cosh \cot \coth \csc \deg \det \dim \exp \gcd \hom \inf \ker \lg
\lim \liminf \limsup \ln \log \max \min \Pr \sec \sin \sinh \sup \tan \tanh`)

var texSpace = words(`\, \thinspace \/ \> \: \; ~ \enspace \quad \qquad \!`)

var texPunct = words(`! ; , \cdotp \ldotp`)

var texConstruct = words(`\frac \dfrac \tfrac \binom \genfrac \sqrt \overline \hspace`)

var texFont = words(`\rm \cal \it \tt \sf \bf \default \bb \frak \scr \regular`)

// constructs with one argument, with two
var texArg = words(`\exp \mathbf \mathit \mathsf \mathtt \mathcal \mathdefault \mathbb \mathfrak \mathscr \mathregular
\textbf \textit \textsf \texttt \textcal \textdefault \textbb \textfrak \textscr \textregular \hspace \overline \operatorname`)

var texArg2 = words(`\binom \dfrac \frac \stackrel \tfrac`)

func words(s string) (out []string) {
	w := ""
	for _, c := range s + " " {
		if c == ' ' || c == '\n' {
			if w != "" {
				out = append(out, w)
			}
			w = ""
			continue
		}
		w += string(c)
	}
	return out
}

func without(l []string, ms ...[]string) (out []string) {
	m := map[string]bool{}
	for _, x := range ms {
		for _, y := range x {
			m[y] = true
		}
	}
	for _, x := range l {
		if !m[x] {
			out = append(out, x)
		}
	}
	return out
}

// constants a parameter of a reference model runs over.
func oracleTable(name string) []string {
	switch name {
	case "binary":
		return texBinary
	case "relation":
		return append(append([]string{}, texRelation...), texArrow...)
	case "function":
		return texFunction
	case "space":
		return append(append([]string{}, texSpace...), `\ `)
	case "plain":
		var l []string
		for n := range texUnicode {
			l = append(l, `\`+n)
		}
		l = append(l, words(`\omicron \Alpha \Beta \Epsilon \Zeta \Eta \Iota \Kappa \Mu \Nu \Omicron \Rho \Tau \Chi \{ \} ( )
\bigsqcup \rm \bf \it`)...)
		sort.Strings(l)
		return without(l, texBinary, texRelation, texArrow, texLoose, texFunction, texSpace, texPunct, texConstruct, []string{"."})
	case "macro": // names without arguments
		var l []string
		for n := range texUnicode {
			l = append(l, `\`+n)
		}
		for _, t := range [][]string{texBinary, texRelation, texArrow, texLoose, texFunction, texSpace, texPunct, texFont} {
			for _, n := range t {
				if n[0] == '\\' {
					l = append(l, n)
				}
			}
		}
		sort.Strings(l)
		var r []string
		for i, n := range without(l, texArg, texArg2, words(`\sqrt \genfrac \/ \> \enspace \thinspace`)) {
			if i == 0 || n != r[len(r)-1] {
				r = append(r, n)
			}
		}
		return r
	case "kinds": // of nodes
		return words("0 1 2 3 4 5 6 7 8 9 10")
	case "macroA":
		return texArg
	case "macroAA":
		return texArg2
	case "unicode":
		var l []string
		for n := range texUnicode {
			l = append(l, n)
		}
		sort.Strings(l)
		return l
	case "unknown":
		l := []string{"notasymbol", `\notasymbol`, "", `\\alpha`, "alphabeta", `\alphax`, "αβ", "a b", "--"}
		// what is like a name, but is none
		var known []string
		for n := range texUnicode {
			known = append(known, n)
		}
		sort.Strings(known)
		seen := map[string]bool{}
		for _, n := range known {
			vs := []string{strings.ToLower(n), strings.ToUpper(n), n[1:], n[:len(n)-1], n + n[len(n)-1:], n + " ", n + "*", n + "1"}
			if unicode.IsUpper(rune(n[0])) {
				vs = append(vs, strings.ToLower(n[:1])+n[1:])
			} else {
				vs = append(vs, strings.ToUpper(n[:1])+n[1:])
			}
			for _, v := range vs {
				if _, ok := texUnicode[v]; ok || seen[v] || utf8.RuneCountInString(v) < 2 || v[0] == '\\' {
					continue
				}
				seen[v] = true
				l = append(l, v)
				if len(l)%2 == 0 { // half of them with a backslash
					l[len(l)-1] = `\` + v
				}
			}
		}
		return l
	case "unhandled":
		return words(`\notasymbol \alphax \fracx \x \\ \begin \left \mathhh € ß @ 1`)
	}
	panic(undecided("no table " + name))
}
