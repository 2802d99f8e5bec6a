package main

// texUnicode is the Unicode character each TeX symbol name stands for, as
// given by the Unicode character names (in the comments) and the tables of
// unicode-math; kept here independently of the library.
var texUnicode = map[string]rune{
	"#":                        0x0023, // NUMBER SIGN
	"$":                        0x0024, // DOLLAR SIGN
	"%":                        0x0025, // PERCENT SIGN
	"(":                        0x0028, // LEFT PARENTHESIS
	")":                        0x0029, // RIGHT PARENTHESIS
	"AA":                       0x00c5, // LATIN CAPITAL LETTER A WITH RING ABOVE
	"AE":                       0x00c6, // LATIN CAPITAL LETTER AE
	"BbbC":                     0x2102, // DOUBLE-STRUCK CAPITAL C
	"BbbN":                     0x2115, // DOUBLE-STRUCK CAPITAL N
	"BbbP":                     0x2119, // DOUBLE-STRUCK CAPITAL P
	"BbbQ":                     0x211a, // DOUBLE-STRUCK CAPITAL Q
	"BbbR":                     0x211d, // DOUBLE-STRUCK CAPITAL R
	"BbbZ":                     0x2124, // DOUBLE-STRUCK CAPITAL Z
	"Bumpeq":                   0x224e, // GEOMETRICALLY EQUIVALENT TO
	"Cap":                      0x22d2, // DOUBLE INTERSECTION
	"Colon":                    0x2237, // PROPORTION
	"Cup":                      0x22d3, // DOUBLE UNION
	"Delta":                    0x0394, // GREEK CAPITAL LETTER DELTA
	"Doteq":                    0x2251, // GEOMETRICALLY EQUAL TO
	"Downarrow":                0x21d3, // DOWNWARDS DOUBLE ARROW
	"Equiv":                    0x2263, // STRICTLY EQUIVALENT TO
	"Finv":                     0x2132, // TURNED CAPITAL F
	"Game":                     0x2141, // TURNED SANS-SERIF CAPITAL G
	"Gamma":                    0x0393, // GREEK CAPITAL LETTER GAMMA
	"H":                        0x030b, // COMBINING DOUBLE ACUTE ACCENT
	"Im":                       0x2111, // BLACK-LETTER CAPITAL I
	"Join":                     0x2a1d, // JOIN
	"L":                        0x0141, // LATIN CAPITAL LETTER L WITH STROKE
	"Lambda":                   0x039b, // GREEK CAPITAL LETTER LAMDA
	"Ldsh":                     0x21b2, // DOWNWARDS ARROW WITH TIP LEFTWARDS
	"Leftarrow":                0x21d0, // LEFTWARDS DOUBLE ARROW
	"Leftrightarrow":           0x21d4, // LEFT RIGHT DOUBLE ARROW
	"Lleftarrow":               0x21da, // LEFTWARDS TRIPLE ARROW
	"Longleftarrow":            0x27f8, // LONG LEFTWARDS DOUBLE ARROW
	"Longleftrightarrow":       0x27fa, // LONG LEFT RIGHT DOUBLE ARROW
	"Longrightarrow":           0x27f9, // LONG RIGHTWARDS DOUBLE ARROW
	"Lsh":                      0x21b0, // UPWARDS ARROW WITH TIP LEFTWARDS
	"Nearrow":                  0x21d7, // NORTH EAST DOUBLE ARROW
	"Nwarrow":                  0x21d6, // NORTH WEST DOUBLE ARROW
	"O":                        0x00d8, // LATIN CAPITAL LETTER O WITH STROKE
	"OE":                       0x0152, // LATIN CAPITAL LIGATURE OE
	"Omega":                    0x03a9, // GREEK CAPITAL LETTER OMEGA
	"P":                        0x00b6, // PILCROW SIGN
	"Phi":                      0x03a6, // GREEK CAPITAL LETTER PHI
	"Pi":                       0x03a0, // GREEK CAPITAL LETTER PI
	"Psi":                      0x03a8, // GREEK CAPITAL LETTER PSI
	"Rdsh":                     0x21b3, // DOWNWARDS ARROW WITH TIP RIGHTWARDS
	"Re":                       0x211c, // BLACK-LETTER CAPITAL R
	"Rightarrow":               0x21d2, // RIGHTWARDS DOUBLE ARROW
	"Rrightarrow":              0x21db, // RIGHTWARDS TRIPLE ARROW
	"Rsh":                      0x21b1, // UPWARDS ARROW WITH TIP RIGHTWARDS
	"S":                        0x00a7, // SECTION SIGN
	"Searrow":                  0x21d8, // SOUTH EAST DOUBLE ARROW
	"Sigma":                    0x03a3, // GREEK CAPITAL LETTER SIGMA
	"Subset":                   0x22d0, // DOUBLE SUBSET
	"Supset":                   0x22d1, // DOUBLE SUPERSET
	"Swarrow":                  0x21d9, // SOUTH WEST DOUBLE ARROW
	"Theta":                    0x0398, // GREEK CAPITAL LETTER THETA
	"Thorn":                    0x00de, // LATIN CAPITAL LETTER THORN
	"Uparrow":                  0x21d1, // UPWARDS DOUBLE ARROW
	"Updownarrow":              0x21d5, // UP DOWN DOUBLE ARROW
	"Upsilon":                  0x03a5, // GREEK CAPITAL LETTER UPSILON
	"Vdash":                    0x22a9, // FORCES
	"Vert":                     0x2016, // DOUBLE VERTICAL LINE
	"Vvdash":                   0x22aa, // TRIPLE VERTICAL BAR RIGHT TURNSTILE
	"Xi":                       0x039e, // GREEK CAPITAL LETTER XI
	"_":                        0x005f, // LOW LINE
	"__sqrt__":                 0x221a, // SQUARE ROOT
	"ac":                       0x223e, // INVERTED LAZY S
	"acute":                    0x0301, // COMBINING ACUTE ACCENT
	"acwopencirclearrow":       0x21ba, // ANTICLOCKWISE OPEN CIRCLE ARROW
	"adots":                    0x22f0, // UP RIGHT DIAGONAL ELLIPSIS
	"ae":                       0x00e6, // LATIN SMALL LETTER AE
	"aleph":                    0x2135, // ALEF SYMBOL
	"alpha":                    0x03b1, // GREEK SMALL LETTER ALPHA
	"angle":                    0x2220, // ANGLE
	"approx":                   0x2248, // ALMOST EQUAL TO
	"approxeq":                 0x224a, // ALMOST EQUAL OR EQUAL TO
	"approxident":              0x224b, // TRIPLE TILDE
	"arceq":                    0x2258, // CORRESPONDS TO
	"ast":                      0x2217, // ASTERISK OPERATOR
	"asterisk":                 0x002a, // ASTERISK
	"asymp":                    0x224d, // EQUIVALENT TO
	"backcong":                 0x224c, // ALL EQUAL TO
	"backepsilon":              0x03f6, // GREEK REVERSED LUNATE EPSILON SYMBOL
	"backprime":                0x2035, // REVERSED PRIME
	"backsim":                  0x223d, // REVERSED TILDE
	"backsimeq":                0x22cd, // REVERSED TILDE EQUALS
	"backslash":                0x005c, // REVERSE SOLIDUS
	"bar":                      0x0304, // COMBINING MACRON
	"barleftarrow":             0x21e4, // LEFTWARDS ARROW TO BAR
	"barwedge":                 0x22bc, // NAND
	"because":                  0x2235, // BECAUSE
	"beta":                     0x03b2, // GREEK SMALL LETTER BETA
	"beth":                     0x2136, // BET SYMBOL
	"between":                  0x226c, // BETWEEN
	"bigcap":                   0x22c2, // N-ARY INTERSECTION
	"bigcirc":                  0x25cb, // WHITE CIRCLE
	"bigcup":                   0x22c3, // N-ARY UNION
	"bigodot":                  0x2a00, // N-ARY CIRCLED DOT OPERATOR
	"bigoplus":                 0x2a01, // N-ARY CIRCLED PLUS OPERATOR
	"bigotimes":                0x2a02, // N-ARY CIRCLED TIMES OPERATOR
	"bigstar":                  0x2605, // BLACK STAR
	"bigtriangledown":          0x25bd, // WHITE DOWN-POINTING TRIANGLE
	"bigtriangleup":            0x25b3, // WHITE UP-POINTING TRIANGLE
	"biguplus":                 0x2a04, // N-ARY UNION OPERATOR WITH PLUS
	"bigvee":                   0x22c1, // N-ARY LOGICAL OR
	"bigwedge":                 0x22c0, // N-ARY LOGICAL AND
	"blacksquare":              0x25a0, // BLACK SQUARE
	"blacktriangle":            0x25b4, // BLACK UP-POINTING SMALL TRIANGLE
	"blacktriangledown":        0x25be, // BLACK DOWN-POINTING SMALL TRIANGLE
	"blacktriangleleft":        0x25c0, // BLACK LEFT-POINTING TRIANGLE
	"blacktriangleright":       0x25b6, // BLACK RIGHT-POINTING TRIANGLE
	"bot":                      0x22a5, // UP TACK
	"bowtie":                   0x22c8, // BOWTIE
	"boxbar":                   0x25eb, // WHITE SQUARE WITH VERTICAL BISECTING LINE
	"boxdot":                   0x22a1, // SQUARED DOT OPERATOR
	"boxminus":                 0x229f, // SQUARED MINUS
	"boxplus":                  0x229e, // SQUARED PLUS
	"boxtimes":                 0x22a0, // SQUARED TIMES
	"breve":                    0x0306, // COMBINING BREVE
	"bullet":                   0x2219, // BULLET OPERATOR
	"bumpeq":                   0x224f, // DIFFERENCE BETWEEN
	"c":                        0x0327, // COMBINING CEDILLA
	"candra":                   0x0310, // COMBINING CANDRABINDU
	"cap":                      0x2229, // INTERSECTION
	"carriagereturn":           0x21b5, // DOWNWARDS ARROW WITH CORNER LEFTWARDS
	"cdot":                     0x22c5, // DOT OPERATOR
	"cdotp":                    0x00b7, // MIDDLE DOT
	"cdots":                    0x22ef, // MIDLINE HORIZONTAL ELLIPSIS
	"cent":                     0x00a2, // CENT SIGN
	"check":                    0x030c, // COMBINING CARON
	"checkmark":                0x2713, // CHECK MARK
	"chi":                      0x03c7, // GREEK SMALL LETTER CHI
	"circ":                     0x2218, // RING OPERATOR
	"circeq":                   0x2257, // RING EQUAL TO
	"circlearrowleft":          0x21ba, // ANTICLOCKWISE OPEN CIRCLE ARROW
	"circlearrowright":         0x21bb, // CLOCKWISE OPEN CIRCLE ARROW
	"circledR":                 0x00ae, // REGISTERED SIGN
	"circledS":                 0x24c8, // CIRCLED LATIN CAPITAL LETTER S
	"circledast":               0x229b, // CIRCLED ASTERISK OPERATOR
	"circledcirc":              0x229a, // CIRCLED RING OPERATOR
	"circleddash":              0x229d, // CIRCLED DASH
	"circumflexaccent":         0x0302, // COMBINING CIRCUMFLEX ACCENT
	"clubsuit":                 0x2663, // BLACK CLUB SUIT
	"clubsuitopen":             0x2667, // WHITE CLUB SUIT
	"colon":                    0x003a, // COLON
	"coloneq":                  0x2254, // COLON EQUALS
	"combiningacuteaccent":     0x0301, // COMBINING ACUTE ACCENT
	"combiningbreve":           0x0306, // COMBINING BREVE
	"combiningdiaeresis":       0x0308, // COMBINING DIAERESIS
	"combiningdotabove":        0x0307, // COMBINING DOT ABOVE
	"combininggraveaccent":     0x0300, // COMBINING GRAVE ACCENT
	"combiningoverline":        0x0304, // COMBINING MACRON
	"combiningrightarrowabove": 0x20d7, // COMBINING RIGHT ARROW ABOVE
	"combiningtilde":           0x0303, // COMBINING TILDE
	"complement":               0x2201, // COMPLEMENT
	"cong":                     0x2245, // APPROXIMATELY EQUAL TO
	"coprod":                   0x2210, // N-ARY COPRODUCT
	"copyright":                0x00a9, // COPYRIGHT SIGN
	"cup":                      0x222a, // UNION
	"cupdot":                   0x228d, // MULTISET MULTIPLICATION
	"curlyeqprec":              0x22de, // EQUAL TO OR PRECEDES
	"curlyeqsucc":              0x22df, // EQUAL TO OR SUCCEEDS
	"curlyvee":                 0x22ce, // CURLY LOGICAL OR
	"curlywedge":               0x22cf, // CURLY LOGICAL AND
	"curvearrowleft":           0x21b6, // ANTICLOCKWISE TOP SEMICIRCLE ARROW
	"curvearrowright":          0x21b7, // CLOCKWISE TOP SEMICIRCLE ARROW
	"cwopencirclearrow":        0x21bb, // CLOCKWISE OPEN CIRCLE ARROW
	"d":                        0x0323, // COMBINING DOT BELOW
	"dag":                      0x2020, // DAGGER
	"dagger":                   0x2020, // DAGGER
	"daleth":                   0x2138, // DALET SYMBOL
	"danger":                   0x2621, // CAUTION SIGN
	"dashleftarrow":            0x290e, // LEFTWARDS TRIPLE DASH ARROW
	"dashrightarrow":           0x290f, // RIGHTWARDS TRIPLE DASH ARROW
	"dashv":                    0x22a3, // LEFT TACK
	"ddag":                     0x2021, // DOUBLE DAGGER
	"ddddot":                   0x20dc, // COMBINING FOUR DOTS ABOVE
	"dddot":                    0x20db, // COMBINING THREE DOTS ABOVE
	"ddot":                     0x0308, // COMBINING DIAERESIS
	"ddots":                    0x22f1, // DOWN RIGHT DIAGONAL ELLIPSIS
	"degree":                   0x00b0, // DEGREE SIGN
	"delta":                    0x03b4, // GREEK SMALL LETTER DELTA
	"diamond":                  0x22c4, // DIAMOND OPERATOR
	"diamondsuit":              0x2662, // WHITE DIAMOND SUIT
	"digamma":                  0x03dd, // GREEK SMALL LETTER DIGAMMA
	"div":                      0x00f7, // DIVISION SIGN
	"divideontimes":            0x22c7, // DIVISION TIMES
	"dot":                      0x0307, // COMBINING DOT ABOVE
	"doteq":                    0x2250, // APPROACHES THE LIMIT
	"doteqdot":                 0x2251, // GEOMETRICALLY EQUAL TO
	"dotminus":                 0x2238, // DOT MINUS
	"dotplus":                  0x2214, // DOT PLUS
	"dots":                     0x2026, // HORIZONTAL ELLIPSIS
	"doublebarwedge":           0x2306, // PERSPECTIVE
	"downarrow":                0x2193, // DOWNWARDS ARROW
	"downdownarrows":           0x21ca, // DOWNWARDS PAIRED ARROWS
	"downharpoonleft":          0x21c3, // DOWNWARDS HARPOON WITH BARB LEFTWARDS
	"downharpoonright":         0x21c2, // DOWNWARDS HARPOON WITH BARB RIGHTWARDS
	"downzigzagarrow":          0x21af, // DOWNWARDS ZIGZAG ARROW
	"ell":                      0x2113, // SCRIPT SMALL L
	"emdash":                   0x2014, // EM DASH
	"emptyset":                 0x2205, // EMPTY SET
	"endash":                   0x2013, // EN DASH
	"epsilon":                  0x03b5, // GREEK SMALL LETTER EPSILON
	"eqcirc":                   0x2256, // RING IN EQUAL TO
	"eqcolon":                  0x2255, // EQUALS COLON
	"eqdef":                    0x225d, // EQUAL TO BY DEFINITION
	"eqgtr":                    0x22dd, // EQUAL TO OR GREATER-THAN
	"eqless":                   0x22dc, // EQUAL TO OR LESS-THAN
	"eqsim":                    0x2242, // MINUS TILDE
	"eqslantgtr":               0x2a96, // SLANTED EQUAL TO OR GREATER-THAN
	"eqslantless":              0x2a95, // SLANTED EQUAL TO OR LESS-THAN
	"equal":                    0x003d, // EQUALS SIGN
	"equiv":                    0x2261, // IDENTICAL TO
	"eta":                      0x03b7, // GREEK SMALL LETTER ETA
	"eth":                      0x00f0, // LATIN SMALL LETTER ETH
	"exists":                   0x2203, // THERE EXISTS
	"fallingdotseq":            0x2252, // APPROXIMATELY EQUAL TO OR THE IMAGE OF
	"flat":                     0x266d, // MUSIC FLAT SIGN
	"forall":                   0x2200, // FOR ALL
	"frakC":                    0x212d, // BLACK-LETTER CAPITAL C
	"frakZ":                    0x2128, // BLACK-LETTER CAPITAL Z
	"frown":                    0x2322, // FROWN
	"gamma":                    0x03b3, // GREEK SMALL LETTER GAMMA
	"geq":                      0x2265, // GREATER-THAN OR EQUAL TO
	"geqq":                     0x2267, // GREATER-THAN OVER EQUAL TO
	"geqslant":                 0x2a7e, // GREATER-THAN OR SLANTED EQUAL TO
	"gg":                       0x226b, // MUCH GREATER-THAN
	"ggg":                      0x22d9, // VERY MUCH GREATER-THAN
	"gimel":                    0x2137, // GIMEL SYMBOL
	"gnapprox":                 0x2a8a, // GREATER-THAN AND NOT APPROXIMATE
	"gneqq":                    0x2269, // GREATER-THAN BUT NOT EQUAL TO
	"gnsim":                    0x22e7, // GREATER-THAN BUT NOT EQUIVALENT TO
	"grave":                    0x0300, // COMBINING GRAVE ACCENT
	"greater":                  0x003e, // GREATER-THAN SIGN
	"gtrapprox":                0x2a86, // GREATER-THAN OR APPROXIMATE
	"gtrdot":                   0x22d7, // GREATER-THAN WITH DOT
	"gtreqless":                0x22db, // GREATER-THAN EQUAL TO OR LESS-THAN
	"gtreqqless":               0x2a8c, // GREATER-THAN ABOVE DOUBLE-LINE EQUAL ABOVE LESS-THAN
	"gtrless":                  0x2277, // GREATER-THAN OR LESS-THAN
	"gtrsim":                   0x2273, // GREATER-THAN OR EQUIVALENT TO
	"guillemotleft":            0x00ab, // LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
	"guillemotright":           0x00bb, // RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
	"guilsinglleft":            0x2039, // SINGLE LEFT-POINTING ANGLE QUOTATION MARK
	"guilsinglright":           0x203a, // SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
	"hat":                      0x0302, // COMBINING CIRCUMFLEX ACCENT
	"hbar":                     0x0127, // LATIN SMALL LETTER H WITH STROKE
	"heartsuit":                0x2661, // WHITE HEART SUIT
	"hookleftarrow":            0x21a9, // LEFTWARDS ARROW WITH HOOK
	"hookrightarrow":           0x21aa, // RIGHTWARDS ARROW WITH HOOK
	"hslash":                   0x210f, // PLANCK CONSTANT OVER TWO PI
	"i":                        0x0131, // LATIN SMALL LETTER DOTLESS I
	"iiint":                    0x222d, // TRIPLE INTEGRAL
	"iint":                     0x222c, // DOUBLE INTEGRAL
	"imageof":                  0x22b7, // IMAGE OF
	"imath":                    0x0131, // LATIN SMALL LETTER DOTLESS I
	"in":                       0x2208, // ELEMENT OF
	"infty":                    0x221e, // INFINITY
	"int":                      0x222b, // INTEGRAL
	"intercal":                 0x22ba, // INTERCALATE
	"invnot":                   0x2310, // REVERSED NOT SIGN
	"iota":                     0x03b9, // GREEK SMALL LETTER IOTA
	"jmath":                    0x0237, // LATIN SMALL LETTER DOTLESS J
	"k":                        0x0328, // COMBINING OGONEK
	"kappa":                    0x03ba, // GREEK SMALL LETTER KAPPA
	"kernelcontraction":        0x223b, // HOMOTHETIC
	"l":                        0x0142, // LATIN SMALL LETTER L WITH STROKE
	"lambda":                   0x03bb, // GREEK SMALL LETTER LAMDA
	"lambdabar":                0x019b, // LATIN SMALL LETTER LAMBDA WITH STROKE
	"langle":                   0x27e8, // MATHEMATICAL LEFT ANGLE BRACKET
	"lasp":                     0x02bd, // MODIFIER LETTER REVERSED COMMA
	"lbrace":                   0x007b, // LEFT CURLY BRACKET
	"lbrack":                   0x005b, // LEFT SQUARE BRACKET
	"lceil":                    0x2308, // LEFT CEILING
	"ldots":                    0x2026, // HORIZONTAL ELLIPSIS
	"leadsto":                  0x21dd, // RIGHTWARDS SQUIGGLE ARROW
	"leftangle":                0x27e8, // MATHEMATICAL LEFT ANGLE BRACKET
	"leftarrow":                0x2190, // LEFTWARDS ARROW
	"leftarrowtail":            0x21a2, // LEFTWARDS ARROW WITH TAIL
	"leftbrace":                0x007b, // LEFT CURLY BRACKET
	"leftharpoonaccent":        0x20d0, // COMBINING LEFT HARPOON ABOVE
	"leftharpoondown":          0x21bd, // LEFTWARDS HARPOON WITH BARB DOWNWARDS
	"leftharpoonup":            0x21bc, // LEFTWARDS HARPOON WITH BARB UPWARDS
	"leftleftarrows":           0x21c7, // LEFTWARDS PAIRED ARROWS
	"leftparen":                0x0028, // LEFT PARENTHESIS
	"leftrightarrow":           0x2194, // LEFT RIGHT ARROW
	"leftrightarrows":          0x21c6, // LEFTWARDS ARROW OVER RIGHTWARDS ARROW
	"leftrightharpoons":        0x21cb, // LEFTWARDS HARPOON OVER RIGHTWARDS HARPOON
	"leftrightsquigarrow":      0x21ad, // LEFT RIGHT WAVE ARROW
	"leftsquigarrow":           0x219c, // LEFTWARDS WAVE ARROW
	"leftthreetimes":           0x22cb, // LEFT SEMIDIRECT PRODUCT
	"leq":                      0x2264, // LESS-THAN OR EQUAL TO
	"leqq":                     0x2266, // LESS-THAN OVER EQUAL TO
	"leqslant":                 0x2a7d, // LESS-THAN OR SLANTED EQUAL TO
	"less":                     0x003c, // LESS-THAN SIGN
	"lessapprox":               0x2a85, // LESS-THAN OR APPROXIMATE
	"lessdot":                  0x22d6, // LESS-THAN WITH DOT
	"lesseqgtr":                0x22da, // LESS-THAN EQUAL TO OR GREATER-THAN
	"lesseqqgtr":               0x2a8b, // LESS-THAN ABOVE DOUBLE-LINE EQUAL ABOVE GREATER-THAN
	"lessgtr":                  0x2276, // LESS-THAN OR GREATER-THAN
	"lesssim":                  0x2272, // LESS-THAN OR EQUIVALENT TO
	"lfloor":                   0x230a, // LEFT FLOOR
	"ll":                       0x226a, // MUCH LESS-THAN
	"llcorner":                 0x231e, // BOTTOM LEFT CORNER
	"lll":                      0x22d8, // VERY MUCH LESS-THAN
	"lnapprox":                 0x2a89, // LESS-THAN AND NOT APPROXIMATE
	"lneqq":                    0x2268, // LESS-THAN BUT NOT EQUAL TO
	"lnsim":                    0x22e6, // LESS-THAN BUT NOT EQUIVALENT TO
	"longleftarrow":            0x27f5, // LONG LEFTWARDS ARROW
	"longleftrightarrow":       0x27f7, // LONG LEFT RIGHT ARROW
	"longmapsto":               0x27fc, // LONG RIGHTWARDS ARROW FROM BAR
	"longrightarrow":           0x27f6, // LONG RIGHTWARDS ARROW
	"looparrowleft":            0x21ab, // LEFTWARDS ARROW WITH LOOP
	"looparrowright":           0x21ac, // RIGHTWARDS ARROW WITH LOOP
	"lq":                       0x2018, // LEFT SINGLE QUOTATION MARK
	"lrcorner":                 0x231f, // BOTTOM RIGHT CORNER
	"ltimes":                   0x22c9, // LEFT NORMAL FACTOR SEMIDIRECT PRODUCT
	"macron":                   0x00af, // MACRON
	"maltese":                  0x2720, // MALTESE CROSS
	"mapsdown":                 0x21a7, // DOWNWARDS ARROW FROM BAR
	"mapsfrom":                 0x21a4, // LEFTWARDS ARROW FROM BAR
	"mapsto":                   0x21a6, // RIGHTWARDS ARROW FROM BAR
	"mapsup":                   0x21a5, // UPWARDS ARROW FROM BAR
	"measeq":                   0x225e, // MEASURED BY
	"measuredangle":            0x2221, // MEASURED ANGLE
	"mho":                      0x2127, // INVERTED OHM SIGN
	"mid":                      0x2223, // DIVIDES
	"minus":                    0x2212, // MINUS SIGN
	"models":                   0x22a7, // MODELS
	"mp":                       0x2213, // MINUS-OR-PLUS SIGN
	"mu":                       0x03bc, // GREEK SMALL LETTER MU
	"multimap":                 0x22b8, // MULTIMAP
	"nLeftarrow":               0x21cd, // LEFTWARDS DOUBLE ARROW WITH STROKE
	"nLeftrightarrow":          0x21ce, // LEFT RIGHT DOUBLE ARROW WITH STROKE
	"nRightarrow":              0x21cf, // RIGHTWARDS DOUBLE ARROW WITH STROKE
	"nVDash":                   0x22af, // NEGATED DOUBLE VERTICAL BAR DOUBLE RIGHT TURNSTILE
	"nVdash":                   0x22ae, // DOES NOT FORCE
	"nabla":                    0x2207, // NABLA
	"napprox":                  0x2249, // NOT ALMOST EQUAL TO
	"natural":                  0x266e, // MUSIC NATURAL SIGN
	"ncong":                    0x2247, // NEITHER APPROXIMATELY NOR ACTUALLY EQUAL TO
	"ne":                       0x2260, // NOT EQUAL TO
	"nearrow":                  0x2197, // NORTH EAST ARROW
	"neg":                      0x00ac, // NOT SIGN
	"neq":                      0x2260, // NOT EQUAL TO
	"nequiv":                   0x2262, // NOT IDENTICAL TO
	"nexists":                  0x2204, // THERE DOES NOT EXIST
	"ngeq":                     0x2271, // NEITHER GREATER-THAN NOR EQUAL TO
	"ngtr":                     0x226f, // NOT GREATER-THAN
	"ni":                       0x220b, // CONTAINS AS MEMBER
	"nleftarrow":               0x219a, // LEFTWARDS ARROW WITH STROKE
	"nleftrightarrow":          0x21ae, // LEFT RIGHT ARROW WITH STROKE
	"nleq":                     0x2270, // NEITHER LESS-THAN NOR EQUAL TO
	"nless":                    0x226e, // NOT LESS-THAN
	"nmid":                     0x2224, // DOES NOT DIVIDE
	"not":                      0x0338, // COMBINING LONG SOLIDUS OVERLAY
	"notin":                    0x2209, // NOT AN ELEMENT OF
	"nparallel":                0x2226, // NOT PARALLEL TO
	"nprec":                    0x2280, // DOES NOT PRECEDE
	"nrightarrow":              0x219b, // RIGHTWARDS ARROW WITH STROKE
	"nsim":                     0x2241, // NOT TILDE
	"nsime":                    0x2244, // NOT ASYMPTOTICALLY EQUAL TO
	"nsubset":                  0x2284, // NOT A SUBSET OF
	"nsubseteq":                0x2288, // NEITHER A SUBSET OF NOR EQUAL TO
	"nsucc":                    0x2281, // DOES NOT SUCCEED
	"nsupset":                  0x2285, // NOT A SUPERSET OF
	"nsupseteq":                0x2289, // NEITHER A SUPERSET OF NOR EQUAL TO
	"ntriangleleft":            0x22ea, // NOT NORMAL SUBGROUP OF
	"ntrianglelefteq":          0x22ec, // NOT NORMAL SUBGROUP OF OR EQUAL TO
	"ntriangleright":           0x22eb, // DOES NOT CONTAIN AS NORMAL SUBGROUP
	"ntrianglerighteq":         0x22ed, // DOES NOT CONTAIN AS NORMAL SUBGROUP OR EQUAL
	"nu":                       0x03bd, // GREEK SMALL LETTER NU
	"nvDash":                   0x22ad, // NOT TRUE
	"nvdash":                   0x22ac, // DOES NOT PROVE
	"nwarrow":                  0x2196, // NORTH WEST ARROW
	"o":                        0x00f8, // LATIN SMALL LETTER O WITH STROKE
	"obar":                     0x233d, // APL FUNCTIONAL SYMBOL CIRCLE STILE
	"ocirc":                    0x030a, // COMBINING RING ABOVE
	"odot":                     0x2299, // CIRCLED DOT OPERATOR
	"oe":                       0x0153, // LATIN SMALL LIGATURE OE
	"oiiint":                   0x2230, // VOLUME INTEGRAL
	"oiint":                    0x222f, // SURFACE INTEGRAL
	"oint":                     0x222e, // CONTOUR INTEGRAL
	"omega":                    0x03c9, // GREEK SMALL LETTER OMEGA
	"ominus":                   0x2296, // CIRCLED MINUS
	"oplus":                    0x2295, // CIRCLED PLUS
	"origof":                   0x22b6, // ORIGINAL OF
	"oslash":                   0x2298, // CIRCLED DIVISION SLASH
	"otimes":                   0x2297, // CIRCLED TIMES
	"overarc":                  0x0311, // COMBINING INVERTED BREVE
	"overleftarrow":            0x20d6, // COMBINING LEFT ARROW ABOVE
	"overleftrightarrow":       0x20e1, // COMBINING LEFT RIGHT ARROW ABOVE
	"parallel":                 0x2225, // PARALLEL TO
	"partial":                  0x2202, // PARTIAL DIFFERENTIAL
	"perp":                     0x27c2, // PERPENDICULAR
	"perthousand":              0x2030, // PER MILLE SIGN
	"phi":                      0x03d5, // GREEK PHI SYMBOL
	"pi":                       0x03c0, // GREEK SMALL LETTER PI
	"pitchfork":                0x22d4, // PITCHFORK
	"plus":                     0x002b, // PLUS SIGN
	"pm":                       0x00b1, // PLUS-MINUS SIGN
	"prec":                     0x227a, // PRECEDES
	"precapprox":               0x2ab7, // PRECEDES ABOVE ALMOST EQUAL TO
	"preccurlyeq":              0x227c, // PRECEDES OR EQUAL TO
	"preceq":                   0x227c, // PRECEDES OR EQUAL TO
	"precnapprox":              0x2ab9, // PRECEDES ABOVE NOT ALMOST EQUAL TO
	"precnsim":                 0x22e8, // PRECEDES BUT NOT EQUIVALENT TO
	"precsim":                  0x227e, // PRECEDES OR EQUIVALENT TO
	"prime":                    0x2032, // PRIME
	"prod":                     0x220f, // N-ARY PRODUCT
	"propto":                   0x221d, // PROPORTIONAL TO
	"prurel":                   0x22b0, // PRECEDES UNDER RELATION
	"psi":                      0x03c8, // GREEK SMALL LETTER PSI
	"quad":                     0x2003, // EM SPACE
	"questeq":                  0x225f, // QUESTIONED EQUAL TO
	"rangle":                   0x27e9, // MATHEMATICAL RIGHT ANGLE BRACKET
	"rasp":                     0x02bc, // MODIFIER LETTER APOSTROPHE
	"rbrace":                   0x007d, // RIGHT CURLY BRACKET
	"rbrack":                   0x005d, // RIGHT SQUARE BRACKET
	"rceil":                    0x2309, // RIGHT CEILING
	"rfloor":                   0x230b, // RIGHT FLOOR
	"rho":                      0x03c1, // GREEK SMALL LETTER RHO
	"rightangle":               0x27e9, // MATHEMATICAL RIGHT ANGLE BRACKET
	"rightarrow":               0x2192, // RIGHTWARDS ARROW
	"rightarrowbar":            0x21e5, // RIGHTWARDS ARROW TO BAR
	"rightarrowtail":           0x21a3, // RIGHTWARDS ARROW WITH TAIL
	"rightbrace":               0x007d, // RIGHT CURLY BRACKET
	"rightharpoonaccent":       0x20d1, // COMBINING RIGHT HARPOON ABOVE
	"rightharpoondown":         0x21c1, // RIGHTWARDS HARPOON WITH BARB DOWNWARDS
	"rightharpoonup":           0x21c0, // RIGHTWARDS HARPOON WITH BARB UPWARDS
	"rightleftarrows":          0x21c4, // RIGHTWARDS ARROW OVER LEFTWARDS ARROW
	"rightleftharpoons":        0x21cc, // RIGHTWARDS HARPOON OVER LEFTWARDS HARPOON
	"rightparen":               0x0029, // RIGHT PARENTHESIS
	"rightrightarrows":         0x21c9, // RIGHTWARDS PAIRED ARROWS
	"rightsquigarrow":          0x219d, // RIGHTWARDS WAVE ARROW
	"rightthreetimes":          0x22cc, // RIGHT SEMIDIRECT PRODUCT
	"rightzigzagarrow":         0x21dd, // RIGHTWARDS SQUIGGLE ARROW
	"ring":                     0x02da, // RING ABOVE
	"risingdotseq":             0x2253, // IMAGE OF OR APPROXIMATELY EQUAL TO
	"rq":                       0x2019, // RIGHT SINGLE QUOTATION MARK
	"rtimes":                   0x22ca, // RIGHT NORMAL FACTOR SEMIDIRECT PRODUCT
	"scrB":                     0x212c, // SCRIPT CAPITAL B
	"scrE":                     0x2130, // SCRIPT CAPITAL E
	"scrF":                     0x2131, // SCRIPT CAPITAL F
	"scrH":                     0x210b, // SCRIPT CAPITAL H
	"scrI":                     0x2110, // SCRIPT CAPITAL I
	"scrL":                     0x2112, // SCRIPT CAPITAL L
	"scrM":                     0x2133, // SCRIPT CAPITAL M
	"scrR":                     0x211b, // SCRIPT CAPITAL R
	"scre":                     0x212f, // SCRIPT SMALL E
	"scrg":                     0x210a, // SCRIPT SMALL G
	"scro":                     0x2134, // SCRIPT SMALL O
	"scurel":                   0x22b1, // SUCCEEDS UNDER RELATION
	"searrow":                  0x2198, // SOUTH EAST ARROW
	"sharp":                    0x266f, // MUSIC SHARP SIGN
	"sigma":                    0x03c3, // GREEK SMALL LETTER SIGMA
	"sim":                      0x223c, // TILDE OPERATOR
	"simeq":                    0x2243, // ASYMPTOTICALLY EQUAL TO
	"slash":                    0x2215, // DIVISION SLASH
	"smallsetminus":            0x2216, // SET MINUS
	"smile":                    0x2323, // SMILE
	"solbar":                   0x233f, // APL FUNCTIONAL SYMBOL SLASH BAR
	"spadesuit":                0x2660, // BLACK SPADE SUIT
	"spadesuitopen":            0x2664, // WHITE SPADE SUIT
	"sphericalangle":           0x2222, // SPHERICAL ANGLE
	"sqcap":                    0x2293, // SQUARE CAP
	"sqcup":                    0x2294, // SQUARE CUP
	"sqsubset":                 0x228f, // SQUARE IMAGE OF
	"sqsubseteq":               0x2291, // SQUARE IMAGE OF OR EQUAL TO
	"sqsupset":                 0x2290, // SQUARE ORIGINAL OF
	"sqsupseteq":               0x2292, // SQUARE ORIGINAL OF OR EQUAL TO
	"ss":                       0x00df, // LATIN SMALL LETTER SHARP S
	"star":                     0x22c6, // STAR OPERATOR
	"stareq":                   0x225b, // STAR EQUALS
	"sterling":                 0x00a3, // POUND SIGN
	"subset":                   0x2282, // SUBSET OF
	"subseteq":                 0x2286, // SUBSET OF OR EQUAL TO
	"subseteqq":                0x2ac5, // SUBSET OF ABOVE EQUALS SIGN
	"subsetneq":                0x228a, // SUBSET OF WITH NOT EQUAL TO
	"subsetneqq":               0x2acb, // SUBSET OF ABOVE NOT EQUAL TO
	"succ":                     0x227b, // SUCCEEDS
	"succapprox":               0x2ab8, // SUCCEEDS ABOVE ALMOST EQUAL TO
	"succcurlyeq":              0x227d, // SUCCEEDS OR EQUAL TO
	"succeq":                   0x227d, // SUCCEEDS OR EQUAL TO
	"succnapprox":              0x2aba, // SUCCEEDS ABOVE NOT ALMOST EQUAL TO
	"succnsim":                 0x22e9, // SUCCEEDS BUT NOT EQUIVALENT TO
	"succsim":                  0x227f, // SUCCEEDS OR EQUIVALENT TO
	"sum":                      0x2211, // N-ARY SUMMATION
	"supset":                   0x2283, // SUPERSET OF
	"supseteq":                 0x2287, // SUPERSET OF OR EQUAL TO
	"supseteqq":                0x2ac6, // SUPERSET OF ABOVE EQUALS SIGN
	"supsetneq":                0x228b, // SUPERSET OF WITH NOT EQUAL TO
	"supsetneqq":               0x2acc, // SUPERSET OF ABOVE NOT EQUAL TO
	"swarrow":                  0x2199, // SOUTH WEST ARROW
	"t":                        0x0361, // COMBINING DOUBLE INVERTED BREVE
	"tau":                      0x03c4, // GREEK SMALL LETTER TAU
	"textasciiacute":           0x00b4, // ACUTE ACCENT
	"textasciicircum":          0x005e, // CIRCUMFLEX ACCENT
	"textasciigrave":           0x0060, // GRAVE ACCENT
	"textasciitilde":           0x007e, // TILDE
	"textexclamdown":           0x00a1, // INVERTED EXCLAMATION MARK
	"textquestiondown":         0x00bf, // INVERTED QUESTION MARK
	"textquotedblleft":         0x201c, // LEFT DOUBLE QUOTATION MARK
	"textquotedblright":        0x201d, // RIGHT DOUBLE QUOTATION MARK
	"therefore":                0x2234, // THEREFORE
	"theta":                    0x03b8, // GREEK SMALL LETTER THETA
	"thickspace":               0x2005, // FOUR-PER-EM SPACE
	"thorn":                    0x00fe, // LATIN SMALL LETTER THORN
	"tilde":                    0x0303, // COMBINING TILDE
	"times":                    0x00d7, // MULTIPLICATION SIGN
	"to":                       0x2192, // RIGHTWARDS ARROW
	"top":                      0x22a4, // DOWN TACK
	"triangledown":             0x25bf, // WHITE DOWN-POINTING SMALL TRIANGLE
	"triangleeq":               0x225c, // DELTA EQUAL TO
	"triangleleft":             0x25c1, // WHITE LEFT-POINTING TRIANGLE
	"trianglelefteq":           0x22b4, // NORMAL SUBGROUP OF OR EQUAL TO
	"triangleq":                0x225c, // DELTA EQUAL TO
	"triangleright":            0x25b7, // WHITE RIGHT-POINTING TRIANGLE
	"trianglerighteq":          0x22b5, // CONTAINS AS NORMAL SUBGROUP OR EQUAL TO
	"turnednot":                0x2319, // TURNED NOT SIGN
	"twoheaddownarrow":         0x21a1, // DOWNWARDS TWO HEADED ARROW
	"twoheadleftarrow":         0x219e, // LEFTWARDS TWO HEADED ARROW
	"twoheadrightarrow":        0x21a0, // RIGHTWARDS TWO HEADED ARROW
	"twoheaduparrow":           0x219f, // UPWARDS TWO HEADED ARROW
	"ulcorner":                 0x231c, // TOP LEFT CORNER
	"underbar":                 0x0331, // COMBINING MACRON BELOW
	"uparrow":                  0x2191, // UPWARDS ARROW
	"updownarrow":              0x2195, // UP DOWN ARROW
	"updownarrowbar":           0x21a8, // UP DOWN ARROW WITH BASE
	"updownarrows":             0x21c5, // UPWARDS ARROW LEFTWARDS OF DOWNWARDS ARROW
	"upharpoonleft":            0x21bf, // UPWARDS HARPOON WITH BARB LEFTWARDS
	"upharpoonright":           0x21be, // UPWARDS HARPOON WITH BARB RIGHTWARDS
	"uplus":                    0x228e, // MULTISET UNION
	"upsilon":                  0x03c5, // GREEK SMALL LETTER UPSILON
	"upuparrows":               0x21c8, // UPWARDS PAIRED ARROWS
	"urcorner":                 0x231d, // TOP RIGHT CORNER
	"vDash":                    0x22a8, // TRUE
	"varepsilon":               0x03b5, // GREEK SMALL LETTER EPSILON
	"varkappa":                 0x03f0, // GREEK KAPPA SYMBOL
	"varnothing":               0x2205, // EMPTY SET
	"varphi":                   0x03c6, // GREEK SMALL LETTER PHI
	"varpi":                    0x03d6, // GREEK PI SYMBOL
	"varpropto":                0x221d, // PROPORTIONAL TO
	"varrho":                   0x03f1, // GREEK RHO SYMBOL
	"varsigma":                 0x03c2, // GREEK SMALL LETTER FINAL SIGMA
	"vartheta":                 0x03d1, // GREEK THETA SYMBOL
	"vartriangle":              0x25b5, // WHITE UP-POINTING SMALL TRIANGLE
	"vartriangleleft":          0x22b2, // NORMAL SUBGROUP OF
	"vartriangleright":         0x22b3, // CONTAINS AS NORMAL SUBGROUP
	"vdash":                    0x22a2, // RIGHT TACK
	"vdots":                    0x22ee, // VERTICAL ELLIPSIS
	"vec":                      0x20d7, // COMBINING RIGHT ARROW ABOVE
	"vee":                      0x2228, // LOGICAL OR
	"veebar":                   0x22bb, // XOR
	"veeeq":                    0x225a, // EQUIANGULAR TO
	"vert":                     0x007c, // VERTICAL LINE
	"wedge":                    0x2227, // LOGICAL AND
	"wedgeq":                   0x2259, // ESTIMATES
	"widebar":                  0x0305, // COMBINING OVERLINE
	"widehat":                  0x0302, // COMBINING CIRCUMFLEX ACCENT
	"widetilde":                0x0303, // COMBINING TILDE
	"wp":                       0x2118, // SCRIPT CAPITAL P
	"wr":                       0x2240, // WREATH PRODUCT
	"xi":                       0x03be, // GREEK SMALL LETTER XI
	"yen":                      0x00a5, // YEN SIGN
	"zeta":                     0x03b6, // GREEK SMALL LETTER ZETA
	"{":                        0x007b, // LEFT CURLY BRACKET
	"|":                        0x2016, // DOUBLE VERTICAL LINE
	"}":                        0x007d, // RIGHT CURLY BRACKET
}
