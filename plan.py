"""What each property's check explores, per tier."""
import jobs as J
from jobs import Job, hole, pick, tm, lit, ASCII

DOC_FN = {
    "A01": "h_tile", "A02": "h_position", "A03": "h_kinds", "B01": "h_total", "B02": "h_nesting", "B03": "h_coverage", "B04": "h_agree",
    "B05": "h_grammar", "B06": "h_grammar", "B07": "h_grammar", "B08": "h_grammar", "B11": "h_crlf", "B12": "h_shape", "C05": "h_stable", "B14": "h_borrow", "B15": "h_delims", "D03": "h_content",
}
LEX_ALL = 0x3FFFFF

# coverage marks (harness/src/lib.rs, `marks`) that some passing path must set
BLOCKS = 0x3FF | 1 << 10 | 1 << 24
INLINE = sum(1 << i for i in (11, 12, 13, 14, 15, 16))
NEED = {
    "A01": 0x7, "A02": 0xFF, "A03": LEX_ALL,
    "B01": BLOCKS | INLINE, "B04": BLOCKS | INLINE, "B12": BLOCKS | INLINE, "C05": BLOCKS | INLINE, "B11": BLOCKS | INLINE,
    "B02": 0xFFFFFF, "B03": 0xFFFFFF,
    "B05": 1 | INLINE | 1 << 22 | 1 << 23,
    "B06": 1 << 5 | 1 << 17 | 1 << 18,
    "B07": 1 << 6 | 1 << 9 | 1 << 19 | 1 << 20 | 1 << 25,
    "B08": 2 | 4 | 8 | 16 | 1 << 7 | 1 << 8 | 1 << 10 | 1 << 21,
    "B09": 1, "B10": BLOCKS & ~(1 << 10),
    "C01": BLOCKS | INLINE, "C02": 1 | INLINE | 1 << 22 | 1 << 23, "C03": 2 | 4 | 8 | 16 | 1 << 8 | 1 << 21,
    "C04": 1 << 5 | 1 << 6 | 1 << 9 | 1 << 10 | 1 << 17 | 1 << 18 | 1 << 19 | 1 << 20 | 1 << 25, "C06": BLOCKS | INLINE,
    "B13": BLOCKS & ~(1 << 10) | INLINE, "C07": BLOCKS & ~(1 << 10) | INLINE, "B14": 3, "B15": 0xFFFFFF, "B16": BLOCKS | INLINE, "F01": BLOCKS | INLINE | 3 << 40,
    "D01": 3, "D02": 4, "D03": 7, "D04": 31, "E01": BLOCKS | INLINE | 1 << 40, "E02": BLOCKS | INLINE | 1 << 40,
}


def docs(fam, pieces=(), small=(), near=(), holes=(), free=4, wide=2, narrow=0, scale=True, insert=True, huge=False, combos=True, deep=False, lines=(), tiny=True):
    out = []
    out += J.free(free)
    out += J.wide(wide)
    out += J.wide(narrow, narrow=True)
    for name, n in pieces:
        out += J.pieces(name, n, least=n)
    for a, n in small:
        out += J.small(a, n)
    out += J.near(near, insert)
    out += J.near(["long"], insert=False) if near else []
    # every character takes its own path through the rendering
    out += J.odd(near, [J.N2, J.N3] + J.SPACES if narrow else None)
    out += J.tiny(deep) if tiny else []
    for g in lines:
        out += J.lines([g], "mark" if deep else "edge")
    out += J.holes(holes)
    if combos:
        out += J.combos(deep)
    if scale:
        out += [("scale: " + n, t) for n, t in J.SCALE + (J.HUGE if huge else [])]
    return out


def doc_templates(p, thorough):
    t = thorough
    A = J.ALL
    if p == "D03":
        return docs(p, huge=True, deep=t, free=4, wide=3 if t else 2, pieces=[("eol", 5 if t else 4), ("wide", 4), ("mark", 4), ("inline", 4)], near=A,
                    small=[("\\*\na", 7 if t else 6)], scale=t, combos=t)
    if p in ("A01", "A02", "A03"):
        return docs(p, huge=True, deep=t, free=5 if t else 4, wide=4 if t else 3, holes=A, near=["mixed"] + (A[:4] if t else []),
                    pieces=[("eol", 7 if t else 5), ("wide", 6 if t else 5), ("meta", 6 if t else 4), ("mark", 5 if t else 4)],
                    small=[("\n\r\\ a", 9 if t else 7), ("{}%\\a", 8 if t else 6)])
    lists = [("list", 6 if t else 4), ("nest", 6 if t else 4)]
    inl = [("inline", 6 if t else 4), ("span", 6 if t else 4), ("link", 5 if t else 4)]
    cont = [("highlight", 6 if t else 4), ("collapsible", 6 if t else 4)]
    leaf = [("code", 6 if t else 4), ("embed", 6 if t else 4), ("heading", 5 if t else 4), ("meta", 5 if t else 4)]
    rest = [("doc", 5 if t else 3), ("eol", 5 if t else 4), ("mark", 5 if t else 3)]
    if p == "B05":
        return docs(p, huge=True, deep=t, pieces=[("inline", 6 if t else 5), ("span", 6 if t else 5), ("link", 6 if t else 4), ("doc", 3)], near=["inline", "mixed"], lines=A if t else ["inline"],
                    holes=["inline", "mixed"], free=5 if t else 4, small=[("*_a\\\n", 8 if t else 7), ("[]()a", 8 if t else 7), ("~`a\n", 8 if t else 7)])
    if p == "B06":
        return docs(p, huge=True, deep=t, pieces=[("list", 6 if t else 5), ("nest", 7 if t else 5), ("doc", 4 if t else 3)], near=["list", "mixed"], lines=A if t else ["list"], holes=["list", "mixed"],
                    free=4, small=[("- +\na", 9 if t else 7), ("- \na\\", 8 if t else 6)])
    if p == "B07":
        return docs(p, huge=True, deep=t, pieces=[("highlight", 6 if t else 5), ("collapsible", 6 if t else 5), ("doc", 4 if t else 3)], near=["container", "mixed"], lines=A if t else ["container"],
                    holes=["container", "mixed"], free=4, small=[("! \na\\", 8 if t else 7), ("{%} \n", 9 if t else 7)])
    if p == "B08":
        return docs(p, huge=True, deep=t, pieces=leaf + [("link", 5 if t else 4), ("doc", 4 if t else 3), ("mark", 4 if t else 3)], near=["leaf", "mixed"], lines=A if t else ["leaf"], holes=["leaf", "mixed"],
                    free=4, small=[("`\na\\", 9 if t else 7), ("-\na ", 9 if t else 7), ("{}|\na", 8 if t else 6), ("![]()\n", 7 if t else 6), ("# a\n[", 7 if t else 6)])
    if p == "C05":
        return docs(p, huge=True, deep=t, lines=A if t else (), pieces=lists + inl + cont + leaf + rest, near=A, holes=A, free=4 if t else 3, wide=1, narrow=3 if t else 2, insert=t,
                    small=[("- +\n\\", 7 if t else 5), ("! \n\\a", 7 if t else 5), ("{%} \n", 7 if t else 5), ("`\n\\a", 8 if t else 6), ("\n\\a", 10 if t else 8)])
    return docs(p, huge=True, deep=t, lines=A if t else (), pieces=lists + inl + cont + leaf + rest, near=A, holes=A, free=5 if t and p in ("B01", "B03") else 4, wide=3 if t else 2,
                small=[("- +\na", 8 if t else 6), ("! \na\\", 8 if t else 6), ("{%} \n", 8 if t else 6), ("`\na\\", 8 if t else 6), ("*_~\\a", 7 if t else 5)])


ESCAPE_PLACES = [
    ("", ""), ("a", "b"), ("a ", " b"), ("**", "**"), ("**_", "_**"), ("**~~", "~~**"), ("_", "_"), ("~~", "~~"), ("*", "*"), ("`", "`"), ("[", "](u)"),
    ("[a](", ")"), ("# ", ""), ("## a", "b"), ("# [", "](u)"), ("# [a](", ")"), ("![", "](u)"), ("![a](", ")"), ("![a](b)\n![", "](u)"), ("- ", ""), ("- a\n", " b"),
    ("- a\n - ", "\n+ b"), ("+ a\n - b\n", " c"), ("```\n", "\n```"), ("```r\na\n", "b\n```"), ("```", "\na\n```"), ("{{", "|a}}"), ("{{a|", "}}"), ("!! ", "\na\n!!"),
    ("!! t\n! ", "\na\n!!"), ("!! t\n! i\n", "a\n!!"), ("!! t\na\n", " b\n!!"), ("!! t\na\n\n", "\n!!"), ("{% ", "\na\n%}"), ("{% t\n", " a\n%}"),
    ("{% t\n- a\n", " b\n%}"), ("{% t\n{% ", "\na\n%}\n%}"), ("{% t\na\n", "\n%}"), ("---\n", "\n---"), ("---\na", "\n---\n\nb"), ("a\n", "\nb"), ("a\n\n", " b"), ("-----\n\n", "---"),
    ("\n", "a"), ("a\\\\", "b"), ("*", "a*b*"), ("{%", "a"), ("a", ""),
]
EFFORT = [("", ""), ("!! t\n", "\n!!"), ("{% t\n", "\n%}"), ("- ", ""), ("", "x"), ("**", "**"), ("[", "](a)"), ("# ", ""), ("```\n", "\n```"), ("![", "](b)"), ("{{", "|a}}"),
          ("a\n\n", "\n\nb"), ("\n", "\n")]
EFFORT_MAIN = 2
NESTED = [("{% t\n", "%}\n"), ("{% t\n", "\n%}"), ("{%\n", "\n%}\n\n"), ("{% t\n!! h\n", "\n!!\n%}"), ("!! t\n", "\n!!"), ("**", "**"), ("[", "](a)"), ("[a](", ")"), ("![", "](a)"),
          ("_**", "**_"), ("{{", "}}"), ("`", "`"), ("# [", "](a)"), ("- {% t\n", "\n%}"), ("{% t\n- a\n", "\n%}"), ("```\n", "\n```"), ("---\n", "\n---")]
NESTED_OUT = [("{% t\n", "\n%}"), ("{%\n", "\n%}\n\n"), ("{% t\nx\n\n", "\n%}"), ("{% t\n", "\n\nx\n%}"), ("{% t\n- a\n\n", "\n\n!! h\n! i\na\n!!\n%}")]
HEADS = ["a", "# a", "![a](b)", "![a](b)\n![c](d)", "```\na\n```", "- a\n - b", "+ a", "!! t\na\n!!", "-----", "{{a|b}}", "{% t\na\n%}", "---\na\n---", "**a** *b*",
         "{% t\n{% u\n%}\n%}", "!!\n!!", "# a [b](c)", "a\nb", "{% t\n- a\n%}", "---\na\n---\n\nb\n\n# c"]
# blocks with something in them that is left open, which ends with the block
SPOILT = ["# [a](b", "# [a", "[a](b", "[a", "[a](b(c)", "a **b", "*a", "_a", "~~a", "`a", "![a](b", "![a", "!![a](b)", "![a](b) c", "! i", "%}",
          "- [a](b", "- **a", "+ `a", " - a", "- a\n  - b", "####### a", "a **b _c", "{%a\n%}", "**_a**_", "----", "- a\n - _b", "![a](b)\n![c", "a\n```"]
OPENS = ["{% t", "{%", "{% a b", "{% t\n{% u\nx\n%}\n"]


def make(p, tier):
    t = tier == "thorough"
    if p in DOC_FN:
        return [Job(n, DOC_FN[p], [x]) for n, x in doc_templates(p, t)]
    out = []
    if p == "B09":
        one = hole()
        for a, b in ESCAPE_PLACES:
            for kind, ch in (("an ASCII character", one), ("a 2-byte character", J.U2), ("a 3-byte character", J.U3), ("a 4-byte character", J.U4)):
                out.append(Job("%s escaped between %r and %r" % (kind, a, b), "h_escape", [lit(a), ch, lit(b)]))
            # one more open place on either side
            out.append(Job("escaped between %r, any, and %r" % (a, b), "h_escape", [tm(a, hole(NOT_SLASH - {81})), one, lit(b)]))
            out.append(Job("escaped between %r and any, %r" % (a, b), "h_escape", [lit(a), one, tm(hole(ASCII - {81}), b)]))
        for n in range(1, 4 if t else 4):
            out.append(Job("all of %d characters escaped" % n, "h_escape_all", [hole(ASCII, n)]))
        for shape in (J.U2 + hole(), hole() + J.U3, J.U4 + hole() + J.U2):
            out.append(Job("all of a wide text escaped", "h_escape_all", [shape]))
        if t:
            out.append(Job("all of 4 characters escaped", "h_escape_all", [hole(ASCII, 4)]))
            for d in [x for g in J.ALL for x in J.CORPUS[g]]:
                b = d.encode()
                for i in range(len(b) + 1):
                    if i == len(b) or b[i] & 0xC0 != 0x80:
                        if not (i and b[i - 1] == 92):
                            out.append(Job("inserted into %r at %d" % (d, i), "h_escape", [lit(b[:i]), one, lit(b[i:])]))
        return out
    if p == "B10":
        for h in HEADS:
            for k in range(0, 4 if t else 3):
                out.append(Job("%r before any text of %d" % (h, k), "h_prefix", [lit(h), hole(ASCII, k)]))
            for name, n in (("doc", 3 if t else 2), ("block", 2), ("mark", 3 if t else 2), ("eol", 3 if t else 2)):
                out.append(Job("%r before %d pieces of %s" % (h, n, name), "h_prefix", [lit(h), pick(name, n)]))
        for h in HEADS + SPOILT:
            for name in ("link", "inline", "heading", "code", "embed", "list", "highlight", "collapsible", "span", "meta"):
                out.append(Job("%r before 2 pieces of %s" % (h, name), "h_prefix", [lit(h), pick(name, 3 if t else 2)]))
            out.append(Job("%r before a whole form" % h, "h_prefix", [lit(h), pick("whole") + pick("sep") + pick("whole")]))
            out.append(Job("%r before a broken form" % h, "h_prefix", [lit(h), pick("broken") + pick("sep") + pick("whole")]))
            out.append(Job("%r before an anchor" % h, "h_prefix", [lit(h), tm("# [a](b)", hole(), "c\n\n![a](b)", hole(), "\n\n[a](b) `c` **d** _e_ ~~f~~ *g*")]))
        tails = pick("tail")
        for k in range(1, 5 if t else 4):
            out.append(Job("any text of %d before blocks" % k, "h_suffix", [hole(ASCII, k), tails]))
        for name in sorted(set(J.TABLES) - {"tail", "sep", "odd", "whole", "broken"}):
            out.append(Job("pieces of %s before blocks" % name, "h_suffix", [pick(name, 4 if t else 3 if len(J.TABLES[name][1]) < 14 else 2), tails]))
        for name, x in J.combos(t):
            if name.count(",") < 2 and not name.startswith("two broken forms, "):
                out.append(Job("%s before blocks" % name, "h_suffix", [x, tails]))
        for n, x in J.near(J.ALL, insert=t):
            out.append(Job(n + " before blocks", "h_suffix", [x, tails if t else lit("# c [d](e)\n\n- f\n - g\n\n**h** `i`\n\n{% j\nk\n%}")]))
        out.append(Job("any block before any text", "h_prefix", [pick("block"), hole(ASCII, 3)]))
        out.append(Job("two blocks before pieces", "h_prefix", [tm(pick("block"), "\n\n", pick("block")), pick("doc", 2)]))
        for o in OPENS:
            for k in range(1, 5 if t else 4):
                out.append(Job("inside %r any text of %d" % (o, k), "h_inside", [lit(o), hole(ASCII, k), 1]))
            for name, n in (("doc", 4 if t else 3), ("list", 4 if t else 3), ("collapsible", 4 if t else 3), ("highlight", 5 if t else 3), ("code", 4 if t else 3),
                            ("block", 3 if t else 2), ("inline", 4 if t else 3), ("heading", 3), ("embed", 4 if t else 3), ("nest", 4)):
                out.append(Job("inside %r %d pieces of %s" % (o, n, name), "h_inside", [lit(o), pick(name, n), 1]))
        for o in OPENS:
            for name, x in J.combos(t):
                if name.count(",") > 1 and not t or name.startswith("two broken forms, ") and not t:
                    continue
                out.append(Job("inside %r: %s" % (o, name), "h_inside", [lit(o), x, 1]))
        for n, x in J.near(J.ALL, insert=t):
            out.append(Job("inside: " + n, "h_inside", [lit("{% t"), x, 1]))
        # many around it
        for n in (12, 70, 300) if t else (12, 70):
            for o in OPENS[:1] if n > 12 else OPENS:
                out.append(Job("inside %d times %r a block and any character" % (n, o), "h_inside", [lit(o), pick("block") + hole(), n]))
                out.append(Job("inside %d times %r whole forms" % (n, o), "h_inside", [lit(o), pick("whole") + pick("sep") + pick("whole") if n < 20 else pick("whole"), n]))
                out.append(Job("inside %d times %r a broken form" % (n, o), "h_inside", [lit(o), pick("broken") + pick("sep") + pick("whole") if n < 20 else pick("broken"), n]))
        return out
    if p == "C07":
        def rep(name, unit, pre="", mid="", close="", post="", indent=0, n=6):
            x = [y if isinstance(y, list) else lit(y) for y in (pre, unit, mid, close, post)]
            out.append(Job(name, "h_effort_out", x + [n, indent]))
        tables = sorted(set(J.TABLES) - {"tail", "sep", "odd"})
        for i, (pre, post) in enumerate(EFFORT):
            for name in tables:
                rep("%r, a piece of %s repeated, %r" % (pre, name, post), pick(name), pre=pre, post=post)
                if t and i < EFFORT_MAIN:
                    rep("%r, 2 of %s repeated, %r" % (pre, name, post), pick(name, 2), pre=pre, post=post)
            for k in (1, 2) if t or i < 1 else (1,):
                rep("%r, any text of %d repeated, %r" % (pre, k, post), hole(ASCII, k), pre=pre, post=post)
        for a, b in NESTED_OUT:
            for name in tables:
                rep("%r nested, %s inside" % (a, name), a, mid=pick(name, 2 if t else 1), close=b)
                rep("%r and %s nested" % (a, name), tm(a, pick(name)), close=b)
                rep("%r nested, %s at the ends" % (a, name), a, close=tm(pick(name), b))
            rep("%r nested with any text" % a, tm(a, hole()), close=tm(hole(), b))
        for u in ("- a\n", "+ a\n", "- **a**\n", "- [a](b)\n"):
            for name in tables:
                rep("%r ever deeper with %s" % (u, name), tm(u, pick(name)), indent=1)
                rep("%r ever deeper, then %s" % (u, name), u, mid=pick(name, 2 if t else 1), indent=1)
            rep("%r ever deeper with any text" % u, tm(u, hole(ASCII, 2 if t else 1)), indent=1)
        for d in [x for g in J.ALL for x in J.CORPUS[g]]:
            for sep in ("", "\n", "\n\n"):
                rep("%r and %r with any character, repeated" % (d, sep), tm(d, sep, hole()))
            rep("%r in collapsibles" % d, "{% t\n", mid=tm(hole(), d), close="\n%}")
            rep("collapsibles around and beside %r" % d, tm("{% t\n", d, "\n\n"), mid=hole(), close=tm("\n%}"))
        return out
    if p == "B13":
        def rep(name, unit, pre="", mid="", close="", post="", indent=0, n=6):
            x = [y if isinstance(y, list) else lit(y) for y in (pre, unit, mid, close, post)]
            out.append(Job(name, "h_effort", x + [n, indent]))
        for i, (pre, post) in enumerate(EFFORT):
            for name in sorted(J.TABLES):
                for k in (1, 2, 3) if t else (1, 2):
                    if k < 2 or (t and k < 3) or i < EFFORT_MAIN:
                        rep("%r, %d of %s repeated, %r" % (pre, k, name, post), pick(name, k), pre=pre, post=post)
            for k in (1, 2, 3) if t else (1, 2):
                if k < 2 or (t and k < 3) or i < EFFORT_MAIN:
                    rep("%r, any text of %d repeated, %r" % (pre, k, post), hole(ASCII, k), pre=pre, post=post)
        for a, b in NESTED:
            for name in sorted(J.TABLES):
                rep("%r nested, %s inside" % (a, name), a, mid=pick(name, 2 if t else 1), close=b)
                rep("%r and %s nested" % (a, name), tm(a, pick(name)), close=b)
                rep("%r nested, %s at the ends" % (a, name), a, close=tm(b, pick(name)))
            rep("%r nested with any text" % a, tm(a, hole()), close=tm(hole(), b))
        for u in ("- a\n", "+ a\n", "- **a\n", "- [a\n"):
            for name in sorted(J.TABLES):
                rep("%r ever deeper with %s" % (u, name), tm(u, pick(name)), indent=1)
                rep("%r ever deeper, then %s" % (u, name), u, mid=pick(name, 2 if t else 1), indent=1)
            rep("%r ever deeper with any text" % u, tm(u, hole(ASCII, 2 if t else 1)), indent=1)
        for d in [x for g in J.ALL for x in J.CORPUS[g]]:
            b = d.encode()
            for cut in range(1, len(b)):
                if b[cut] & 0xC0 != 0x80:
                    rep("%r repeated up to %d, and the rest with any character" % (d, cut), lit(b[:cut]), mid=tm(hole(), b[cut:]))
        return out
    if p == "B16":
        fn = "h_again"
        out.append(Job("any two texts of 1", fn, [0, hole(), hole()]))
        for k in range(0, 4 if t else 3):
            for d in ("", "a", "*a", "*a*", "# [a](b)", "- a\n - b", "!! a\n!!", "{% a\n%}"):
                out.append(Job("%r and any text of %d" % (d, k), fn, [0, lit(d), hole(ASCII, k)]))
        # a document and another one of the same length, or almost: what is kept by length, or by place, shows
        few = ASCII if t else frozenset(b"a\n *`[\\{!-")
        for g in J.ALL:
            for d in J.CORPUS[g]:
                for n, x in J.near_of(d, insert=t, dom=few):
                    out.append(Job("%r and %s" % (d, n), fn, [0, lit(d), x]))
        for a in ("whole", "broken"):
            for b in ("whole", "broken"):
                out.append(Job("%s and %s forms" % (a, b), fn, [0, pick(a), pick(b)]))
                if t:
                    out.append(Job("rows of %s and %s forms" % (a, b), fn, [0, pick(a) + pick("sep") + pick(b), pick(b)]))
        # texts of the same few characters
        for abc, n in ((b"a*", 4), (b"a\n-", 3), (b"`\\ ", 3), (b"[]()", 3), (b"_~a", 3), (b"{}% ", 3), (b"!a\n", 3), (b"# a", 3)):
            d = frozenset(abc)
            out.append(Job("two texts of %d of %r" % (n, abc), fn, [0, hole(d, n + t), hole(d, n)]))
        # a long life: every form, whole or broken, read many times before another
        for x in [x for name in ("broken", "whole") for x in J.TABLES[name][1]]:
            out.append(Job("%r many times, then a whole form" % x, fn, [300 if t else 70, lit(x), pick("whole")]))
        for name in sorted(set(J.TABLES) - {"tail", "sep", "odd", "whole", "broken"}):
            out.append(Job("pieces of %s" % name, fn, [0, pick(name, 2), pick(name, 2 if t else 1)]))
        return out
    if p == "F01":
        fn = "h_build"
        two = J.twice
        G = ["inline alone", "leaf alone", "container"]
        for k in range(0, 4 if t else 3):
            out += two(J.built(G, hole(ASCII, k), "any text of %d" % k, fn))
        out += two(J.built(["inline", "leaf"], hole(), "any text of 1", fn))
        for w in (J.U2, J.U3, J.U4):
            out += two(J.built(G, w, "any wide character", fn))
            out += two(J.built(G, hole() + w, "an ASCII and any wide character", fn))
        out += two(odd(fn, [lit("x"), lit(""), hole()]))
        out += two(levels(fn, hole()))
        out += two(any_level(fn, hole()))
        out += two(J.many(["inline", "leaf", "container"], hole(), fn, n=40, deep=20))
        out += two(J.lengthy(G, ASCII, fn))
        out += two(J.block_pairs(fn, hole(), t))
        # documents of another shape
        kinds, ink = J.block_kinds(J.X), J.inline_slots(J.X)
        for n, a in kinds.items():
            for m, b in kinds.items():
                out.append(Job("%s and %s" % (n, m), fn, J.doc(a, meta=hole()) + J.doc(b, meta=hole())))
                out.append(Job("%s and %s in a collapsible" % (n, m), fn, J.doc(J.col("t", J.RULE, a)) + J.doc(J.col(hole(), J.RULE, b))))
                out.append(Job("%s, and %s after it" % (n, m), fn, J.doc(a) + J.doc(a, b)))
        for n, a in ink.items():
            for m, b in ink.items():
                out.append(Job("%s and %s" % (n, m), fn, J.doc([J.P] + a) + J.doc([J.P] + b)))
                out.append(Job("%s and %s in a list" % (n, m), fn, J.doc(J.lst(0, J.item(a), J.item(b))) + J.doc(J.lst(0, J.item(a), J.item(J.kids(J.text(hole())))))))
        bare = list(J.bare_kinds().items())
        for i, (n, a) in enumerate(bare):
            out.append(Job("%s, and nothing" % n, fn, J.doc(a) + J.doc()))
            for m, b in bare[i:]:
                out.append(Job("%s and %s" % (n, m), fn, J.doc(a) + J.doc(b)))
                out.append(Job("%s and %s, in either order" % (n, m), fn, J.doc(J.col("t", a, b)) + J.doc(J.col("t", b, a))))
        for a in (None, lit(""), J.X, hole()):
            for b in (None, lit(""), J.X, hole()):
                out.append(Job("metadata", fn, J.doc(meta=a) + J.doc(meta=b)))
        for a in range(8):
            for b in range(8):
                out.append(Job("heading levels %d and %d" % (a, b), fn, J.doc(J.head(a, J.h_text("x"))) + J.doc(J.head(b, J.h_text("x")))))
        return out
    if p == "C01":
        out += J.built(["inline", "leaf", "container"], hole(ASCII, 1), "any text of 1", "h_render")
        out += J.built(["inline alone", "leaf alone", "container"], hole(ASCII, 2), "any text of 2", "h_render")
        out += J.built(["inline", "leaf", "container"], hole(ASCII, 2), "any text of 2", "h_render") if t else []
        out += J.built(["inline alone", "leaf alone", "container"], hole(ASCII, 3), "any text of 3", "h_render") if t else []
        out += J.built(["inline alone", "leaf alone", "container"], [], "an empty text", "h_render")
        for w in (J.N2, J.N3, J.N4):
            out += J.built(["inline alone", "leaf alone", "container"], tm(hole(), w) if t else w, "a wide character", "h_render")
        out += J.built(["inline alone"] if t else [], J.U4, "any wide character", "h_render")
        out += J.many(["inline", "leaf", "container"], hole(), "h_render")
        out += J.lengthy(["inline alone", "leaf alone", "container"], ASCII, "h_render")
        out += J.texts(["inline alone", "leaf alone", "container"], "h_render", t, None if t else ("\na", "- \n", "`\\"))
        out += J.block_pairs("h_render", hole(), t)
        out += odd("h_render", [lit("x"), lit("\n"), lit("- ")])
        out += any_level("h_render", hole(), most=1 << 14)
        return out
    if p in ("C02", "C03", "C04"):
        g = {"C02": ["inline"], "C03": ["leaf"], "C04": ["container"]}[p]
        ga = {"C02": ["inline alone"], "C03": ["leaf alone"], "C04": ["container"]}[p]
        fn = "h_round"
        if p == "C02":
            out += J.built(g, hole(ASCII, 2), "any text of 2", fn)
            out += J.built(["text"], hole(ASCII, 2), "any text of 2", fn)
        if p == "C03":
            out += J.built(g, hole(ASCII, 2), "any text of 2", fn)
        for k in range(0, 4):
            out += J.built(ga, hole(ASCII, k), "any text of %d" % k, fn)
        out += J.many(g, hole(), fn)
        out += J.lengthy(ga, ASCII, fn)
        out += J.texts(ga, fn, t)
        out += J.block_pairs(fn, hole(), t, J.BLOCKS_OF[p])
        n = 4 if t else 3 if p != "C02" else 2
        out += J.built(ga, pick("text", n), "pieces of text", fn)
        out += J.built(ga, pick("mark", n), "pieces of markers", fn)
        out += J.built(ga, pick("wide", 3 if t else 2), "pieces of wide", fn)
        if p == "C02":
            out.append(Job("any text of %d alone" % (4 if t else 3), fn, J.doc(J.par(J.text(hole(ASCII, 4 if t else 3))))))
            out += J.built(["text"], pick("mark", 3 if t else 2), "pieces of markers", fn)
            out += pairs(fn, hole(), 2)
        if t:
            out += J.built(g, pick("text", 3), "pieces of text", fn)
            out += J.built(g, pick("mark", 3), "pieces of markers", fn)
            if p == "C02":
                out += J.built(["text"], hole(ASCII, 3), "any text of 3", fn)
            if p == "C03":
                out += J.built(ga, hole(ASCII, 4), "any text of 4", fn)
            for w in (J.U2, J.U3, J.U4):
                out += J.built(ga, w, "any wide character", fn)
        for w in J.SPACES:
            out += J.built(ga, w, "a wide character alone", fn)
        for w in (J.N2, J.N3, J.N4):
            out += J.built(ga, tm(hole(), w), "a wide character", fn)
            out += J.built(ga, tm(w, hole()), "a wide character first", fn) if t else []
        return out
    if p == "C06":
        L = J.LETTERS
        k = 3 if t else 2
        out += J.built(["inline", "leaf", "container"], hole(L, k), "any word of %d" % k, "h_spell")
        out += J.built(["inline alone", "leaf alone", "container"], hole(L, k + 1), "any word of %d" % (k + 1), "h_spell")
        out += pairs("h_spell", hole(L), 2)
        out += levels("h_spell", hole(L))
        out += J.many(["inline", "leaf", "container"], hole(L), "h_spell")
        out += J.lengthy(["inline alone", "leaf alone", "container"], L, "h_spell")
        out += J.block_pairs("h_spell", hole(L), t)
        for w in (J.N2, J.N3, J.N4):
            out += J.built(["inline alone", "leaf alone", "container"], w, "a wide character", "h_spell")
        return out
    if p == "D04":
        fn = "h_by_hand"
        few = hole(range(0, 9 if t else 5))
        forms = [("a range", lit("s") + few * 2), ("a text of 1", lit("m") + hole()), ("a text of 2", lit("m") + hole(ASCII, 2)), ("no text", lit("m")), ("a text of 12", tm("m", "abcdefghijk", hole()))]
        if t:
            forms.append(("a text of 3", lit("m") + hole(ASCII, 3)))
        for n, x in (("a range", tm("s", b"\1\2")), ("a text", tm("mx")), ("no text", tm("m")), ("an empty range", tm("s", b"\0\0"))):
            for m, y in (("a range", tm("s", b"\1\2")), ("a text", tm("mx")), ("no text", tm("m")), ("an empty range", tm("s", b"\0\0"))):
                out.append(Job("any two events, of %s and %s" % (n, m), fn, [0, 0, hole(J.EVENTS, 2), x, y]))
        for n, x in forms:
            for m, y in forms:
                for shift in (0, 7, 8, 16, 24, 31, 32, 48, 56) if n == m == "a range" else (0,):
                    for k in (b"\x30\x30", b"\1\1", b"\x18\x18", b"\1\2"):
                        out.append(Job("%s and %s (<< %d) in events %r" % (n, m, shift, k), fn, [0, shift, lit(k), x, y]))
        for text in ("a\u00e9\u20ac\U0001f600b", "", "ab\n", "x" * 300):
            for n, x in forms:
                out.append(Job("%s of a source of %d" % (n, len(text)), fn, [1, lit(text), x]))
            out.append(Job("any range of a source of %d" % len(text), fn, [1, lit(text), lit("s") + hole(range(0, min(120, len(text.encode()) + 2)), 2)]))
        kind, flag = hole(range(22)), hole(b"eu")
        for shift in (0, 8, 32, 56):
            for place in range(1, 6):
                base = [lit("\0")] + [lit(bytes([n])) for n in (1, 4, 1, 3, 2)] + [lit("u")]
                x, y = list(base), list(base)
                x[place] = y[place] = hole(ASCII)
                out.append(Job("two tokens with number %d (<< %d) open" % (place, shift), fn, [2, shift, sum(x, []), sum(y, [])]))
                for other in range(place + 1, 6):
                    x2, y2 = list(x), list(y)
                    x2[other] = y2[other] = few
                    out.append(Job("two tokens with numbers %d and %d (<< %d) open" % (place, other, shift), fn, [2, shift, sum(x2, []), sum(y2, [])]))
        rest = lit(b"\1\4\1\3\2")
        out.append(Job("two tokens of any kind", fn, [2, 0, kind + rest + flag, kind + rest + flag]))
        return out
    if p in ("D01", "D02"):
        what = 1 if p == "D01" else 2
        src = lit("## ab")
        for n in range(0, 4):
            out.append(Job("any %d events" % n, "h_ops", [what, src, hole(J.EVENTS, n)]))
        if t:
            out.append(Job("any 4 events", "h_ops", [what, src, hole(J.EVENTS, 4)]))
        out += J.trees(what, src, t)
        # nested deep, and long
        for name, nest in J.DEEP_NESTS:
            for n in (300, 66000 if name in ("Collapsible", "Document") and t else 9):
                for ev in (hole(J.EVENTS), J.V + hole(J.EVENTS) if n < 1000 else J.V):
                    out.append(Job("an event inside %d of %s" % (n, name), "h_ops", [what, src, J.wrapped(nest(n), ev)]))
                    out.append(Job("%d of %s, then an event" % (n, name), "h_ops", [what, src, J.S("Document") + J.wrapped(nest(1), J.V) * n + J.E("Document") + ev]))
        for nest in J.NESTS:
            label = "/".join(nest)
            for n in range(1, 4 if t else 3):
                ev = hole(J.EVENTS, n)
                out.append(Job("any %d events inside %s" % (n, label), "h_ops", [what, src, J.wrapped(nest, ev)]))
                out.append(Job("any %d events after %s" % (n, label), "h_ops", [what, src, J.S(*nest) + ev]))
            if len(nest) > 1:
                mid = J.wrapped(nest[:-1], J.wrapped(nest[-1:], J.V) + hole(J.EVENTS, 2))
                out.append(Job("any 2 events after a complete %s" % label, "h_ops", [what, src, mid]))
                mid = J.wrapped(nest[:-1], hole(J.EVENTS, 2) + J.wrapped(nest[-1:], J.V))
                out.append(Job("any 2 events before a complete %s" % label, "h_ops", [what, src, mid]))
                if not t and nest not in J.MAIN_NESTS:
                    continue
                # a run of two nodes of any kind, each with a value
                mid = J.wrapped(nest, hole(J.EVENTS) + J.V + hole(J.EVENTS) + hole(J.EVENTS) + J.V + hole(J.EVENTS))
                out.append(Job("any two nodes with a value inside %s" % label, "h_ops", [what, src, mid]))
                # anchors and images need two children
                mid = J.wrapped(nest, hole(J.EVENTS) + J.wrapped(["Title"], J.V) + J.wrapped(["Destination"], J.V) + hole(J.EVENTS))
                out.append(Job("any node with title and destination inside %s" % label, "h_ops", [what, src, mid]))
        return out
    if p in ("E01", "E02"):
        fd, fa, what = ("h_json_doc", "h_json_ast", [3]) if p == "E01" else ("h_form_doc", "h_form_ast", [])
        for k in range(0, 4 if t else 3):
            out.append(Job("any text of %d" % k, fd, what + [hole(ASCII, k)]))
        for n, x in J.wide(2 if p == "E01" else 1, narrow=True) + [(repr(d), lit(d)) for g in J.ALL for d in J.CORPUS[g]]:
            out.append(Job(n, fd, what + [x]))
        if t:
            for n, x in J.near(J.ALL, insert=False):
                out.append(Job(n, fd, what + [x]))
        for k in range(0, 3 if t else 2):
            out += J.built(["inline alone", "leaf alone", "container"], hole(ASCII, k), "any text of %d" % k, fa)
        for w in (J.N2, J.N3, J.N4):
            out += J.built(["inline alone", "leaf alone", "container"], w, "a wide character", fa)
        out += odd(fa, [lit("x"), lit("\"\n\\")])
        out += levels(fa, hole())
        out += any_level(fa, hole())
        out += J.block_pairs(fa, hole(), False)
        for n, a in J.bare_kinds().items():
            out.append(Job(n, fa, J.doc(a)))
            for m in ("break", "empty paragraph", "empty title"):
                out.append(Job("%s next to %s in a collapsible" % (n, m), fa, J.doc(J.col(lit(""), a, J.bare_kinds()[m], a), meta=lit(""))))
        if p == "E01":
            out += J.texts(["inline alone", "leaf alone", "container"], fa, False, None if t else ("\na", "\\a", "\r\na"))
        # serde_json reads at most 128 nested values
        out += J.many(["inline", "leaf", "container"], hole(), fa, deep=20)
        return out
    raise SystemExit("unknown property " + p)


NOT_SLASH = ASCII - {92}


def odd(fn, texts):
    """documents the parser never produces"""
    out = []
    for s in texts:
        t = lambda x=s: J.kids(J.text(x))
        for name, d in [
            ("no blocks", J.doc()),
            ("an empty paragraph", J.doc(J.par())),
            ("an empty heading", J.doc(J.head(1))),
            ("heading level 0", J.doc(J.head(0, J.h_text(s)))),
            ("heading level 255", J.doc(J.head(255, J.h_text(s)))),
            ("no images", J.doc(J.imgs())),
            ("one image", J.doc(J.imgs((s, s)))),
            ("an empty list", J.doc(J.lst(0))),
            ("an empty nested list", J.doc(J.lst(1, J.item(t(), J.items(0))))),
            ("an empty bold", J.doc(J.par(J.bold()))),
            ("two texts in a row", J.doc(J.par(J.text(s), J.text(s)))),
            ("an empty highlight paragraph", J.doc(J.hl(None, None, [0], t(), [0]))),
            ("an empty collapsible", J.doc(J.col(s))),
            ("empty metadata", J.doc(meta=[])),
            ("two of each span", J.doc(J.par(J.ital(s), J.ital(s), J.span(s), J.span(s), J.emph(s), J.bold(J.b_text(s))))),
        ]:
            out.append(Job(name, fn, d))
    return out


def levels(fn, s):
    return [Job("heading level %d" % n, fn, J.doc(J.head(n, J.h_text(s), J.h_anch(s, s)))) for n in range(1, 7)]


FAR = sorted({(1 << k) + d for k in range(3, 63) for d in (-1, 0, 1)})


def any_level(fn, s, most=1 << 64):
    """lists and headings at levels no text gives them"""
    out = []
    for n in FAR:
        if n <= most:
            for kind in (0, 1):
                out.append(Job("a list of level %d" % n, fn, J.doc(J.lst(n << 1 | kind, J.item(J.kids(J.text(s)), J.items(n % 8 << 1, J.item(J.kids(J.text("x")))))))))
    for n in range(256):
        out.append(Job("a heading of level %d" % n, fn, J.doc(J.head(n, J.h_text(s)))))
    return out


def pairs(fn, s, n):
    """two inline nodes side by side, of every two kinds that do not run together"""
    kinds = {"t": J.text(s), "*": J.emph(s), "**": J.bold(J.b_text(s)), "_": J.ital(s), "~": J.strike(s), "`": J.span(s), "[": J.anch(s, "u")}
    fixed = {"t": J.text("x"), "*": J.emph("x"), "**": J.bold(J.b_text("x")), "_": J.ital("x"), "~": J.strike("x"), "`": J.span("x"), "[": J.anch("x", "u")}
    out = []
    for a in kinds:
        for b in kinds:
            if a[0] == b[0] and a != "[":
                continue
            out.append(Job("%s then %s" % (a, b), fn, J.doc(J.par(kinds[a], kinds[b]))))
            out.append(Job("%s then %s in a list" % (a, b), fn, J.doc(J.lst(0, J.item(J.kids(kinds[a], fixed[b])), J.item(J.kids(fixed[a], kinds[b]))))))
            for c in fixed:
                if (c[0] == b[0] and c != "["):
                    continue
                out.append(Job("%s, %s, %s" % (a, b, c), fn, J.doc(J.par(fixed[a], kinds[b], fixed[c]))))
    return out


# native probes for the findings of known-findings.txt that no job reaches
FINDINGS = {"deep-collapsibles": Job("deep collapsibles", "h_total", [lit("{% t\n" * 100000 + "%}\n" * 100000)])}

ALL = ["A01", "A02", "A03"] + ["B%02d" % i for i in range(1, 17)] + ["C%02d" % i for i in range(1, 8)] + ["D01", "D02", "D03", "D04", "E01", "E02", "F01"]

if __name__ == "__main__":
    for p in ALL:
        print(p, [len(make(p, x)) for x in ("quick", "thorough")])
