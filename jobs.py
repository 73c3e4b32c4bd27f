"""Jobs: for each property the templates whose symbolic holes the engine decides.

A template is a list of elements; an element is a pair (word, domain): a concrete byte
(word < 256, no domain), a symbolic byte (256, the set of its values), or a symbolic choice
among the pieces of an alphabet (300 + i, indices)."""
import ast
import os
import re
from itertools import product

HERE = os.path.dirname(os.path.abspath(__file__))


def _tables():
    src = open(os.path.join(HERE, "harness/src/pieces.rs"), encoding="utf-8").read()
    out = {}
    for i, (name, body) in enumerate(re.findall(r"/\* (\w+) \*/ &\[(.*?)\],\n", src)):
        lits = re.findall(r'"(?:[^"\\]|\\.)*"', body)
        out[name] = (i, [ast.literal_eval(re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: "\\U%08x" % int(m.group(1), 16), x)) for x in lits])
    return out


TABLES = _tables()
ASCII = frozenset(range(128))
CONT = frozenset(range(0x80, 0xC0))
PRINT = frozenset(range(32, 127))
LETTERS = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")


def lit(s):
    return [(b, None) for b in (s if isinstance(s, bytes) else s.encode())]


def hole(dom=ASCII, n=1):
    return [(256, frozenset(dom))] * n


def pick(name, n=1):
    i, t = TABLES[name]
    return [(300 + i, frozenset(range(len(t))))] * n


U2 = hole(range(0xC2, 0xE0)) + hole(CONT)
U3 = hole(range(0xE1, 0xED)) + hole(CONT, 2)
U4 = hole(range(0xF1, 0xF4)) + hole(CONT, 3)
# characters of a fixed leading part, whose last byte is open
N2 = lit(b"\xc2") + hole(CONT)
N3 = lit(b"\xe2\x80") + hole(CONT)
N4 = lit(b"\xf0\x9f\x98") + hole(CONT)
# with N2 and N3, all of Unicode's white space and invisible characters
SPACES = [lit(b"\xe1\x9a\x80"), lit(b"\xe2\x81") + hole(CONT), lit(b"\xe3\x80") + hole(CONT), lit(b"\xef\xbb") + hole(CONT)]


def tm(*parts):
    """A template from literals (str) and element lists; `?` has no special meaning."""
    out = []
    for p in parts:
        out += lit(p) if isinstance(p, (str, bytes)) else p
    return out


def fill(s, h=None):
    """A template from a string in which each U+25A1 (white square) is an ASCII hole."""
    out = []
    for c in s:
        out += (h or hole()) if c == "\u25a1" else lit(c)
    return out


class Job:
    def __init__(self, name, fn, parts, need=0):
        """parts: configuration words (int) and templates (list), in the order the harness reads them"""
        self.name, self.fn, self.need = name, fn, need
        self.cfg, self.doms = [], []
        for p in parts:
            if isinstance(p, int):
                self.cfg.append(p)
            else:
                self.cfg.append(len(p))
                for w, d in p:
                    self.cfg.append(w)
                    if d is not None:
                        self.doms.append(d)

    def text(self):
        def hx(d):
            v = 0
            for b in d:
                v |= 1 << b
            return "%064x" % v

        return "job %s\nfn %s\ncfg %s\ndom %s\nneed %d\nend\n" % (
            self.name, self.fn, " ".join(map(str, self.cfg)), " ".join(map(hx, self.doms)), self.need)


# ------------------------------------------------------------------ document families

CORPUS = {
    "inline": [
        "a *b* _c_ ~~d~~ `e` [f](g)",
        "**a _b_ c ~~d~~ e**",
        "**_a_~~b~~**",
        "*a* **b** *c",
        "[a](b(c)d) [e]",
        "_a\nb_ `c\nd`",
        "~~a~~**b**_c_`d`",
        "a \\*b\\* \\[c](d)",
        "**a*b*c**",
        "`a *b* c` _d **e** f_",
    ],
    "list": [
        "- a\n- b\n + c\n + d\n  - e\n- f",
        "+ a\n - b\n  + c\n   - d\n + e\n+ f",
        "- a\nb\n- c\n\n- d",
        "- a\n+ b",
        "- [a](b) *c*\n - **d**\n\ne",
        "+ a\n  - b\n- c",
        "- a\n - b\n  - c\n - d\n- e",
    ],
    "leaf": [
        "# a [b](c) d\n\n## e\n\n###### f",
        "####### a\n\n#b\n\n# c\nd",
        "```r\na\nb\n```\nc\n\n```\n\n```",
        "![a](b)\n![c](d)\n\n![e](f)",
        "![a](b)c\n\n![d](e)\n",
        "{{a|b}}\nc\n\n{{d|e|f}}\n\n{{g}}",
        "-----\n\na\n\n-----\n\n----",
        "---\na: b\nc\n---\n\nd",
        "---\n---\na\n\n---\nb\n---",
        "# a [b](c)[d](e\n\n# [f](g)",
        "```\na\n\n`b`\n ```\n```\n\nd",
        "## 1\n\n### 2\n\n#### 3\n\n##### 4",
    ],
    "container": [
        "!! t\n! i\na *b*\n\nc\n!!",
        "!!\na\n!!\nb",
        "!! t\na\n\nb\n\nc\n!!\n\nd",
        "!! t\n! i\n\na\n!!\n!!\nb\n!!",
        "!! t\n- a\n# b\n!!",
        "{% t\na\n\n# b\n\n- c\n - d\n%}",
        "{% t\n{% u\na\n%}\n\nb\n%}\n\nc",
        "{% t\n!! h\na\n!!\n\n```\nb\n```\n%}",
        "{% t\n![a](b)\n![c](d)\n%}\ne",
        "{% t\n{{a|b}}\n\n-----\n%}",
        "{% a\n{% b\n{% c\nd\n%}\n%}\n%}",
        "{% t\na\n\n{% u\nb",
        "!! t\n! i\nno end\n\na",
        "{%\n- a\n%}\n\n{% b\n%}",
    ],
    "mixed": [
        "# a\n\nb **c**\n\n- d\n - e\n\n```f\ng\n```\n\n!! h\ni\n!!\n\n{{j|k}}",
        "a\n\n\nb\n\n\n\nc\n",
        "\n\na\n\n# b\n\n\n",
        "a\r\nb\r\n\r\n- c\r\n- d\r\n",
        "\u00e9 **\u20ac** [\U0001f600](\u00e9)\n\n# \u20ac",
        "{% \u00e9\n- \u20ac\n%}\n\n`\U0001f600`",
        "!! \u00e9\n! \u20ac\n\U0001f600\n!!",
        "a\n# b\n- c\n!! d",
        "- a\n# b\n\n# c\n- d",
    ],
}

# long enough for work in blocks of 8 to 32 bytes
CORPUS["long"] = [
    "abcdefg " * 8 + "*i*",
    "```\n" + "0123456789abcdef" * 4 + "\n```\n\nb",
    "{% " + "t" * 40 + "\n" + "b" * 40 + "\n%}",
    "!! " + "t" * 36 + "\n! " + "i" * 36 + "\nb\n!!",
    "- " + "a" * 40 + "\n - " + "b" * 40,
    "[" + "a" * 40 + "](" + "u" * 40 + ")",
    "{{" + "k" * 40 + "|" + "v" * 40 + "}}",
    "---\n" + "m" * 70 + "\n---\n\nx",
    "\u00e9\u20ac" * 12 + " **" + "\U0001f600" * 10 + "**",
    "# " + "h" * 40 + " [a](b)\n\n![" + "i" * 20 + "](" + "s" * 20 + ")",
]

SCALE = [
    ("hashes", tm(b"#" * 257, hole(), "a")),
    ("spaces", tm("a", " " * 300, hole(), "b")),
    ("bangs", tm("!" * 258, hole())),
    ("minus", tm("-" * 259, hole())),
    ("rows", tm("a\n" * 260, hole(), "- b\n- c")),
    ("column", tm("b" * 300, hole(), "*c*")),
    ("wide column", tm("\u00e9" * 140, hole(), "_c_")),
    ("deep list", tm("".join(" " * i + "- a\n" for i in range(12)), hole(), "b")),
    ("alternating list", tm("".join(" " * i + "-+"[i % 2] + " a\n" for i in range(9)), " " * 4, hole(), " b")),
    ("deep collapsible", tm("{% t\n" * 9, hole(), "\n%}" * 9)),
    ("open collapsibles", tm("{% t\n" * 8, hole(), "\n%}" * 7)),
    ("many blocks", tm("a\n\n" * 20, hole(), "\n\nb")),
    ("many spans", tm("*a* _b_ " * 12, hole(), "c_")),
    ("long code", tm("```\n" + "x = 1\n" * 30, hole(), "\n```")),
    ("brackets", tm("[" * 20, hole(), "](a)")),
    ("parentheses", tm("[a](" + "(" * 12, hole(), ")" * 13)),
    ("escapes", tm("\\a" * 40, hole(), "b")),
    ("terminators", tm("\n" * 40, hole(), "a")),
    ("long images", tm("![a](b)\n" * 12, hole())),
    ("wide list", tm("- a\n" * 30, hole(), " b")),
    ("wide highlight", tm("!! t\n" + "a\n\n" * 12, hole(), "\n!!")),
    # more than 256 of each thing that can be counted
    ("256 parentheses", tm("[a](" + "(" * 259, hole(), ")" * 260 + "b")),
    ("256 parentheses of an image", tm("![a](" + "(" * 259, hole(), ")" * 260)),
    ("256 brackets", tm("[" * 258 + "a](b)", hole())),
    ("256 items", tm("- a\n" * 259, hole(), " b\n- c")),
    ("256 images", tm("![a](b)\n" * 258, hole())),
    ("256 anchors in a heading", tm("# " + "[a](b)" * 258, hole())),
    ("256 blocks", tm("a\n\n" * 258, hole(), "\n\nb")),
    ("256 spans", tm("*a* _b_ " * 129, hole(), "c_")),
    ("256 spans in bold", tm("**" + "_b_ ~~c~~" * 129, hole(), "**")),
    ("256 paragraphs", tm("!! t\n" + "a\n\n" * 258, hole(), "\n!!")),
    ("256 lines of code", tm("```\n" + "x\n" * 258, hole(), "\n```")),
    ("256 columns of a list", tm("- " + "a" * 256 + "\n", hole(), "- b")),
    ("256 escapes", tm("\\a" * 258, hole(), "b")),
    ("256 empty lines", tm("a" + "\n" * 258, hole(), "b")),
    ("256 backticks", tm("`" * 259, hole(), "\n```")),
    ("256 braces", tm("{" * 258 + "a|b", hole(), "}" * 258)),
    ("256 embed arguments", tm("{{a" + "|b" * 258, hole(), "}}")),
    ("256 tildes", tm("~" * 258 + "a", hole(), "~~")),
    ("256 stars", tm("*" * 259 + "a", hole(), "**")),
    ("256 lines of metadata", tm("---\n" + "a: b\n" * 258, hole(), "\n---\n\nb")),
    ("256 spaces of a list", tm("- a\n" + " " * 257, hole(), "- b")),
    ("256 collapsibles side by side", tm("{% t\n%}\n" * 130, hole(), "\n")),
    ("256 levels of a list", tm("".join(" " * i + "- a\n" for i in range(258)), hole(), "b")),
    ("256 collapsibles", tm("{% t\n" * 258, hole(), "\n%}" * 258)),
]
# more than 65536 of a thing
_H = hole(b"a\n")
HUGE = [
    ("65536 parentheses", tm("[a](" + "(" * 65537, hole(b"a)"), ")" * 65538 + "b")),
    ("65536 items", tm("- a\n" * 65537, _H, "b")),
    ("65536 spaces", tm("a" + " " * 65537, _H, "b")),
    ("65536 columns", tm("\u00e9" * 32800 + "a" * 32800, _H, "*c*")),
    ("65536 empty lines", tm("a" + "\n" * 65537, _H, "b")),
    ("65536 paragraphs", tm("a\n\n" * 32800, _H, "\n\n# b")),
    ("65536 escapes", tm("\\a" * 65537, _H, "b")),
    ("65536 hashes", tm("#" * 65537, hole(b" #"), "a")),
    ("65536 brackets", tm("[" * 33000 + "a](b)", _H)),
    ("65536 lines of code", tm("```\n" + "x\n" * 65537, _H, "\n```")),
    ("65536 spans", tm("**" + "_b_" * 32800, hole(b"a*"), "**")),
    ("65536 images", tm("![a](b)\n" * 65537, _H)),
    ("65536 paragraphs of a highlight", tm("!! t\n" + "a\n\n" * 65537, _H, "\n!!")),
]

# all kinds of blocks in one long document, and the same far from its start
_E = [d for g in ("mixed", "inline", "list", "leaf", "container") for d in CORPUS[g] if "\r" not in d]
for _k in range(0, len(_E), 7):
    SCALE.append(("everything, open after %d" % _k, tm("\n\n".join(_E[:_k]), "\n\n", hole(), "\n\n".join(_E[_k:]))))
HUGE.append(("everything after 66000 characters", tm("a b\n" * 16500, "\n", "\n\n".join(_E), hole(b"a\n"), "b")))
HUGE.append(("everything after 66000 rows", tm("\n" * 66000, "\n\n".join(_E), hole(b"a\n"), "b")))
_C = [d for d in _E if d.count("{%") == d.count("\n%}") and "no end" not in d]
for _k in range(0, len(_C), 5):
    SCALE.append(("everything from %d, twelve collapsibles deep" % _k, tm("{% t\n" * 12, "\n\n".join(_C[_k:_k + 5]), hole(), "\n%}" * 12)))
SCALE.append(("every block 70 collapsibles deep", tm("{% t\n" * 70, "# a [b](c)\n\n- a\n - b\n- c\n\n!! t\n! i\na\n\nb\n!!\n\n```r\na\n```\n![a](b)\n![c](d)\n\n{{a|b}}\n-----\n\n**a _b_** *c*", hole(), "\n%}" * 70)))
HUGE.append(("everything 30 times", tm(("\n\n".join(_C) + "\n\n") * 30, hole(b"a\n"), "b")))

# two ASCII holes each
HOLES = {
    "inline": ["*\u25a1a\u25a1*", "**\u25a1**\u25a1", "[\u25a1](\u25a1)", "_a\u25a1b_\u25a1", "**_\u25a1_\u25a1**", "~~\u25a1~\u25a1~~",
               "`\u25a1\\\u25a1`", "\\\u25a1*a*\u25a1"],
    "list": ["- a\n\u25a1\u25a1 b", "- a\n \u25a1\u25a1b", "\u25a1 a\n\u25a1 b", " \u25a1 a\n\u25a1", "- a\n - b\n\u25a1\u25a1- c", "+ \u25a1\n+\u25a1a",
             "- a\n  - b\n \u25a1\u25a1c"],
    "leaf": ["#\u25a1\u25a1a", "# \u25a1a\u25a1", "```\u25a1\n\u25a1\n```", "```\na\n```\u25a1\u25a1", "![a](b)\u25a1\u25a1[c](d)", "{{\u25a1|\u25a1}}", "{{a|b}}\u25a1\u25a1",
             "-----\u25a1\u25a1", "---\u25a1a\u25a1---", "--\u25a1\u25a1\na\n---\nb", "![\u25a1](\u25a1)", "\n-----\u25a1\u25a1a"],
    "container": ["!!\u25a1t\n\u25a1a\n!!", "!! t\n!\u25a1i\u25a1a\n!!", "!! t\na\u25a1\u25a1!!", "!! t\na\n!!\u25a1\u25a1", "{%\u25a1t\n\u25a1a\n%}", "{% t\na\u25a1\u25a1%}",
                  "{% t\na\n%\u25a1\u25a1", "{% t\n{% u\n\u25a1\n%}\u25a1%}", "{% t\n- a\n\u25a1\u25a1\n%}", "!! t\n\u25a1\u25a1a\n\n!!"],
    "mixed": ["a\u25a1\u25a1b\n\nc", "a\n\n\u25a1\u25a1b", "# a\u25a1\u25a1- b", "\r\u25a1a\u25a1\n", "\\\u25a1\n\u25a1", "{\u25a1a\u25a1}", "a\r\n\u25a1\u25a1\r\nb"],
}


def free(n):
    return [("any ASCII text of %d" % k, hole(ASCII, k)) for k in range(n + 1)]


def wide(n, narrow=False):
    out = []
    w = {"2": N2, "3": N3, "4": N4} if narrow else {"2": U2, "3": U3, "4": U4}
    for k in range(1, n + 1):
        for shape in product("A234", repeat=k):
            if set(shape) != {"A"}:
                out.append(("characters of %s bytes" % "+".join(x.replace("A", "1") for x in shape),
                            sum((hole() if x == "A" else w[x] for x in shape), [])))
    return out


def pieces(name, n, least=1):
    return [("%d pieces of %s" % (k, name), pick(name, k)) for k in range(least, n + 1)]


def small(alphabet, n):
    return [("text of %d over %r" % (n, alphabet), hole(alphabet.encode(), n))]


def near(groups, insert=True, width=1):
    """corpus documents with one place made symbolic"""
    return [x for g in groups for d in CORPUS[g] for x in near_of(d, insert, width)]


def near_of(d, insert=True, width=1, dom=ASCII):
    out = []
    b = d.encode()
    starts = [i for i in range(len(b)) if b[i] & 0xC0 != 0x80] + [len(b)]
    for a, i in enumerate(starts[:-1]):
        j = starts[min(a + width, len(starts) - 1)]
        out.append(("%r with place %d open" % (d, i), tm(b[:i], hole(dom, width), b[j:])))
    if insert:
        for i in starts:
            out.append(("%r with an insertion at %d" % (d, i), tm(b[:i], hole(dom, width), b[i:])))
    return out


def twice(jobs):
    """the same configuration two times, with places of its own each time"""
    for j in jobs:
        j.cfg, j.doms = j.cfg * 2, j.doms * 2
    return jobs


def odd(groups, wide=None):
    """corpus documents with a character beyond ASCII put in, or in place of another, anywhere"""
    out = []
    for g in groups:
        for d in CORPUS[g]:
            b = d.encode()
            starts = [i for i in range(len(b)) if b[i] & 0xC0 != 0x80] + [len(b)]
            for a, i in enumerate(starts):
                out.append(("%r with an odd character at %d" % (d, i), tm(b[:i], pick("odd"), b[i:])))
                for n, u in enumerate(wide or (U2, U3, U4)):
                    out.append(("%r with a wide character (%d) at %d" % (d, n, i), tm(b[:i], u, b[i:])))
                if i < len(b):
                    out.append(("%r with place %d odd" % (d, i), tm(b[:i], pick("odd"), b[starts[a + 1]:])))
    return out


MARKS = "*_~`!#-+[](){}|%>"


def tiny(deep=False):
    """longer texts over very small alphabets: every pattern of runs of one or two markers"""
    out = []
    k = 2 if deep else 0
    for c in MARKS + "\n \\":
        for other, n in (("a", 10), ("\n", 10), (" ", 9), (" a", 6), ("\na", 6), ("\\a", 6), (" \n", 6), ("\\\n", 6)):
            if c not in other:
                out += small(c + other, n + k)
    for i, c in enumerate(MARKS):
        for d in MARKS[:i]:
            out += small(c + d + "a", 5 + k) + small(c + d + " \n", 4 + k)
    return out


def lines(groups, alphabet, deep=False):
    """corpus documents with a marker put in at two line ends or starts"""
    out = []
    p = pick(alphabet)
    for g in groups:
        for d in CORPUS[g]:
            b = d.encode()
            at = sorted({0, len(b)} | {i for i in range(len(b)) if b[i:i + 1] == b"\n"} | {i + 1 for i in range(len(b)) if b[i:i + 1] == b"\n"})
            for x, i in enumerate(at):
                for j in at[x + 1:]:
                    out.append(("%r with markers at %d and %d" % (d, i, j), tm(b[:i], p, b[i:j], p, b[j:])))
    return out


def combos(deep=False):
    """constructs left open or spoilt, and whole ones, in every order"""
    b, w, s = pick("broken"), pick("whole"), pick("sep")
    out = [("a broken form, then a whole one", b + s + w), ("a whole form, then a broken one", w + s + b), ("two broken forms", b + s + b), ("two whole forms", w + s + w)]
    for o, c in (("{% t\n", "\n%}"), ("!! t\n", "\n!!"), ("- ", ""), ("x\n\n", "\n\ny")):
        for n, x in (("a broken form", b), ("a whole form", w)):
            out.append(("%s inside %r" % (n, o), tm(o, x, hole(), c)))
        out.append(("broken and whole inside %r" % o, tm(o, b + lit("\n\n") + w, c)))
        out.append(("broken and whole on lines inside %r" % o, tm(o, b + lit("\n") + w, c)))
    out += [("two broken forms, then a whole one", b + lit("\n\n") + b + s + w), ("broken, whole, broken", b + lit("\n\n") + w + lit("\n") + b)]
    if deep:
        out += [("broken, whole, whole", b + lit("\n") + w + s + w), ("whole, whole, whole", w + s + w + s + w)]
    return out


def holes(groups):
    return [("%r" % s.replace("\u25a1", "?"), fill(s)) for g in groups for s in HOLES[g]]


ALL = ["inline", "list", "leaf", "container", "mixed"]

# ------------------------------------------------------------------ documents built by hand

P, HEAD, IMG, IMGS, CODE, LIST, HL, BREAK, EMB, COL = range(10)
TXT, BOLD, ITAL, STRIKE, SPAN, EMPH, ANCH = range(7)
X = lit("x")


def flat(*p):
    out = []
    for x in p:
        out += x if isinstance(x, list) and not (x and isinstance(x[0], tuple)) and x != [] else [x]
    return out


def t_(s):
    return [s] if isinstance(s, list) else [lit(s)]


# each constructor returns a list of parts
def text(s):
    return [TXT] + t_(s)


def bold(*kids):
    return [BOLD, len(kids)] + sum(kids, [])


def b_text(s):
    return [0] + t_(s)


def b_ital(s):
    return [1] + t_(s)


def b_strike(s):
    return [2] + t_(s)


def ital(s):
    return [ITAL] + t_(s)


def strike(s):
    return [STRIKE] + t_(s)


def span(s):
    return [SPAN] + t_(s)


def emph(s):
    return [EMPH] + t_(s)


def anch(a, u):
    return [ANCH] + t_(a) + t_(u)


def par(*kids):
    return [P, len(kids)] + sum(kids, [])


def kids(*k):
    return [len(k)] + sum(k, [])


def head(level, *k):
    return [HEAD, level, len(k)] + sum(k, [])


def h_text(s):
    return [0] + t_(s)


def h_anch(a, u):
    return [1] + t_(a) + t_(u)


def img(a, s):
    return [IMG] + t_(a) + t_(s)


def imgs(*pairs):
    return [IMGS, len(pairs)] + sum((t_(a) + t_(s) for a, s in pairs), [])


def code(l, c):
    return [CODE] + t_(l) + t_(c)


def items(ordered, *its):
    return [ordered, len(its)] + sum(its, [])


def item(inl, nested=None):
    return inl + ([1] + nested if nested else [0])


def lst(ordered, *its):
    return [LIST] + items(ordered, *its)


def opt(s):
    return [0] if s is None else [1] + t_(s)


def hl(title, icon, *paras):
    return [HL] + opt(title) + opt(icon) + [len(paras)] + sum(paras, [])


def emb(k, a):
    return [EMB] + t_(k) + t_(a)


def col(title, *blocks):
    return [COL] + t_(title) + [len(blocks)] + sum(blocks, [])


RULE = [BREAK]


def doc(*blocks, meta=None):
    return opt(meta) + [len(blocks)] + sum(blocks, [])


def inline_slots(s):
    """every inline position a text can stand in, as the content of a paragraph"""
    return {
        "text": kids(text(s)),
        "bold": kids(bold(b_text(s))),
        "bold italic": kids(bold(b_ital(s))),
        "bold strikethrough": kids(bold(b_strike(s))),
        "bold mixed": kids(bold(b_text("x"), b_ital("y"), b_text(s), b_strike("z"))),
        "italic": kids(ital(s)),
        "strikethrough": kids(strike(s)),
        "code span": kids(span(s)),
        "emphasis": kids(emph(s)),
        "anchor text": kids(anch(s, "u")),
        "anchor url": kids(anch("x", s)),
        "before": kids(text(s), anch("x", "u")),
        "between": kids(ital("x"), text(s), bold(b_text("y"))),
        "after": kids(span("x"), text(s)),
        "before emphasis": kids(text(s), emph("x")),
        "after bold": kids(bold(b_text("x")), text(s)),
        "before strikethrough": kids(text(s), strike("x"), text("y")),
    }


def inline_contexts(k):
    """the places inline content can stand in"""
    p = [P] + k
    return {
        "a paragraph": doc(p),
        "a paragraph between others": doc(par(text("x")), p, par(text("y"))),
        "a collapsible": doc(col("t", p)),
        "a nested collapsible": doc(col("t", col("u", p), par(text("y")))),
        "a highlight": doc(hl("t", "i", k)),
        "a highlight without title": doc(hl(None, None, k, kids(text("y")))),
        "a list item": doc(lst(0, item(k), item(kids(text("y"))))),
        "a nested list item": doc(lst(1, item(kids(text("x")), items(0, item(k), item(kids(text("y"))))))),
        "an item with a nested list": doc(lst(0, item(k, items(1, item(kids(text("y"))))), item(kids(text("z"))))),
        "a list in a collapsible": doc(col("t", lst(1, item(k))), par(text("y"))),
    }


def leaf_slots(s):
    return {
        "heading 1": head(1, h_text(s)),
        "heading 6": head(6, h_text(s)),
        "heading before anchor": head(2, h_text(s), h_anch("x", "u")),
        "heading after anchor": head(3, h_anch("x", "u"), h_text(s)),
        "heading anchor text": head(4, h_anch(s, "u")),
        "heading anchor url": head(5, h_anch("x", s)),
        "image alt": img(s, "u"),
        "image src": img("x", s),
        "images alt": imgs(("x", "u"), (s, "v")),
        "images src": imgs(("x", s), ("y", "v")),
        "code": code("l", s),
        "code language": code(s, "x"),
        "code without language": code("", s),
        "embed kind": emb(s, "x"),
        "embed arguments": emb("k", s),
    }


def leaf_contexts(b):
    return {
        "alone": doc(b),
        "between paragraphs": doc(par(text("x")), b, par(text("y"))),
        "in a collapsible": doc(col("t", b)),
        "in a nested collapsible": doc(col("t", par(text("x")), col("u", b, RULE)), RULE),
        "after metadata": doc(b, RULE, meta="m"),
    }


def container_docs(s):
    k = kids(text("x"))
    return {
        "highlight title": doc(hl(s, None, k)),
        "highlight title with icon": doc(hl(s, "i", k), par(text("y"))),
        "highlight icon": doc(hl("t", s, k)),
        "highlight icon without title": doc(hl(None, s, k)),
        "empty highlight title": doc(hl(s, None)),
        "empty highlight icon": doc(hl(None, s), par(text("y"))),
        "highlight title in a collapsible": doc(col("u", hl(s, "i", k))),
        "highlight icon in a collapsible": doc(col("u", hl("t", s, k), RULE)),
        "collapsible title": doc(col(s, par(text("x")))),
        "empty collapsible title": doc(col(s)),
        "nested collapsible title": doc(col("t", col(s, par(text("x"))), par(text("y")))),
        "nested empty collapsible title": doc(col("t", col(s))),
        "metadata": doc(par(text("x")), meta=s),
        "metadata alone": doc(meta=s),
        "metadata before a break": doc(RULE, meta=s),
        "second highlight paragraph": doc(hl("t", None, k, kids(text(s)), kids(text("y")))),
        "first highlight paragraph": doc(hl(None, None, kids(text(s)))),
        "deep list item": doc(lst(0, item(k, items(1, item(k, items(0, item(k, items(1, item(kids(text(s))))))), item(k))))),
        "items around a nested list": doc(lst(1, item(kids(text(s)), items(0, item(k))), item(k, items(1, item(kids(text("y"))))))),
        "lists of both kinds": doc(lst(0, item(k)), lst(1, item(kids(text(s)))), lst(0, item(k))),
        "item without text": doc(lst(0, item([0], items(1, item(kids(text(s))))), item([0]))),
        "paragraph after each block": doc(head(1, h_text("h")), par(text(s)), code("l", "c"), par(text("y"))),
        "paragraph after a list": doc(lst(0, item(k)), par(text(s)), RULE),
        "collapsible after collapsible": doc(col("t", par(text(s))), col("u", par(text("y")))),
    }


def built(groups, s, name, fn, pre=()):
    out = []
    if "inline" in groups:
        for slot, k in inline_slots(s).items():
            for ctx, d in inline_contexts(k).items():
                out.append(Job("%s as %s in %s" % (name, slot, ctx), fn, list(pre) + d))
    if "text" in groups:
        for ctx, d in inline_contexts(kids(text(s))).items():
            out.append(Job("%s as text in %s" % (name, ctx), fn, list(pre) + d))
    if "inline alone" in groups:
        for slot, k in inline_slots(s).items():
            out.append(Job("%s as %s" % (name, slot), fn, list(pre) + doc([P] + k)))
    if "leaf" in groups:
        for slot, b in leaf_slots(s).items():
            for ctx, d in leaf_contexts(b).items():
                out.append(Job("%s as %s %s" % (name, slot, ctx), fn, list(pre) + d))
    if "leaf alone" in groups:
        for slot, b in leaf_slots(s).items():
            out.append(Job("%s as %s" % (name, slot), fn, list(pre) + doc(b)))
    if "container" in groups:
        for slot, d in container_docs(s).items():
            out.append(Job("%s as %s" % (name, slot), fn, list(pre) + d))
    return out


def _chain(n, s):
    """a list n levels deep, its kinds changing"""
    it = item(kids(text(s)))
    for i in range(n):
        it = item(kids(text("x")), items((i // 3) % 2, it, item(kids(text("y")))) if i % 5 == 0 else items((i // 3) % 2, it))
    return lst(0, it)


def _inside(n, b):
    for _ in range(n):
        b = col("t", b)
    return b


def many(groups, s, fn, n=259, deep=259):
    """documents with more than 256 of a thing"""
    x = kids(text("x"))
    docs_ = {
        "inline": {
            "spans": doc(par(*([ital("x"), text(" ")] * (n // 2) + [span(s)]))),
            "spans in bold": doc(par(bold(*([b_ital("x"), b_text(" ")] * (n // 2) + [b_strike(s)])))),
            "anchors": doc(par(*([anch("x", "u")] * n + [anch(s, "u"), anch("x", s)]))),
            "characters of a text": doc(par(text(tm("x" * n, s, "y" * n)), ital(s))),
            "paragraphs": doc(*([par(text("x"))] * n + [par(text(s))])),
        },
        "leaf": {
            "anchors of a heading": doc(head(2, *([h_anch("x", "u")] * n + [h_text(s)]))),
            "images": doc(imgs(*([("x", "u")] * n + [(s, "v")]))),
            "image lines": doc(*([img("x", "u"), RULE] * n + [img("x", s)])),
            "lines of code": doc(code("l", tm("x\n" * n, s, "\ny")), par(text("z"))),
            "arguments": doc(emb("k", tm("|b" * n, s))),
            "breaks": doc(*([RULE] * n), emb(s, "x")),
        },
        "container": {
            "items": doc(lst(0, *([item(x)] * n + [item(kids(text(s)))]))),
            "levels": doc(_chain(min(40, deep), s)),
            "256 levels": doc(_chain(deep, s)),
            "paragraphs of a highlight": doc(hl("t", "i", *([x] * n + [kids(text(s))]))),
            "blocks of a collapsible": doc(col("t", *([par(text("x"))] * n + [par(text(s))]))),
            "collapsibles": doc(*([col("t", RULE)] * n + [col(s)])),
            "collapsibles in each other": doc(_inside(min(30, deep), par(text(s)))),
            "256 collapsibles in each other": doc(_inside(deep, col(s, RULE)), RULE),
            "lines of metadata": doc(par(text("x")), meta=tm("x\n" * n, s)),
            "lists": doc(*([lst(0, item(x)), lst(1, item(x))] * (n // 2) + [lst(0, item(kids(text(s))))])),
        },
    }
    return [Job("many %s" % name, fn, d) for g in groups for name, d in docs_[g].items()]


def lengthy(groups, dom, fn, n=40):
    """texts of n characters with one open place, around multiples of 8"""
    out = []
    for k in (0, 6, 7, 8, 15, 16, 31, 32, 38):
        s = tm("x" * k, hole(dom), "y" * (n - k - 1))
        out += built(groups, s, "text of %d open at %d" % (n, k), fn)
    return out


# ------------------------------------------------------------------ event streams

NODES = ["Anchor", "Bold", "Code", "CodeSpan", "Collapsible", "Destination", "Document", "Embed", "Emphasis", "Heading", "Highlight",
         "Icon", "Image", "Images", "Italic", "ListItem", "Modifier", "Metadata", "OrderedList", "Paragraph", "Strikethrough",
         "ThematicBreak", "Title", "UnorderedList"]
VALUE = 48
EVENTS = frozenset(range(49))


def S(*names):
    return [(NODES.index(n), None) for n in names]


def E(*names):
    return [(24 + NODES.index(n), None) for n in names]


V = [(VALUE, None)]


def wrapped(names, inner):
    return S(*names) + inner + E(*reversed(names))


NESTS = [
    ["Document"],
    ["Metadata"],
    ["Document", "Paragraph"],
    ["Document", "Paragraph", "Bold"],
    ["Document", "Paragraph", "Bold", "Italic"],
    ["Document", "Paragraph", "Anchor"],
    ["Document", "Paragraph", "Anchor", "Title"],
    ["Document", "Heading"],
    ["Document", "Heading", "Anchor", "Destination"],
    ["Document", "Image"],
    ["Document", "Images"],
    ["Document", "Images", "Image"],
    ["Document", "Code"],
    ["Document", "Code", "Modifier"],
    ["Document", "Embed"],
    ["Document", "ThematicBreak"],
    ["Document", "Highlight"],
    ["Document", "Highlight", "Paragraph"],
    ["Document", "Collapsible"],
    ["Document", "Collapsible", "Document"],
    ["Document", "Collapsible", "Document", "Collapsible", "Document"],
    ["Document", "UnorderedList"],
    ["Document", "UnorderedList", "ListItem"],
    ["Document", "OrderedList", "ListItem", "UnorderedList", "ListItem"],
    ["Document", "UnorderedList", "ListItem", "Paragraph"],
]

DEEP_NESTS = [(x, lambda n, x=x: [x] * n) for x in NODES] + [
    ("Collapsible/Document", lambda n: ["Document"] + ["Collapsible", "Document"] * n),
    ("UnorderedList/ListItem", lambda n: ["Document"] + ["UnorderedList", "ListItem"] * n),
    ("OrderedList/ListItem", lambda n: ["Document"] + ["OrderedList", "ListItem"] * n),
]
MAIN_NESTS = [["Document", "Paragraph"], ["Document", "Images", "Image"], ["Document", "Highlight"], ["Document", "UnorderedList", "ListItem"]]

# blocks as trees of events: a name with what stands in it, or None for a text
_P, _PB = ("Paragraph", [None]), ("Paragraph", [None, ("Bold", [None, ("Italic", [None]), None, ("Strikethrough", [None])]), ("CodeSpan", [None]), None])
_TD = [("Title", [None]), ("Destination", [None])]
_ITEM = ("ListItem", [_P, ("OrderedList", [("ListItem", [_P]), ("ListItem", [_PB])])])
TREES = [
    ("Metadata", [None, None]),
    ("Heading", [None, ("Anchor", _TD), None, ("Anchor", _TD)]),
    ("Paragraph", [None, ("Bold", [None, ("Italic", [None]), None, ("Strikethrough", [None, None])]), ("CodeSpan", [None]), None, ("Emphasis", [None, None]), ("Anchor", _TD)]),
    ("Code", [("Modifier", [None]), None, None, None]),
    ("Embed", [None] * 5),
    ("ThematicBreak", [None, None]),
    ("Image", _TD),
    ("Images", [("Image", _TD), ("Image", _TD), ("Image", _TD)]),
    ("Highlight", [("Modifier", [None]), ("Icon", [None]), _P, None, _PB, ("Paragraph", [])]),
    ("Collapsible", [("Modifier", [None]), ("Document", [_P, ("ThematicBreak", []), ("Embed", [None] * 3)])]),
    ("Collapsible", [("Modifier", [None]), ("Document", [("Collapsible", [("Modifier", [None]), ("Document", [_P])]), ("UnorderedList", [_ITEM])])]),
    ("UnorderedList", [_ITEM, ("ListItem", [_P]), ("ListItem", [("UnorderedList", [("ListItem", [])])])]),
    ("OrderedList", [("ListItem", [("Paragraph", [])]), _ITEM]),
]


def flat(tree):
    if tree is None:
        return V
    return S(tree[0]) + [e for k in tree[1] for e in flat(k)] + E(tree[0])


def variants(tree):
    """the tree with, somewhere, a child doubled, dropped or moved behind its neighbour, or the children turned round"""
    if tree is None:
        return
    name, kids = tree
    for i, k in enumerate(kids):
        yield name, kids[:i + 1] + kids[i:]
        yield name, kids[:i] + kids[i + 1:]
        if i + 1 < len(kids):
            yield name, kids[:i] + [kids[i + 1], k] + kids[i + 2:]
        for v in variants(k):
            yield name, kids[:i] + [v] + kids[i + 1:]
    if len(kids) > 2:
        yield name, kids[::-1]


def streams(tree):
    """(label, events) of a document with only this block, or metadata and an empty one"""
    if tree[0] == "Metadata":
        return flat(tree) + S("Document") + E("Document")
    return wrapped(["Document"], flat(tree))


def trees(what, src, deep):
    """block trees and their variants, with open events"""
    out = []
    for n, tree in enumerate(TREES):
        label = "%s (tree %d)" % (tree[0], n)
        ev = streams(tree)
        for i in range(len(ev) + 1):
            out.append(Job("%s with an event at %d" % (label, i), "h_ops", [what, src, ev[:i] + hole(EVENTS) + ev[i:]]))
            out.append(Job("%s with a node at %d" % (label, i), "h_ops", [what, src, ev[:i] + hole(range(24)) + V + hole(range(24, 48)) + ev[i:]]))
            if i < len(ev):
                out.append(Job("%s with event %d open" % (label, i), "h_ops", [what, src, ev[:i] + hole(EVENTS) + ev[i + 1:]]))
            out.append(Job("%s with two events at %d" % (label, i), "h_ops", [what, src, ev[:i] + hole(EVENTS, 2) + ev[i:]]))
        for m, v in enumerate(variants(tree)):
            ev = streams(v)
            for i in range(len(ev)) if deep else (len(ev) // 2, ):
                out.append(Job("%s, variant %d with event %d open" % (label, m, i), "h_ops", [what, src, ev[:i] + hole(EVENTS) + ev[i + 1:]]))
            out.append(Job("%s, variant %d" % (label, m), "h_ops", [what, src, ev]))
        for k, other in enumerate(TREES[1:]):
            if tree[0] != "Metadata":
                out.append(Job("%s, then tree %d" % (label, k + 1), "h_ops", [what, src, wrapped(["Document"], flat(tree) + hole({48, 21, 45}) + flat(other))]))
    return out


# ------------------------------------------------------------------ more built documents

TEXTS = [("\na", 6), ("\n\\", 5), ("\n ", 5), ("\n\\a", 4), ("*_a", 4), ("*a", 5), ("`\\", 5), ("`\n", 5), ("`a", 5), ("%}\\", 4), ("{%\n", 4), ("!\n", 5), ("! \n", 4),
         ("- \n", 5), ("+ \n", 5), ("-\n", 5), ("{|}", 4), ("[]\\", 4), ("()\\", 4), ("](a", 4), ("~a", 5), ("# a", 4), ("\\a", 6), ("![]", 4), ("\r\na", 4)]


def texts(groups, fn, deep=False, only=None):
    """longer texts over very small alphabets, and characters beyond ASCII"""
    out = []
    for a, n in TEXTS:
        if only is None or a in only:
            out += built(groups, hole(a.encode(), n + (1 if deep else 0)), "text of %d over %r" % (n, a), fn)
    out += built(groups, pick("odd"), "an odd character", fn)
    out += built(groups, tm("x", pick("odd"), "y"), "an odd character inside", fn)
    out += built(groups, tm("x ", pick("odd"), " y"), "an odd character of its own", fn)
    return out


def block_kinds(s):
    x = kids(text(s))
    return {
        "text": par(text(s)), "bold": par(bold(b_text(s))), "span": par(span(s)), "anchor": par(anch(s, "u")), "heading": head(2, h_text(s)), "heading with anchor": head(3, h_anch("x", s)),
        "image": img("x", s), "images": imgs((s, "u"), ("x", "v")), "code": code("", s), "code with language": code(s, "x"), "list": lst(0, item(x)), "ordered list": lst(1, item(x)),
        "nested list": lst(0, item(kids(text("y")), items(1, item(x)))), "highlight": hl(None, None, x), "highlight with icon": hl("t", s, kids(text("y"))), "highlight without body": hl(s, None), "break": RULE,
        "embed": emb("k", s), "collapsible": col("t", par(text(s))), "empty collapsible": col(s), "collapsible of a highlight": col("t", hl("t", None, x)),
    }


def bare_kinds():
    """nodes with parts missing or empty, or given more than once"""
    x, e, em = kids(text("x")), kids(), lit("")
    out = {
        "empty paragraph": par(), "paragraph of empty text": par(text(em)), "text in two": par(text("x"), text("x")), "text": par(text("x")), "text xx": par(text("xx")),
        "empty bold": par(bold()), "bold of empty text": par(bold(b_text(em))), "bold": par(bold(b_text("x"))), "bold in two": par(bold(b_text("x"), b_text("x"))),
        "bold twice": par(bold(b_text("x")), bold(b_text("x"))), "empty italic": par(ital(em)), "empty strikethrough": par(strike(em)), "empty span": par(span(em)), "empty emphasis": par(emph(em)),
        "empty anchor": par(anch(em, em)), "anchor text": par(anch("x", em)), "anchor url": par(anch(em, "x")),
        "empty image": img(em, em), "image alt": img("x", em), "image src": img(em, "x"), "no images": imgs(), "one image": imgs(("x", em)), "two images": imgs(("x", em), ("x", em)),
        "images in order": imgs(("x", "u"), ("y", "v")), "images the other way": imgs(("y", "v"), ("x", "u")),
        "empty code": code(em, em), "code": code(em, "x"), "language": code("x", em), "empty embed": emb(em, em), "embed kind": emb("x", em), "embed arguments": emb(em, "x"),
        "list": lst(0), "ordered list": lst(1), "list of an empty item": lst(0, item(e)), "ordered list of an empty item": lst(1, item(e)), "list of two empty items": lst(0, item(e), item(e)),
        "item with an empty list": lst(0, item(e, items(0))), "item with an empty ordered list": lst(0, item(e, items(1))), "list of an item": lst(0, item(x)), "item with text and an empty list": lst(0, item(x, items(0))),
        "item of a nested item": lst(0, item(e, items(0, item(x)))), "items": lst(0, item(x), item(e)), "items the other way": lst(0, item(e), item(x)),
        "nothing in a highlight": hl(None, None), "empty title": hl(em, None), "empty icon": hl(None, em), "empty title and icon": hl(em, em), "title": hl("x", None), "icon": hl(None, "x"),
        "highlight of an empty paragraph": hl(None, None, e), "highlight of two empty paragraphs": hl(None, None, e, e), "highlight": hl(None, None, x), "highlight in order": hl(None, None, x, e),
        "highlight the other way": hl(None, None, e, x), "break": RULE, "empty collapsible": col(em), "title of a collapsible": col("x"), "collapsible of an empty paragraph": col(em, par()),
        "collapsible of an empty collapsible": col(em, col(em)), "collapsible of a break": col(em, RULE), "collapsible of two breaks": col(em, RULE, RULE),
    }
    for l in (0, 1, 2, 6, 7, 127, 128, 255):
        out["heading %d" % l] = head(l)
    for l in (1, 2):
        out["heading %d of empty text" % l] = head(l, h_text(em))
        out["heading %d of an empty anchor" % l] = head(l, h_anch(em, em))
    return out


def block_pairs(fn, s, deep=False, kinds=None):
    """every two (three) blocks in a row"""
    open_, shut = block_kinds(s), block_kinds(X)
    out = []
    for a in open_:
        for b in open_:
            if kinds and a not in kinds and b not in kinds:
                continue
            out.append(Job("%s before %s" % (a, b), fn, doc(open_[a], shut[b])))
            out.append(Job("%s after %s" % (b, a), fn, doc(shut[a], open_[b])))
            out.append(Job("%s and %s in a collapsible" % (a, b), fn, doc(col("t", shut[a], open_[b]), shut[a], meta=s if b == "break" else None)))
            for c in open_ if deep else ():
                out.append(Job("%s, %s, %s" % (a, b, c), fn, doc(shut[a], open_[b], shut[c])))
    return out


BLOCKS_OF = {"C02": {"text", "bold", "span", "anchor"}, "C03": {"heading", "heading with anchor", "image", "images", "code", "code with language", "embed"}, "C04": None}
