//! Alphabets of document pieces.  A template element `300 + i` is one symbolic choice
//! from alphabet `i`; the runner reads this file for the names and sizes.
pub const TABLES: &[&[&str]] = &[
    /* list */ &["a", "\n", "- ", "+ ", " - ", " + ", "  - ", "   + ", " ", "\n\n", "*b*", "\\"],
    /* inline */ &["a", "*", "**", "_", "~~", "`", " ", "\\", "\n", "[a](b)", "\n\n", "~"],
    /* link */ &["[", "]", "(", ")", "!", "a", "\\", "\n", "![a](b)", "# ", "\n\n", "[a](b)"],
    /* code */ &["```", "\n", "a", "\n\n", "`", "\\", "{% t\n", "%}", "r", "``"],
    /* highlight */ &["!! t\n", "!!\n", "! i\n", "\n!!", "\n", "\n\n", "a", "!", "!!", " ", "**b**", "\\"],
    /* collapsible */ &["{% t\n", "{%\n", "\n%}", "%}", "\n", "\n\n", "a", "- a", "!! h\nb\n!!", "```\nc\n```", "\\", "{% "],
    /* embed */ &["{{", "}}", "|", "{", "}", "a", "\n", "\n\n", "\\", "b"],
    /* block */ &["a", "# h", "- i", "+ j", "```\nc\n```", "!! t\np\n!!", "{% t\nq\n%}", "{{y|z}}", "![a](b)", "-----", "*e*"],
    /* sep */ &["\n\n", "\n", "\n\n\n", " ", ""],
    /* heading */ &["# ", "## ", "###### ", "####### ", "#", " ", "a", "[a](b)", "\n", "\n\n", "\\", "["],
    /* eol */ &["\n", "\r\n", "\r", "a", "\\", "- ", "!!", "```", " ", "%}"],
    /* meta */ &["---", "\n", "a", "\n\n", "-", "\\", "--", "-----", "\r\n"],
    /* doc */ &["a", "b c", "\n", "\n\n", "# ", "- ", " + ", "!! t\n", "\n!!", "{% t\n", "\n%}", "```\n", "\n```", "{{k|v}}", "![a](b)", "**x**", "_y_", "-----", "\\"],
    /* wide */ &["\u{e9}", "\u{20ac}", "\u{1f600}", "a", "\\", "\n", "*", "# ", "- ", "`", "["],
    /* span */ &["**", "*", "_", "~~", "~", "`", "a", "b", "\\", "[a](b)"],
    /* nest */ &["- a\n", "+ b\n", " - c\n", " + d\n", "  - e\n", "  + f\n", "   - g\n", "x\n", "\n", "    + h\n"],
    /* text */ &["a", " ", "\n", "\\", "*", "_", "~", "`", "[", "]", "(", ")", "{", "}", "|", "%", "!", "#", "-", "+"],
    /* mark */ &["- ", "+ ", "# ", "!!", "! ", "---", "```", "{{", "{%", "%}", "![", "\n", "\n\n", "a", " ", "\\"],
    /* broken */ &["# [a](b", "# [a", "[a](b", "[a]", "[a](b(c)", "**a", "*a", "_a", "~~a", "`a", "![a](b", "![a]", "!![a](b)", "![a](b) c", "```\na", "```r", "```\na\n```b", "{{a|b", "{{a}}", "{{a|b}} c", "!! t", "!!", "!! t\n! i", "!! t\n\na\n!!b", "! i", "{% t", "{%", "{% t\na %}", "{%a\n%}", "%}", "---\na", "---", "- [a](b", "- **a", "+ `a", " - a", "- a\n  - b", "#", "####### a", "a\\", "a **b _c", "**_a**_", "*a**", "~~~a~~~"],
    /* whole */ &["a", "# a [b](c)", "- a\n - b\n- c", "+ a\nb", "![a](b)\n![c](d)", "```r\na\n```", "!! t\n! i\na\n!!", "{% t\na\n%}", "{{a|b}}", "-----", "[a](b)", "**a _b_ ~~c~~**", "*a* `b`", "---\nm\n---", "!!", "%}", "```", "}}", "](b)", "**", "_", "`", ")", " - a"],
    /* odd */ &["\u{e9}", "\u{a0}", "\u{85}", "\u{3000}", "\u{2028}", "\u{feff}", "\u{200b}", "\u{1f600}", "\u{130}", "\u{df}", "e\u{301}", "\u{ff01}"],
    /* tail */ &["c", "c\nd", "# c [d](e) f", "- c\n - d\n+ e", "**c _d_** ~~e~~ `f` *g* [h](i)", "![c](d)\n![e](f)", "{% c\nd\n%}", "{% c\n{% d\ne\n%}\n%}"],
    /* edge */ &["\n", "\n\n", " ", "a\n", "- ", "\\", "%}\n", "{% t\n", "!!\n", "!! t\n", "```\n"],
];
