"""Writes properties.jsonl and MANIFEST.json."""
import json
def P(id,title,statement,over,qtext,why,files,mech,**kw):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw))
LEX=["src/lexer/mod.rs","src/lexer/token.rs"]
PAR=["src/op/parser.rs","src/op/document.rs","src/op/paragraph.rs"]
OPS=["src/op/"+x+".rs" for x in "anchor bold code code_span collapsible destination document embed emphasis heading highlight image images italic list metadata modifier paragraph parser strikethrough thematic_break title to_yamd".split()]
NOD=["src/nodes/"+x+".rs" for x in "anchor bold code code_span collapsible embed emphasis heading highlight image images italic list list_item paragraph strikethrough thematic_break yamd".split()]
out=[
P("A01","Tokens tile the source text",
 "Iterating over the tokens of any text yields non-empty ranges, in order, on character boundaries, which together cover the whole text except the backslash in front of each escaped character and one unpaired backslash at the very end. An escaped token starts directly after its backslash; every other token starts where the one before it ended; after the last token the iterator stays exhausted.",
 ["inputs"],"every valid UTF-8 text: every token range relative to every byte of it",
 "The existing tests compare token lists of a few dozen fixed strings; an off-by-one in one branch (a delimiter cut short by the end of input, an escape before a multi-byte character, a lone carriage return) shows only on combinations they do not contain.",
 LEX,[("token iterator","src/lexer/mod.rs: Lexer::next, emit_*"),("backslash handling","src/lexer/mod.rs: escape branch")]),
P("A02","Token positions name the right row and column",
 "A token's byte index is where its text starts, its row is the number of line breaks before it and its column the number of characters before it on its line. A carriage return followed by a line feed is one line break, and an escaped line break starts no new row.",
 ["inputs"],"every valid UTF-8 text with any mix of line breaks, escapes and characters of one to four bytes; every token of it",
 "Positions are state carried across every token; tests assert them on a handful of texts, while an error needs a particular mix of multi-byte characters, escapes and line-break styles before the token.",
 LEX,[("position tracking","src/lexer/mod.rs: row, column and byte index updates")],state=[dict(name="position",meaning="row, column and byte index of the next unread character")]),
P("A03","Each token kind is what the documentation of that kind describes",
 "The kind, range and escaped flag of every token are those the documentation of the token kinds gives: which characters form a delimiter, how long a run may be, where on a line it may stand, and what ends it. Everything else is plain text, and neighbouring plain text is one token.",
 ["inputs"],"every valid UTF-8 text; every token",
 "The rules interact (run lengths, line starts, following space, escapes); the tests sample each rule apart on fixed strings.",
 LEX,[("character dispatch","src/lexer/mod.rs: next / match on the current byte"),("token kinds","src/lexer/token.rs: TokenKind documentation")]),
P("B01","Parsing any text ends with a document and never panics",
 "Parsing any valid UTF-8 text, to events or to a document, terminates without a panic, arithmetic overflow or out-of-bounds access, and yields a document.",
 ["inputs"],"every valid UTF-8 text, including unterminated, deeply nested and mixed constructs",
 "Fuzzing and tests sample texts; an abort hides behind one unusual sequence (a rollback to an exact place, an empty range, a truncated delimiter at the end).",
 LEX+OPS,[("parser with backtracking","src/op/parser.rs"),("tree construction","src/op/to_yamd.rs: to_yamd")]),
P("B02","Events are properly nested and refer to valid text",
 "In the event stream of any text every start event is closed by an end event of the same node, in nesting order, below a single root; a node appears only below nodes that may contain it. Every text range an event holds lies inside the source on character boundaries.",
 ["inputs"],"every valid UTF-8 text; every event of its stream",
 "Failed attempts at a node are rolled back; a leftover start or end from one appears only for texts that fail at that exact place, of which tests hold few.",
 OPS,[("start/end emission and rollback","src/op/parser.rs"),("per-node parsers","src/op/*.rs")]),
P("B03","No text is lost, repeated or reordered by parsing",
 "Concatenating the text of all events in order gives back the source text without its escaping backslashes, whatever constructs were recognised or abandoned. The one exception is the line break directly before a collapsible's closing delimiter, which may belong to no event.",
 ["inputs"],"every valid UTF-8 text; every byte of it",
 "Text disappears only where a partly matched construct is given up after consuming it; each such place needs its own malformed input.",
 OPS,[("fallback to text after a failed node","src/op/parser.rs"),("span merging","src/op/mod.rs, src/op/parser.rs")]),
P("B04","The document is what its events describe, and the ways to it agree",
 "For any text, the document given directly, the one built from the event stream, and the one from the checked conversion of that stream are the same, and the checked conversion accepts every stream the parser produces. That document holds exactly the nodes and texts the events spell out.",
 ["inputs"],"every valid UTF-8 text",
 "Equality has to hold for every tree shape the parser can emit; tests compare fixed trees.",
 ["src/lib.rs","src/op/to_yamd.rs","src/op/parser.rs"],[("conversion","src/op/to_yamd.rs: try_to_yamd, to_yamd"),("entry point","src/lib.rs: deserialize")]),
P("B05","Inline formatting is recognised exactly where the grammar says",
 "In running text, bold, italic, strikethrough, emphasis, code spans and anchors are recognised exactly where their documented grammar matches, with the documented nesting, and text that matches none of them stays text, unchanged.",
 ["inputs"],"every text, in particular every interleaving of opening, closing, escaped and unterminated delimiters",
 "Which delimiters pair up depends on everything that follows them; tests hold a few fixed pairings.",
 ["src/op/"+x+".rs" for x in ("anchor","bold","italic","strikethrough","emphasis","code_span","title","destination","paragraph","parser")],[("inline parsers","src/op/{anchor,bold,italic,strikethrough,emphasis,code_span}.rs"),("paragraph loop","src/op/paragraph.rs")]),
P("B06","Lists keep items, kinds and nesting as written",
 "A list holds one item per marker of its kind at its indentation; a marker one space deeper opens a nested list, one at an outer indentation returns to it, and a marker of the other kind, or anything else, is part of an item's text or ends the list as documented. Every marker becomes an item of exactly one list.",
 ["inputs"],"every sequence of lines with markers of both kinds at any indentation, text, blank lines and escapes",
 "Returning from nested levels depends on the whole sequence of indentations; tests show a few such sequences.",
 ["src/op/list.rs","src/op/parser.rs","src/op/to_yamd.rs"],[("list recursion and boundaries","src/op/list.rs"),("list assembly","src/op/to_yamd.rs")]),
P("B07","Highlights and collapsibles contain exactly what they enclose",
 "A highlight or collapsible is recognised exactly when its opening line and its matching closing line are present as documented; title, icon and the content between them are its parts, nested collapsibles pair up innermost first, and an unclosed one stays text.",
 ["inputs"],"every nesting and interleaving of opening, closing and content lines, complete or not",
 "Pairing and fallback depend on the complete rest of the text; tests cover a few well-formed and a few unterminated examples.",
 ["src/op/highlight.rs","src/op/collapsible.rs","src/op/title.rs","src/op/parser.rs","src/op/document.rs"],[("container parsers","src/op/highlight.rs, src/op/collapsible.rs"),("stop conditions","src/op/parser.rs")]),
P("B08","Headings, code, images, embeds, breaks and metadata match their grammar",
 "Each leaf block is recognised exactly where its documented form stands - position on the line, delimiter length, required parts, what may follow - with its level, language, parts and text as written. Consecutive images form one group; metadata is recognised only at the very start; everything else is a paragraph.",
 ["inputs"],"every text made of these delimiters, their truncated and over-long variants, line breaks and text",
 "The accepting and rejecting contexts of each delimiter multiply; tests pick a few per block.",
 ["src/op/"+x+".rs" for x in ("heading","code","modifier","image","images","embed","thematic_break","metadata","document","parser","to_yamd")],[("leaf parsers","src/op/{heading,code,image,images,embed,thematic_break,metadata}.rs"),("block dispatch","src/op/document.rs")]),
P("B09","A backslash makes any character plain text, anywhere",
 "A character after a backslash is read as that character and as plain text, whatever it means elsewhere and wherever the pair stands: replacing the character by a letter changes nothing else in the document. A text whose every character is escaped is one paragraph of exactly that text.",
 ["inputs"],"every character, every place a text can stand in, any character next to it (except where line breaks at the end of a part are dropped anyway)",
 "There is one case per character and place, and an escaped character must not influence a neighbour; tests escape about a dozen markers at their usual places.",
 LEX+["src/op/parser.rs"],[("escape branch","src/lexer/mod.rs"),("token matching that must respect literals","src/op/parser.rs")]),
P("B10","What a block means does not depend on what surrounds it",
 "A complete block and a blank line in front of a document leave that document's blocks exactly as they are, any text and a blank line in front leave those blocks as they are that hold no delimiter a construct left open in the text could take for its own, and blocks between a collapsible's delimiters are read as they are at top level.",
 ["inputs"],"every kind of block in front of, and every open collapsible around, any document without metadata; inside, openers and closers of collapsibles must pair up",
 "A context leak (state or stop condition that outlives its block) needs a particular pair of block and follower; tests put few blocks together.",
 ["src/op/document.rs","src/op/parser.rs","src/op/collapsible.rs"],[("document loop","src/op/document.rs"),("stop conditions","src/op/parser.rs: with_stop / stops")]),
P("B11","Windows line breaks give the same document",
 "Writing all or some of the line breaks as carriage return and line feed gives the document that plain line feeds give, apart from the line breaks kept inside texts.",
 ["inputs"],"every text without carriage returns and without an escaped line break",
 "Each rule that looks for a line break has to accept both forms; the tests use carriage returns in single token tests only.",
 LEX+["src/op/to_yamd.rs","src/op/parser.rs"],[("line break tokens","src/lexer/mod.rs"),("trimming","src/op/to_yamd.rs: trim_trailing_line_breaks, trim_line_breaks")]),
P("B12","Parsed documents have the documented shape",
 "In any parsed document heading levels are 1 to 6, a nested list's level is one more than that of the list around it and no list is empty, image groups hold at least two images, paragraphs and texts are not empty, and no two plain texts are neighbours. Metadata, code, list items and highlight paragraphs do not keep the line breaks that delimit them.",
 ["inputs"],"every valid UTF-8 text; every node of its document",
 "These are invariants over all parse results; tests compare single results.",
 ["src/op/to_yamd.rs","src/op/document.rs","src/op/list.rs","src/op/images.rs"],[("tree construction","src/op/to_yamd.rs")]),
P("B13","Parsing effort does not explode",
 "Repeating a piece of a document, side by side, nested in itself or ever deeper indented, increases the work of parsing it as a polynomial of low degree: twice the repetitions cost at most twenty times the work. No text makes the parser try exponentially many readings.",
 ["inputs"],"every piece repeated, in every surrounding, with every opening, closing and continuation",
 "Tests and benchmarks parse benign texts; a construct that is tried again from inside every outer one shows as a hang only on a few dozen unusual repetitions.",
 OPS,[("backtracking","src/op/parser.rs: flip_to_literal; src/op/{collapsible,highlight,list,bold}.rs")]),
P("B14","Text is borrowed from the source wherever it stands there in one piece",
 "An event's text is a range of the source, exactly the place it stands at, whenever it stands there in one piece; only text with an escaping backslash inside is copied. An empty text is never a copy.",
 ["inputs"],"every valid UTF-8 text; the text of every event",
 "A copy equals the range it was copied from, so comparing texts does not notice it; whether a text is in one piece depends on where its escapes stand.",
 ["src/op/mod.rs","src/op/parser.rs"],[("borrow or copy","src/op/mod.rs: Content::from_tokens; src/op/parser.rs: Parser::span")]),
P("B15","Events hold the delimiters of the node they open or close",
 "The event that opens a node holds exactly the delimiter written there (a list item's with its indentation, a heading's hashes with their space), the event that closes it the closing delimiter; the events of nodes without a delimiter are empty. Besides delimiters these events hold at most line breaks or the spaces after a collapsible's opening; between blocks there are only line breaks.",
 ["inputs"],"every valid UTF-8 text; every event",
 "A delimiter that slips into a neighbouring event leaves the document and the concatenated text as they were; tests spell out the events of a few dozen texts.",
 OPS,[("event construction","src/op/*.rs: Op::new_start, Op::new_end, Parser::span")]),
P("B16","What a text is read as depends on that text alone",
 "Tokens, events, document and rendering of a text are the same whatever was read or rendered before, however often, in whichever buffer the text stands, and while another text is being read in turns.",
 ["inputs","histories"],"every pair of texts, read in changing order, several times, in fresh and in reused memory",
 "State kept between calls (a cache, a counter) shows only on a particular earlier text; tests read each text once.",
 LEX+OPS+NOD,[("entry points","src/lib.rs: deserialize; src/op/mod.rs: parse; src/lexer/mod.rs: Lexer")],state=[dict(name="anything kept between calls",meaning="there is to be none")]),
P("C01","Every document that can be built can be rendered",
 "Rendering any document value, also one no text parses to, terminates without a panic, and the rendered text can be parsed. Out of scope: list levels whose indentation does not fit into memory.",
 ["inputs"],"every document of each node kind and nesting, with any texts, empty or odd parts included",
 "Documents are built by users from arbitrary strings; tests render a few.",
 NOD,[("rendering","src/nodes/*.rs: Display and to_block")]),
P("C02","Inline text survives rendering and reading back",
 "A document whose paragraphs, list items and highlights hold any inline nodes with any texts, whatever characters and markers they contain, reads back unchanged after rendering. Out of scope: carriage returns, empty texts, neighbours with the same delimiter, and a line break at the end of an item's or highlight paragraph's text.",
 ["inputs"],"every inline node in every place inline content can stand, with every text; every pair of neighbours",
 "Escaping must be right for each marker at each place and with each neighbour; the existing round-trip tests draw from a small alphabet or fixed strings.",
 ["src/nodes/"+x+".rs" for x in ("mod","paragraph","bold","italic","strikethrough","code_span","emphasis","anchor","list","list_item","highlight")],[("escaping","src/nodes/mod.rs, src/nodes/paragraph.rs"),("inline rendering","src/nodes/*.rs: Display")]),
P("C03","Headings, images, code and embeds survive rendering and reading back",
 "A document with headings, images, image groups, code blocks and embeds with any texts in their parts, alone, between other blocks or inside collapsibles, reads back unchanged after rendering. Out of scope: carriage returns, empty heading texts and line breaks at the end of code.",
 ["inputs"],"every part of every leaf block with every text, in every context",
 "Each part has its own terminator to escape and context adds others; tests use benign texts.",
 ["src/nodes/"+x+".rs" for x in ("heading","image","images","code","embed","anchor","yamd","collapsible")],[("rendering","src/nodes/{heading,image,images,code,embed}.rs: Display")]),
P("C04","Lists, highlights, collapsibles and metadata survive rendering and reading back",
 "A document with nested lists, highlights with or without title and icon, nested and empty collapsibles, and metadata, with any texts in their titles, icons, items and paragraphs, reads back unchanged after rendering. Out of scope: carriage returns and line breaks at the ends of metadata, items and highlight paragraphs.",
 ["inputs"],"every text of every container part, over a set of container shapes with neighbours before and after",
 "Markers inside nested levels and container delimiters inside texts have to be escaped relative to the nesting; tests use plain words.",
 ["src/nodes/"+x+".rs" for x in ("list","list_item","highlight","collapsible","yamd","paragraph")],[("rendering","src/nodes/{list,highlight,collapsible,yamd}.rs: Display, to_block")]),
P("C05","Reading, rendering and reading again gives the same document",
 "For any text, the document it parses to equals the document its rendering parses to.",
 ["inputs"],"every valid UTF-8 text in which carriage returns occur only as part of Windows line breaks (and, if there are any, no line break is escaped)",
 "The property tests of the repository generate documents from a restricted grammar; texts that parse to unusual documents (blank lines, partly matched constructs) are outside it.",
 NOD+OPS,[("rendering","src/nodes/*.rs: Display"),("parsing","src/op/*.rs")]),
P("C06","Documents are rendered in the documented spelling",
 "A document whose texts hold nothing special is rendered exactly in the spelling the node documentation shows: delimiters, spaces, indentation of nested lists, one line break or a blank line between parts, and no escapes. Every node of it, rendered on its own, is spelled the same way.",
 ["inputs"],"every node kind and nesting with every text of letters, digits or non-ASCII characters",
 "Reading back is lenient, so a changed spelling or a needless escape passes round-trip tests; tests pin a few renderings.",
 NOD,[("rendering","src/nodes/*.rs: Display, to_block")]),
P("C07","Rendering, copying and comparing effort does not explode",
 "Repeating a piece of a document, side by side or nested in itself, increases the work of rendering, copying and comparing the document as a polynomial of low degree: twice the repetitions cost at most twenty times the work. The rendering of a parsed document is at most four times as long as its text.",
 ["inputs"],"documents parsed from every piece repeated, in every surrounding, with every opening, closing and continuation",
 "A container that renders its content once to look at it and once to write it doubles the work with every level; tests render two or three levels.",
 NOD,[("rendering","src/nodes/*.rs: Display and to_block")]),
P("D01","Exactly the well-nested event streams are accepted",
 "Converting any sequence of start, end and value events, however arranged, ends without a panic. The checked conversion refuses the sequence exactly when its start and end events do not pair up by node and nesting order.",
 ["inputs","histories"],"every sequence of events over all node kinds",
 "Every ordered pair of event kinds in every nesting matters; tests hold a few unbalanced streams.",
 ["src/op/to_yamd.rs","src/op/mod.rs"],[("frame stack","src/op/to_yamd.rs: try_to_yamd")],state=[dict(name="frame stack",meaning="the nodes started and not yet ended")]),
P("D02","An accepted event stream gives the document it describes",
 "A well-nested event stream in which nodes stand only where they may gives exactly the document its events describe - nodes in order, texts joined, titles, icons, levels and parts at their owners, the last counting where two stand for one part - whether its texts are ranges of the source or owned strings.",
 ["inputs","histories"],"every well-nested sequence of events over all node kinds, with ranges, empty ranges and owned text",
 "Streams built by callers have shapes the parser never emits; tests cover the parser's.",
 ["src/op/to_yamd.rs","src/op/mod.rs"],[("frame contents","src/op/to_yamd.rs: try_to_yamd"),("event text","src/op/mod.rs: Content")]),
P("D03","Content made from tokens holds exactly their text",
 "Content made from any run of neighbouring tokens of a text holds their texts joined, as a range of the source exactly when no escaping backslash lies between them; its string, its emptiness and its text agree. Content converted from tokens is the source range from the first to the last, and an event made from them holds that and its node.",
 ["inputs"],"every valid UTF-8 text; every run of its tokens",
 "The boundary cases (escape at the first token of a run, empty runs, wide characters) multiply; tests build content from a few hand-made tokens.",
 ["src/op/mod.rs"],[("content","src/op/mod.rs: Content, Op")]),
P("D04","Events and tokens made and compared by hand hold what they were given",
 "An event, content, token or position made by hand holds exactly the kind, node, range, text, flag and numbers given; a copy of a token is equal to it; a token kind is written under its name. Two of them are equal exactly when all their parts are, and equal token kinds have equal hashes. A content's text is its own text, or the source's in its range (nothing when the range is empty), and its string and emptiness agree.",
 ["inputs"],"every pair of events over all kinds with ranges and texts; every range of a source; every pair of tokens over all kinds",
 "Tools that make or rewrite event streams compare them with the parser's; the tests compare equal values with small numbers.",
 ["src/op/mod.rs","src/lexer/token.rs"],[("events","src/op/mod.rs: Op, OpKind, Node, Content"),("tokens","src/lexer/token.rs: Token, Position, TokenKind")]),
P("E01","Documents and events survive being stored as JSON",
 "With serialization support enabled, any document, parsed or built by hand and nested no deeper than the JSON reader accepts (20 levels here), and the event stream of any text read back equal after being written as JSON.",
 ["inputs"],"every document of each node kind with any texts; the document and events of any text",
 "Tagging and field attributes of two dozen types have to agree in both directions; no existing test serializes most of them.",
 NOD+["src/op/mod.rs"],[("serialization attributes","src/nodes/*.rs, src/op/mod.rs: derive(Serialize, Deserialize)")]),
P("E02","The stored form of documents and events mirrors them",
 "The JSON of a document (feature serde) is its tree: objects with the public fields under their names, alternatives as objects of `type` and `value`, wrapped texts as plain strings, absent parts as null; the JSON of events likewise. Any JSON of that form is read as that document: with white space, fields in another order, absent parts left out, from a reader.",
 ["inputs"],"every document of each node kind and nesting with any texts; every text's events",
 "Documents stored by one version are read by another and by other programs; a change of writer and reader together passes every round trip.",
 NOD+OPS,[("stored form","src/nodes/*.rs, src/op/mod.rs: serde attributes")]),
P("F01","Documents built, copied and compared by hand hold what they were given",
 "A node made with a constructor or conversion holds exactly the parts given, in order and unchanged, except that line breaks at the end of code and around metadata are dropped; default nodes are empty. A copy has the same parts. Two documents are equal exactly when all their parts are.",
 ["inputs"],"every document of each node kind and nesting with any texts; every pair of documents of one shape, or of two kinds",
 "Two dozen constructors and conversions and an equality over all of them; tests compare a few values, mostly equal ones.",
 NOD,[("constructors and conversions","src/nodes/*.rs: new, From, Default"),("equality","src/nodes/*.rs: derive(PartialEq, Clone)")]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in out:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
import sys
sys.path.insert(0,'/verif')
NOTE={
"A01":"real tokenizer over all ASCII texts of up to 4 (thorough 5) characters, 3 (4) characters of any width, longer texts over markup alphabets, documents with 1-2 open places, 300-character runs",
}
T="symbolic execution of the LLVM IR of the real code with SMT (z3) decisions"
lv={}
checks=[]
BOUND="bounds in DESIGN.md: "
notes={
"A":"free ASCII text of 4 (thorough 5), up to 3 (4) characters of any width, 5 (7) markup pieces, 7 (9) characters over small alphabets, fixed documents with one or two open places, runs of 300",
"B":"free ASCII text of 4 (thorough 4-5), 2-3 wide characters, 4-5 (6-7) markup pieces, 6-7 (8-9) characters over small alphabets, 50 documents with any place open or an insertion, 10-level nestings",
"B09":"any character at 50 places, with any ASCII neighbour; any text of 3 (4) characters fully escaped",
"B10":"19 heads and 4 openers with any ASCII text of 2-3 (3-4) or 2-4 markup pieces",
"C":"about 60 slots in about 15 contexts with any ASCII text of 2-3 (3-4), markup pieces, wide characters",
"C05":"free ASCII text of 3 (4), 4 (6) markup pieces, 5-6 (7-8) over small alphabets, 50 documents with any place open",
"B13":"pieces of one or two markup pieces or ASCII characters and prefixes of 50 documents, repeated 6 and 12 times in 13 surroundings, nested in 17 ways, indented in 4",
"B16":"any two texts of 1, 8 texts with any text of 2 (3), 50 documents with a place changed to one of 10 (any) characters next to the document as it was, pairs of markup pieces",
"F":"about 60 slots in about 15 contexts with any ASCII text of 2 (3) in each of two documents, pairs of 21 block kinds and 17 inline kinds",
"C07":"pieces of markup, any ASCII character or two, and 50 documents, repeated 6 and 12 times in 13 surroundings, nested in 5 ways, indented in 4",
"D03":"ASCII text of 3 (4), 2 wide characters, 3 (4) markup pieces; every run of their tokens",
"D04":"events of any two kinds with ranges of numbers below 5 (9) at 9 magnitudes or texts of 0 to 2 (3) characters; every range of 4 sources; tokens of any two kinds with any two of five numbers open",
"D":"13 trees of events with a node or any 2 events put in anywhere, any one replaced, and children doubled, dropped or moved; any 3 (4) events; any 2 (3) events inside and after 25 nestings; any two nodes with values",
"E":"any ASCII text of 2 (3), 50 documents, 60 slots with any character or text of 1 (2)",
}
for p in out:
    i=p['id']
    n=notes.get(i) or notes[i[0]]
    checks.append(dict(property=i,quick_cmd="python3 run.py %s quick"%i,thorough_cmd="python3 run.py %s thorough"%i,technique=T,level="model_checking",
      level_note="every path of the compiled code within the bounds, none sampled; "+n+"; longer inputs are not covered"))
m=dict(version=1,setup_cmd="python3 run.py setup",checks=checks,not_applicable=[],notes="No hooks: the harness uses the public API only. known-findings.txt lists the defects repaired in /repo.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
