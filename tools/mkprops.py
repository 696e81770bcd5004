#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

SC, PA, PI, AST, WA = "scanner/scanner.go", "parser/parser.go", "parser/interface.go", "ast/ast.go", "ast/walk.go"
BI, AU, RE, RR, RA = "bibtex.go", "author.go", "resolver.go", "render/render.go", "render/accent.go"

p("C01", "Every input is handled: no crash, hang or runaway memory",
  "For every byte sequence and every parser mode, parsing a file or an expression returns a result or an error after work that stays in proportion to the input's size; it never panics, loops forever or keeps allocating. The same holds for resolving (author extraction, escape simplification, text rendering) and rendering whatever tree that parse produced.",
  ["inputs", "configurations"], "All byte strings (valid, truncated, mutated, binary, deeply nested) x all parser modes x all stages of the pipeline.",
  "The tests feed about 60 short, mostly valid literals; unterminated strings, truncated macros, deep nesting and unusual macros in names are never reached.",
  [SC, PA, PI, AU, RE, RR, BI], [("end-of-input handling in string scanning", SC), ("parse loops and bail-out", PA), ("recover in ParseFile/ParseExpr", PI)],
  ["parser.ParseFile", "parser.ParseExpr", "Biber.Parse", "Biber.Resolve", "ExtractAuthors", "Biber.Render"])

p("C02", "A parse outcome is either complete or an accurate error report",
  "When a parse reports no error, the returned tree has no placeholder for bad source and no missing node. When it reports errors, they form a non-empty list sorted by source position, each naming the given file and a line and column that exist in the source (or the place just past its end), and the accompanying tree is non-nil, carries the file name and can be walked without meeting a missing node. The errors of a source are the same whichever other files its file set holds. The one-call Parse of the bibliography object returns a tree or an error, never both and never neither.",
  ["inputs", "configurations"], "All byte strings and modes.",
  "Only a handful of error cases are tested and only for 'some error'; nothing looks at the list, its positions or the partial tree.",
  [PI, PA, BI, SC], [("error list, sorting and partial file", PI), ("BadExpr/BadDecl placeholders", PA)],
  ["parser.ParseFile", "parser.ParseExpr", "Biber.Parse"])

p("C03", "Well-formed bibliographies parse to exactly what was written",
  "Parsing a well-formed bibliography succeeds and yields its declarations in source order: for an entry its type in lower case, its first cite key, any further keys in order, and its tags in order with lower-cased name, original spelling and value; for an abbreviation its name and value; for a preamble its value. Values are numbers, identifiers, strings, or right-nested concatenations of these, with either delimiter for strings and declarations, in every parser mode. Nothing is dropped, duplicated, reordered or invented.",
  ["inputs", "configurations"], "All well-formed bibliographies (any number and mix of declarations, keys made of any legal name characters including leading digits, any concatenations), all modes.",
  "Tests contain one declaration each and never compare the extra keys; combinations of features, digit-leading keys, nested or concatenated values are sampled a few times or not at all.",
  [PA, SC, AST, PI], [("recursive-descent declarations and tags", PA), ("brace-versus-block decision", SC)],
  ["ast.File.Entries after parser.ParseFile"])

p("C04", "String contents decompose exactly into their TeX constructs",
  "With string parsing on, the value of a quoted or braced string is the exact sequence of its constructs: plain text, whitespace runs, non-breaking spaces, commas, escaped characters, math, accents (accent mark and letter, in any of their spellings), macros (by name; one symbol or a run of letters), url/href macros with their address, and nested groups with their depth and delimiter. No construct is misread as another, split, merged or lost, in any order of neighbours and at any nesting depth.",
  ["inputs"], "All sequences and nestings of the constructs, inside either delimiter, in entries, abbreviations, preambles and stand-alone expressions.",
  "About 15 fixed strings are tested; neighbour and nesting combinations (macro next to accent, quote inside group, spaced accents) are unbounded.",
  [SC, PA, AST], [("scanInString and its sub-scanners", SC), ("parseText, parseMacroURL, parseStringAccent", PA)],
  ["TagStmt.Value with parser.ParseStrings", "parser.ParseExpr"])

p("C05", "Raw string mode returns the bytes between the delimiters verbatim",
  "With string parsing off, every string value is reported with its delimiter kind and exactly the source bytes between its delimiters, where a braced string ends at its matching brace and a quoted string ends at the first quote outside braces. What follows the string is unaffected by the string's content.",
  ["inputs"], "All brace-balanced byte contents (nested groups to any depth, empty groups, quotes, percent signs, backslashes, newlines, non-ASCII text) in either delimiter, in every value position.",
  "Tests and the sample file only have shallow nesting; doubled, tripled and empty groups never occur.",
  [SC, PA], [("scanString / scanBraceString", SC)], ["ast.UnparsedText"])

p("C06", "Layout and notation do not change the parsed bibliography",
  "Rewriting a bibliography's layout leaves the parsed declarations unchanged apart from positions and comment attachments: any whitespace or comment lines between tokens, parentheses instead of braces around a declaration, a trailing comma in or after an entry, letter case of the entry type or of the command words, and letter case of tag names (which still compare equal in lower case). Braces instead of quotes around a string change only the recorded delimiter and depth, never the content.",
  ["inputs"], "All well-formed bibliographies x all pairs of layouts of the same bibliography.",
  "Tests use one fixed layout per case and never compare two layouts; the brace heuristic depends on the previous token, so any layout change could matter.",
  [SC, PA], [("previous-token brace heuristic", SC), ("comment skipping", PA)], ["ast.File.Entries", "Biber.Resolve"],
  [("prev", "kind of the previous token, decides what '{' means", SC)])

p("C07", "Malformed bibliographies are never silently accepted",
  "A bibliography that breaks the grammar is reported with an error in every mode: a declaration cut off before its closing delimiter or closed by the wrong one, an unterminated or brace-unbalanced string, unterminated math, a missing '=', value or key separator, doubled separators, two values without a concatenation sign, a malformed accent or url macro, an illegal character, NUL, invalid UTF-8 or a stray byte-order mark, a tag name that does not start with a letter, or stray text between declarations.",
  ["inputs"], "All well-formed bibliographies x all single breakages of the listed kinds x every place they can occur.",
  "Four fixed malformed inputs are tested; where the breakage sits relative to other content matters and is never varied.",
  [PA, SC, PI], [("expect*/errorExpected", PA), ("scanner error handler", SC)], ["error from parser.ParseFile / Biber.Parse"])

p("C08", "Reported positions identify the exact source text",
  "Every declaration, tag, identifier, number, string, opening and closing delimiter, concatenation operator, comment and text construct in the tree carries a position at which the source holds exactly that element, and leaf elements that carry text end where that text ends. This holds for multi-line sources, sources after a byte-order mark, and for each of several files that share one file set; line and column agree with the newlines of the source. (The ends of accents and spaces are not specified.)",
  ["inputs", "histories"], "All well-formed bibliographies, all layouts, any sequence of files parsed into the same file set.",
  "Only scanner tests check some token offsets on one hand-made source; no test reads a position from the tree.",
  [PA, SC, AST], [("pos captured per production", PA), ("AddLine bookkeeping", SC)], ["Node.Pos/End, ParsedText.Opener/Closer, ConcatExpr.OpPos, BibDecl.RBrace, FileSet.Position"])

p("C09", "Accepted source is represented completely by the tree",
  "Whenever a source of any shape is accepted without error, the tree accounts for all of it: re-reading the source left to right, every byte that is not layout (whitespace, comments, separating commas) belongs to exactly one element of the tree, in tree order, and each element equals the source it stands for.",
  ["inputs"], "All inputs that are accepted, including unusual ones a writer would not produce on purpose (missing commas, odd keys, adjacent constructs).",
  "Tests only look at what they expect to find; text that is accepted and then dropped is invisible to them.",
  [PA, SC, AST], [("every parse function must keep what it consumes", PA)], ["ast.File versus source bytes"])

p("C10", "Comments are kept verbatim, in order, and attach to what follows",
  "Every percent comment outside strings appears in the file's comment list exactly once, in order, with its text up to the end of the line; neighbouring comment lines form one group and a blank line or other token separates groups. A group of whole-line comments that ends on the line directly before an entry, abbreviation, preamble, entry tag or abbreviation name becomes its documentation (and the file's, when it precedes the first declaration); a comment behind a token on the same line stands alone and documents nothing, and no other node has documentation. Comments never change what is parsed. (Specified with the comment mode set.)",
  ["inputs"], "All placements of comments between the tokens of any well-formed bibliography.",
  "No test contains a comment inside a bibliography at all.",
  [PA, AST], [("consumeCommentGroup / next", PA)], ["ast.File.Comments", "Doc fields"],
  [("leadComment/lineComment", "comment group pending attachment", PA)])

p("C11", "The token stream covers the source and always reaches the end",
  "Scanning any byte sequence in any mode yields tokens at non-decreasing, in-range positions, each making progress, until an end-of-file token that then repeats; literal-bearing tokens equal the source at their position, and only whitespace (and, when comments are not scanned, comments) lies between tokens. The error count equals the number of reported errors, an illegal token is always accompanied by an error, and a scanner initialised again behaves like a new one.",
  ["inputs", "histories"], "All byte sequences x modes, and sequences of re-initialisations of one scanner, including abandoning a source midway.",
  "The scanner tests scan a fixed token table once; they never scan to the end of malformed strings nor reuse a scanner.",
  [SC, "token/token.go"], [("Init state reset", SC), ("Scan / scanInString", SC)], ["scanner.Scanner.Init/Scan/ErrorCount"],
  [("endQuoteCh, braceDepth, prev", "string and brace context", SC)])

p("C12", "Parsing does not depend on how the source is delivered",
  "The same bytes give the same tree and errors whether they are passed as a string, byte slice, buffer, file name, or a reader that delivers them in arbitrary chunks; a passed byte slice is not modified and later changes to it do not affect the tree. If reading fails at any point, no tree is returned and the error is the read error; an unsupported source kind is an error.",
  ["inputs", "fault_sequences"], "All sources x delivery forms x chunkings x read-failure points.",
  "Tests pass strings and one file; no reader that chunks or fails.",
  [PI, BI], [("readSource", PI)], ["parser.ParseFile", "Biber.Parse"])

p("C13", "Parsing a set of files yields exactly the files that parse",
  "Parsing a list of paths as a package returns a package that maps each path that parses cleanly to the same tree as parsing it alone, omits the others, and returns the first failing path's error in list order (or none). Resolving the package yields exactly the entries of its files, each file's in source order, and the files in name order.",
  ["inputs", "fault_sequences"], "All lists of good, malformed and missing files in any order.",
  "ParsePackage has no test.",
  [PI, BI, AST], [("ParsePackage loop", PI), ("Resolve on packages", BI)], ["parser.ParsePackage", "Biber.Resolve"])

p("C14", "Resolving yields one faithful entry per bibliographic declaration",
  "Resolving a parsed file gives exactly one entry per bibliographic declaration, in source order, with its type, its cite key (empty if it has none) and every tag name mapped to that tag's value, the last one winning for repeated names; abbreviations and preambles produce no entries. Resolving a single declaration gives that entry alone, and a node that holds no entries is an error. The exported constants for entry types and fields address the entries and fields they are named for, however a source spells them.",
  ["inputs"], "All parsed files, including entries without key, with repeated tags, or without tags.",
  "Each test resolves one entry that has a key and unique tags.",
  [BI], [("Biber.Resolve / resolveEntry", BI)], ["Biber.Resolve"])

p("C15", "Resolvers run once each in the order given and failures stop the run",
  "Resolving runs every configured resolver exactly once, in the order the options gave them across all options, on the node passed in, before entries are collected; the first failing resolver stops the run, no entries are returned, and the reported error wraps that resolver's error and tells its index. With no resolvers the tree is left untouched, and a parser-mode option replaces the mode and nothing else. An option can be given to several objects.",
  ["histories", "fault_sequences", "configurations"], "All option sequences and all positions of a failing resolver.",
  "Tests use one fixed resolver list that never fails.",
  [BI, RE], [("resolver loop", BI)], ["Biber.Resolve with instrumented resolvers"])

p("C16", "Plain-text rendering of a field equals its TeX-stripped text",
  "Rendering a parsed string to plain text, directly or through the text resolver, gives the concatenation of its constructs: text verbatim, one space per whitespace run or non-breaking space, a comma, the bare escaped character, math with its dollar signs, the composed accented letter, and nothing for a macro's name or a group's braces while their contents and arguments remain; a concatenation gives its operands joined by '#'. The resolver replaces exactly the parsed string values of tags, leaves every other value alone, and reports (not drops) constructs it cannot render; a failing writer's error is returned.",
  ["inputs", "fault_sequences"], "All parsed strings of any nesting; all points where a writer fails.",
  "Three tiny trees and two entries are tested.",
  [RR, RE, RA], [("TextRenderer.Render", RR), ("RenderParsedTextResolver", RE)], ["render.TextRenderer.Render", "RenderParsedTextResolver.Resolve"])

p("C17", "Escape simplification replaces all escapes and nothing else",
  "Applied to any tree, from a file down to a single string, escape simplification turns every escaped character inside parsed text, at any depth, into plain text of that character and leaves everything else identical. It is idempotent and does not change the plain-text rendering.",
  ["inputs"], "All trees (files, entries, tags, strings) with escapes at any depth, in entries, abbreviations and preambles.",
  "Tests apply it to two bare strings, never through a file, where it must reach tag values.",
  [RE, WA], [("walk into tag values", WA), ("in-place replacement", RE)], ["SimplifyEscapedTextResolver"])

p("C18", "Author lists split into the right people and name parts",
  "Extracting authors splits a field at the word 'and' standing alone outside braces, in order, and fails if any author is empty. A name without commas gives first name, lower-case prefix words and last name (always at least the final word); 'prefix Last, First' and 'prefix Last, Suffix, First' give those parts, everything after the last of these commas being the first name. Braced groups, accents, escapes and macros stay inside their word and appear rendered; 'others' is recognised only as a lone last name, and only an author whose four parts are all empty text counts as empty. The word 'and' separates only in lower case; a prefix word begins with a lower-case letter, bare or accented; a word that begins with a group, macro, escape or math is not a prefix; an escaped character keeps its backslash. Comma-less names with words that begin with a caseless character are not specified.",
  ["inputs"], "All author lists built from names in the three documented forms, with words made of any mix of text, accents, groups and macros, any spacing.",
  "16 fixed names, mostly plain ASCII words; no name has an accent in a comma-less last name, a suffix, or a macro.",
  [AU, AST, RE], [("ExtractAuthors, resolveAuthor0/N", AU)], ["ExtractAuthors", "AuthorResolver.Resolve", "Author.IsOthers/IsEmpty"])

p("C19", "Author extraction neither loses nor invents text",
  "For any author field that is extracted without error, the non-space text of the name parts, taken author by author in their source order (prefix, last, suffix, first for comma forms; first, prefix, last otherwise), is the non-space rendered text of the field minus the separating 'and's and the separating commas. The number of authors is the number of separators plus one, escaped characters keep their backslash, name parts carry no surrounding space, and the field's tree is not modified. The authors depend on the tree as it is now: a field that was changed after an extraction gives what the changed field gives.",
  ["inputs"], "All parsed author fields of any content, well-formed names or not.",
  "Tests compare a few expected names; silent loss of a name part in other shapes is invisible.",
  [AU], [("name part loops", AU)], ["ExtractAuthors"])

p("C20", "Accents render to the right Unicode letter in every spelling",
  "Every supported accent and letter renders to the letter whose Unicode canonical decomposition is that letter plus that accent's combining mark, and gives the same result for all TeX spellings (bare, braced argument, spaced argument, enclosing group, dotless i and j), in text rendering and in author names. Any other combination is reported as an error, never a wrong or missing letter and never a crash.",
  ["inputs"], "All accent marks x all letters (and non-letters, multi-letter arguments) x spellings x contexts; enumerated completely for single characters.",
  "Six combinations are tested.",
  [RA, SC, PA, AU, RR], [("accentMap / RenderAccent", RA), ("accent scanning", SC)], ["render.RenderAccent", "TextRenderer", "ExtractAuthors"])

p("C21", "Tree walking visits every node in order and obeys the visitor",
  "Walking any tree calls the visitor on each node reachable from the root through files, declarations, tags, values, authors and text exactly once on entering and once on leaving (cite keys, comments and the letter of an accent are parts of their node, not visited), files of a package in name order, in depth-first source order with children nested between the two calls. Asking to skip children skips exactly that node's subtree, asking to stop or returning an error ends the walk with no further call, and the error is returned unchanged.",
  ["inputs", "histories"], "All trees (parsed or built) x all visitor decision sequences.",
  "Three hand-made trees of two levels are walked; tags, abbreviations and files never are.",
  [WA, AST], [("walkHelper", WA)], ["ast.Walk"])

p("C22", "Rendering dispatches per node kind and emits the text once",
  "Rendering a tree calls the renderer registered for each node's kind, which is that of its type (accents count as text), on entering and leaving, a custom renderer replacing only its own kind for that one bibliography object, and its stop, skip and error results are obeyed. By default a parsed string is written with its delimiters and each construct once, in order: text, spaces, commas, escapes with their backslash, math with its dollars, accents as composed letters, a space for a non-breaking space. A missing renderer, a renderer failure or a failing writer is returned as an error wrapping the cause.",
  ["inputs", "configurations", "fault_sequences"], "All trees x renderer overrides x write-failure points.",
  "Biber.Render has no test.",
  [BI, RR, WA], [("Biber.Render", BI), ("render.Defaults", RR)], ["Biber.Render"])

p("C23", "Results depend only on the input, not on history or concurrency",
  "Parsing, resolving and rendering a given source with given options always gives the same result, whatever was processed before (including failing inputs), on the same or other bibliography objects, and however many goroutines work at the same time on their own sources. Options given to one bibliography object never affect another, and results returned earlier are not changed by later calls.",
  ["histories", "schedules"], "All sequences of operations on shared and separate objects; concurrent batches.",
  "Each test makes a fresh object and runs one operation.",
  [BI, PA, SC, RR, PI], [("no shared mutable state; Defaults builds a new table", RR)], ["New, Biber.Parse/Resolve/Render, parser.ParseFile"])

p("C24", "URL fields keep their address character for character",
  "The value of a url tag, quoted or braced, bare or wrapped in a url macro, and whatever the letter case of the tag name, resolves to the address exactly as written, including tildes, commas, hashes, percent signs, dashes and other characters that mean something to TeX in normal text; an escaped character in a bare field stands for the character itself. The argument of a url or href macro in any field keeps its address likewise.",
  ["inputs"], "All addresses over the URL character set (no braces, backslashes or spaces) in all spellings.",
  "Four fixed addresses, only one of them braced and none in upper-case tags.",
  [PA, SC], [("parseMacroURL, fixUpFields", PA)], ["Entry.Tags[\"url\"] after resolving", "ast.TextMacro of url/href"])

p("C25", "Symbol scopes behave as insert-once maps",
  "A scope returns for a name the first object inserted under that name in that scope and nothing otherwise; inserting a second object of that name returns the first and changes nothing. Outer and inner scopes are independent, and an object's position is its declaration's key position when the declaration carries that key and invalid otherwise.",
  ["histories"], "All sequences of inserts and lookups over nested scopes.",
  "Scopes have no test.",
  ["ast/scope.go"], [("Scope.Insert/Lookup, Object.Pos", "ast/scope.go")], ["ast.Scope", "ast.Object.Pos"])

p("C26", "Parser modes change only what they say",
  "For every source, asking for comments, for tracing or for declaration errors changes neither the tree (comments and documentation apart) nor the reported errors, except that declaration errors may be added. Asking for all errors does not change whether a source is accepted: without it every reported error is one that is reported with it; as long as no more than ten errors are reported, only further errors on a line that already has one are left out, and the tree is the same.",
  ["inputs", "configurations"], "All byte strings (accepted, with one error, with many errors per line and many lines with errors) x all combinations of modes.",
  "The tests use one or two modes each and never compare the outcomes of different modes.",
  [PI, PA, SC], [("error: one error per line, bail-out after ten", PA), ("next, next0: comments and trace", PA), ("mode bits", PI)],
  ["parser.ParseFile under every Mode"])

p("C27", "Author resolvers replace exactly the fields they were given",
  "Resolving with an author resolver made for a set of field names replaces the value of every tag of that (lower-case) name in every entry below the given node by the authors extracted from it, whether the node is a package, a file, a declaration or a tag. Tags of other names, including longer and shorter ones, abbreviations, preambles, keys and everything else stay as they are. If a selected value is not parsed text, or extraction fails, the resolver returns an error; what comes before that tag has been replaced and what comes after it has not.",
  ["inputs", "configurations"], "All bibliographies x all sets of field names x all kinds of root.",
  "One field of one small tree is tested.",
  [AU, RE, BI], [("AuthorResolver.Resolve", RE), ("walk over the tree", WA)], ["bibtex.NewAuthorResolver(...).Resolve"])

p("C28", "The whole pipeline yields the entries that were written",
  "A bibliography object configured with any sequence of the library's resolvers (author extraction for author and editor fields, escape simplification, text rendering, in any order and number, spread over any number of options) turns a well-formed source into the entries it was written for: each resolver works on the outcome of those before it, author and editor fields hold the names that were written, and all other fields their text with escapes simplified or everything rendered as far as those resolvers ran. If one of them cannot work on what the earlier ones left (extracting authors from a number or from text that was already rendered or extracted, rendering a construct without rendering) an error and no entries are returned.",
  ["inputs", "configurations"], "All well-formed bibliographies x all sequences of resolvers x roots.",
  "One end-to-end test with one fixed sequence of resolvers exists; interactions of resolvers are not tested.",
  [BI, RE, AU, PI, PA, RR], [("New and options", BI), ("Resolve, resolveEntry", BI), ("AuthorResolver, SimplifyEscapedTextResolver, RenderParsedTextResolver", RE)],
  ["Biber.Parse then Biber.Resolve"])

p("C29", "Rendered strings read back as the same string",
  "What the default renderers write for a parsed string without macros is again source of that string: parsing it succeeds, as an expression and as the value of a tag, and gives the same delimiter, groups, text, spaces, commas, escapes and math, with each accent having become its letter and each non-breaking space a space. Rendering that again writes the same characters.",
  ["inputs"], "All strings of text, spaces, commas, escapes, math, accents and nested groups, with either delimiter.",
  "No test renders a parsed string and parses the result.",
  [RR, RA, BI, SC, PA], [("render.Defaults", RR), ("scanInString", SC)], ["Biber.Render after parser.ParseExpr and Biber.Parse"])

p("C30", "Extents of nodes nest and follow the source",
  "In the tree of every accepted source, each node begins and ends inside the source (at any place of a file set) and inside its parent; siblings - declarations, keys and tags, the parts of a concatenation or string, macro arguments - follow one another in source order without overlap; and documentation lies before the node that it belongs to. (The file node itself is taken to span the source.)",
  ["inputs", "configurations"], "All accepted sources of any shape x modes x places in the file set.",
  "The tests compare a few positions with fixed numbers and most End methods are never called.",
  [AST, PA, SC], [("Pos and End of nodes", AST), ("positions set while parsing", PA)], ["Node.Pos, Node.End"])

p("C31", "What precedes or follows a declaration does not change it",
  "Putting any source behind an accepted one (separated by a blank line) changes nothing in either: the declarations of the first are the same as alone, positions included; those of the second are the same as alone, shifted, and so are its documentation and its error messages; no error is reported inside the first part. (Exceptions: a leading comma of the second part belongs to the last entry; a byte-order mark is one only at the start; a source whose very first token is broken is not parsed further; more than ten errors end a parse that does not ask for all errors.)",
  ["inputs", "configurations"], "All accepted sources x all sources behind them x modes.",
  "No test compares a declaration alone with the same one among others.",
  [PA, SC], [("parseFile loop, error recovery", PA), ("scanner state: prev, endQuoteCh, braceDepth", SC)], ["parser.ParseFile"])

p("C32", "An expression means the same wherever it stands",
  "A text that is a whole value in one place of a declaration (of a tag in an entry, first, last or between others; of an abbreviation; of a preamble; in braces or parentheses; under any name but url in an entry) is accepted in all of them and gives the same value, positions shifted; a text that is not a value is not one in any. With strings parsed, ParseExpr gives that same value.",
  ["inputs", "configurations"], "All texts x all places x both string modes.",
  "Tests parse each expression in one place.",
  [PA, SC, PI], [("parseExpr and its callers", PA), ("brace-versus-block decision", SC), ("ParseExpr", PI)],
  ["parser.ParseExpr", "parser.ParseFile"])

p("C33", "String contents mean the same next to any neighbours",
  "Contents that form a string on their own form the same sequence of constructs inside a group of another string, with depths one higher; between quotes, unless they hold a quote outside of groups; and before or behind other such contents, separated by a space, comma, non-breaking space, escape, math or group. (A dotless letter without a group is left out.)",
  ["inputs"], "All pairs of contents x separators x delimiters.",
  "Tests parse fixed strings.",
  [SC, PA], [("scanInString", SC), ("parseText", PA)], ["parser.ParseExpr"])

p("C34", "A name means the same in any list, spacing and delimiter",
  "The authors extracted from names joined by 'and' are those extracted from each name alone, in order, and extraction fails if and only if it fails for one of them; which white space or non-breaking space stands between words, around the separators and at the ends of the field, and whether quotes or braces delimit the field, makes no difference.",
  ["inputs"], "All lists of names made of any words (documented forms or not) x spacings x delimiters.",
  "Tests have at most three names per field and single spaces.",
  [AU], [("ExtractAuthors, extractAuthor", AU)], ["bibtex.ExtractAuthors"])

p("C35", "Tokens follow the lexical grammar in every mode",
  "Up to the first lexical error, scanning any byte sequence gives the tokens of the lexical grammar: names and numbers as long as possible (digits followed by other name characters are one name), an '@' and the letters behind it as a command, of which @string, @comment and @preamble are told apart in any ASCII letter case, comments up to the end of their line, and a brace directly behind '=', '{', '(' or '#' (comments aside) as the start of a string. A string is one token or, when the contents of strings are scanned, one token per construct: white-space run, comma, tie, math up to the next unescaped dollar on its line, escaped character, accent with its letter in every spelling, macro name, brace, and the longest text between them; a double quote ends a quoted string only outside of groups. A source that follows the grammar causes no error, and one that doesn't causes at least one. A token belongs to exactly its documented class.",
  ["inputs", "configurations"], "All byte sequences x scanner modes; the tokens before the first lexical error. A closing brace without an opening one in a quoted string, an escaped newline in math, and command words with letters that only fold to ASCII are not specified.",
  "The scanner tests scan each token of a table on its own, and a few strings.",
  ["scanner/scanner.go", "token/token.go"], [("Scan", "scanner/scanner.go"), ("scanInString, scanStringEscape", "scanner/scanner.go")], ["scanner.Scanner.Scan", "scanner.IsName", "token.Token.IsLiteral"])

p("C36", "Trees built with the asts helpers equal parsed ones",
  "The helpers of package asts build, for any value, the tree that parsing its source gives (positions aside): text, white space, ties, commas, math, escapes, accents, macros with or without an argument, groups with their depth and delimiter, unparsed strings, identifiers, concatenations, and entries with type, cite keys and tags. Strings given to them become the construct that their documentation names, for any string and at any depth, and an option for an entry builds the same each time it is used. The library treats a built tree like a parsed one: same rendering, authors and simplification. ExprString prints equal trees equally and different trees differently.",
  ["inputs", "configurations"], "All values of well-formed bibliographies x all ways to build them; all strings that are converted.",
  "The helpers are what the tests compare with: a helper and the parser that are wrong together pass, and combinations that no test uses are never built.",
  ["asts/asts.go"], [("BraceText, QuotedText, ParseStringExpr", "asts/asts.go"), ("WithBibKeys, WithBibTags", "asts/asts.go"), ("ExprString", "asts/asts.go")],
  ["asts.BraceText, asts.ParseStringExpr, asts.WithBibTags", "asts.ExprString"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
