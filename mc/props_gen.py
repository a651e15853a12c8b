import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)

p("C01","Incremental update equals a from-scratch parse",
 "After any sequence of text edits (insertions, deletions, replacements anywhere, or a change of root lexicon) handed to the tree builder one after another, the token tree is identical - contexts, lexicons, token positions, texts, actions and groups - to the tree that parsing the resulting text from scratch gives. The lexicons reported as left open at the end of the text are the same as well. This also holds for languages with nested and consuming contexts, grouped tokens, derived lexicons, default targets and lookahead over a few following tokens.",
 ["histories","inputs"],"every sequence of edits on every text of every language that does not look further ahead than the tokens it re-checks",
 "tests/test_document.py makes a handful of edits; the re-use of tokens left and right of the edit depends on edit position, length and nesting, so an error shows only for particular texts and edits.",
 ["parce/treebuilder.py","parce/treebuilderutil.py","parce/lexer.py","parce/tree.py"],
 [("build_new_tree: head and tail token re-use","parce/treebuilder.py"),("replace_tree: splicing and position shift","parce/treebuilder.py"),("get_prepared_lexer: restart position and re-check","parce/treebuilderutil.py")],
 ["TreeBuilder.root after rebuild()","TreeBuilder.lexicons"])
p("C02","Lexing is sound, total and terminates for every bundled language",
 "For any text and any bundled language, parsing terminates without an exception and yields a well-formed tree: the tokens are non-empty, in text order, do not overlap and each carries exactly the text found at its position. Every context below the root is non-empty, every parent link is right, also with circular default targets or targets that would leave the root, and the event stream, the directly built tree, and the builder's tree all describe the same structure.",
 ["inputs","configurations"],"every text, every bundled root lexicon",
 "tests only parse one or two example files per language.",
 ["parce/lexer.py","parce/lexicon.py","parce/treebuilder.py","parce/lang/","parce/tree.py"],
 [("Lexer.events: target handling, circular target detection","parce/lexer.py"),("build_tree","parce/treebuilder.py"),("language definitions","parce/lang/")],
 ["parce.events()","parce.root()","TreeBuilder.tree()"])
p("C03","Changes that arrive while a tree is being built are never lost",
 "When further changes (text edits or a new root lexicon) arrive at any moment while the tree is being rebuilt for earlier ones, the finished tree and the reported open lexicons equal those of parsing the last text with the last root lexicon from scratch. No change is lost or applied twice, and the builder becomes idle again.",
 ["histories","schedules"],"every edit pair or triple and every point between two parsed tokens, or between the build and replace stages, at which the later edit can arrive",
 "the arrival point inside a build is a matter of timing; the tests never inject a change during a build deterministically.",
 ["parce/treebuilder.py","parce/treebuilderutil.py"],
 [("build_new_tree: restart when changes are pending","parce/treebuilder.py"),("Changes.add: merging of changes","parce/treebuilderutil.py"),("process: loop until no changes are left","parce/treebuilder.py")],
 ["TreeBuilder.root, .lexicons, .busy after the process generator is exhausted"])
p("C04","The reported updated region covers everything that changed",
 "After any update of the tree, the reported start and end positions enclose every token that is new, was removed, or now has another text, action, group or ancestry than before: tokens that end before the start equal the tokens that were there at the same position, and tokens that begin at or after the end equal the old ones, shifted by the change in length. The region is within the text, and listeners get exactly the same region as the builder stores.",
 ["histories","inputs"],"every edit history, including updates that combine several changes",
 "the tests never look at the reported range, and an error shows only when the re-tokenized part is larger than the edit.",
 ["parce/treebuilder.py","parce/treebuilderutil.py","parce/work.py","parce/__init__.py"],
 [("BuildResult/ReplaceResult start, end, offset","parce/treebuilder.py"),("Changes.new_position","parce/treebuilderutil.py")],
 ["TreeBuilder 'updated' event, .start/.end","Worker/Document 'tree_updated' event"])
p("C05","A waited-for tree or transform is complete and current under all schedules",
 "Whatever the interleaving of the thread that edits a document with background tokenizing and transforming, asking for the tree or the transformed result with waiting returns the complete result for the text as edited so far, never a partial, inconsistent or outdated one. Asking without waiting returns either nothing or that same complete result, a requested callback is called exactly once, and no schedule deadlocks, raises in any thread or leaves the worker busy for ever.",
 ["schedules","histories"],"every interleaving (up to a preemption bound) of edits, root lexicon or transformer changes and result requests with the background thread",
 "tests run with whatever schedule the operating system picks.",
 ["parce/work.py","parce/treebuilder.py","parce/transform.py"],
 [("Worker state machine and condition","parce/work.py"),("BackgroundWorker.run_process","parce/work.py"),("TreeBuilder.process/add_changes busy hand-over","parce/treebuilder.py"),("Transformer.interrupt","parce/transform.py")],
 ["Document.get_root(wait), get_transform(wait), callbacks, 'tree_finished'/'transform_finished'"])
p("C06","Transforms: text, tree and incrementally updated results agree",
 "Transforming a text directly, transforming the tree of that text, and the result kept up to date over any history of edits with partial results reused, all give equal results. Every transform method gets the tokens and sub-results of its own context in order, with contexts that have no method skipped (or passed on untransformed when asked for), and an edit never fails because of the transform cache.",
 ["histories","inputs"],"every text and edit history, every assignment of transform methods to lexicons",
 "tests transform a few fixed texts once; the cache and its invalidation are never exercised over edits.",
 ["parce/transform.py","parce/work.py","parce/treebuilder.py"],
 [("transform_text: stack of items driven by events","parce/transform.py"),("transform_tree with per-context cache","parce/transform.py"),("invalidate_node/invalidate_context","parce/transform.py, parce/treebuilder.py")],
 ["Transformer.transform_text/transform_tree/result, Document.get_transform()"])
p("C07","Document edits behave as on a string and are applied atomically",
 "Reading, assigning, deleting, inserting and appending by index or slice gives the text that the same operation gives on a plain string, and edits collected in an edit context all refer to the original text and are applied together when the outermost context ends, or not at all when an exception ends it or when they overlap, after which the document is still usable. Search-and-replace, regular expression substitution, translation and trimming change exactly the matches inside the given region, and each change is reported once with a position, removed and added length that exactly turns the old text into the new.",
 ["histories","inputs"],"every sequence of edits and edit contexts on every text",
 "the tests apply a few edits to one text.",
 ["parce/mutablestring.py","parce/document.py"],
 [("_changes collection and _apply_changes","parce/mutablestring.py"),("replace/re_sub/translate/trim","parce/document.py")],
 ["text(), len(), slices, 'text_change' event, revision()"])
p("C08","Undo and redo restore exact earlier texts and modified states",
 "For any history of edits, grouped edits, undos and redos, undo restores exactly the text before the last change not yet undone, redo re-applies exactly the last undone change, and a new edit discards what could be redone. The modified flag follows the text - it is false again exactly in the state in which it was last set false - and the availability and modification notifications are sent precisely when the respective value changes.",
 ["histories"],"every interleaving of edits, grouped edits, undo, redo, clearing and resetting of the modified flag",
 "the tests undo and redo one short scripted history.",
 ["parce/document.py","parce/mutablestring.py","parce/util.py"],
 [("_reverse_changes/_store_undo/_apply_undo_redo","parce/document.py"),("_set_all_undo_redo_modified","parce/document.py")],
 ["text(), modified, can_undo(), can_redo(), events"])
p("C09","Cursors keep denoting the same text through edits",
 "While a document is edited, in one edit or in many edits grouped together and by undo or redo, every cursor start and end moves exactly with the text around it: positions before a change stay, positions after it shift by the change in length, a start inside or at the end of removed text goes to the start of the change, and an end inside removed or exactly at inserted text goes to the end of the new text. Text inserted at a cursor start leaves the start in place, an open end stays open, and cursors do not influence each other.",
 ["histories","inputs"],"every set of cursors and every sequence of single and grouped edits",
 "the tests check one or two cursors with one edit each.",
 ["parce/document.py"],[("_update_cursors","parce/document.py")],["Cursor.pos, Cursor.end after each edit"],
 [("_cursors","the live cursors of a document","parce/document.py")])
p("C10","Blocks partition the text into its lines",
 "For any text and block separator, the blocks a document yields are exactly the pieces between separators, in order and with the right start, end and number, whether reached by position, by number (from either end), by iterating over a region, or by stepping forwards and backwards. Cursor movement to, and selection of, block boundaries and stripping of a selection agree with that partition.",
 ["inputs"],"every text, position, number, region and separator",
 "the tests only iterate over the blocks of one text.",
 ["parce/document.py"],[("find_block*, blocks, Block.next_block/previous_block","parce/document.py")],["Block.pos/.end/.block_number, Cursor.pos/.end"])
p("C11","Tree navigation and search answers match the tree's structure",
 "For any tree, all navigation and search operations - next, previous, siblings, iteration forwards and backwards, common ancestors, finding the token or context at, before, after, left or right of a position, groups, ranges and their slices, height and copies - give the answer that plain enumeration of the tree in document order gives. A range from one position to another denotes exactly the tokens that overlap it.",
 ["inputs"],"every tree, every pair of nodes and every position or pair of positions",
 "navigation code uses binary searches and index trails that the tests only run on one or two trees.",
 ["parce/tree.py","parce/util.py"],[("Node/Token/Context navigation, binary searches","parce/tree.py"),("Range and trails","parce/tree.py")],["return values of the tree API"])
p("C12","Queries select exactly the nodes that satisfy them",
 "For any tree and any chain of query operations, a query yields exactly the nodes the documented meaning of each step selects when applied by plain enumeration, in the documented order, and the counting, boolean, indexing and listing forms agree with it. Queries never alter the tree except for the operations that exist to do so.",
 ["inputs","programs"],"every tree and every query chain",
 "the tests do not exercise queries; the selectors, slices and filters are evaluated lazily in combination.",
 ["parce/query.py"],[("query generators and pygenerator decorator","parce/query.py")],["iteration over Query objects, count(), pick(), ..."])
p("C13","Generated patterns match exactly the given words or characters",
 "The regular expression produced for any collection of words matches exactly those words, preferring the longest at each position, and nothing else; the character class produced from any set of characters matches exactly these. When a pattern is recognised as a plain string that string is the only text the pattern matches, and prefix, suffix and word helpers agree.",
 ["inputs"],"every finite set of words over any characters, every pattern",
 "the tests check a few dozen words; the trie and suffix optimisations depend on how words share beginnings and ends.",
 ["parce/regex.py","parce/rule.py"],[("words2regexp/trie_to_regexp_tuple/common_suffix","parce/regex.py"),("make_charclass","parce/regex.py"),("to_string","parce/regex.py")],["re.fullmatch/match with the produced pattern"])
p("C14","Lexicon rules mean the same however they are compiled",
 "For any lexicon the parsed tokens are those of the documented rule meaning: at every position the first matching rule wins, the earliest match is taken, unmatched text is skipped, given the default action or leaves via the default target, targets pop and push as written without leaving the root, and consuming lexicons receive the opening token. This holds independently of the optimisation used (plain string search or combined pattern), of dynamic actions, patterns and targets, of an inherited or included lexicon, and of a derived lexicon's argument.",
 ["programs","inputs"],"every lexicon definition and every text",
 "tests cover the compiled variants only where the bundled languages happen to use them.",
 ["parce/lexicon.py","parce/lexer.py","parce/target.py","parce/rule.py","parce/ruleitem.py"],
 [("_get_parse_function variants","parce/lexicon.py"),("rule item evaluation","parce/ruleitem.py"),("TargetFactory","parce/target.py"),("Lexer.events","parce/lexer.py")],["Lexicon.parse(), Lexer.events()"])
p("C15","Shared lexicons, actions and caches are created once under all schedules",
 "Whatever threads do at the same time, asking for the same lexicon, derived lexicon, standard action or cached value gives all of them the identical object, and a parse started simultaneously in two threads gives both the result a single thread gets. No schedule raises or deadlocks, and caches refreshed from files always reflect the file's latest content.",
 ["schedules"],"all interleavings of two or three threads up to a preemption bound",
 "single-threaded tests cannot observe check-then-act races.",
 ["parce/util.py","parce/lexicon.py","parce/standardaction.py"],
 [("object_locker, cached_method, cached_property","parce/util.py"),("caching_dict","parce/util.py"),("Lexicon.__getattr__ with build lock","parce/lexicon.py"),("StandardAction creation","parce/standardaction.py")],["identity of returned objects"])
p("C16","Events reach exactly the connected handlers, in order",
 "For any history of connecting, disconnecting and emitting - also from within handlers - an emitted event calls every handler that is connected at that moment exactly once, in order of priority and then of connection, with the arguments as connected (handlers connected meanwhile are called from the next emit on). One-time handlers are called once and then gone, handlers disconnected before their turn are not called, and handlers of objects that no longer exist are dropped. Context managers returned by handlers are entered in order and left in reverse order, and nested switches are on exactly while at least one of their contexts lasts, separately for every instance.",
 ["histories"],"every history of connect, disconnect and emit operations, nested in handlers or not",
 "the tests never exercise connect or disconnect from inside handlers or priorities.",
 ["parce/util.py"],[("Observable.connect/disconnect/emit","parce/util.py"),("Switch","parce/util.py")],["handler calls"])
p("C17","Formatted output keeps the text and formats exactly the right ranges",
 "For any text, language and theme (or several themes), the format ranges are in order, do not overlap, stay in the requested region and give each character the format that the theme (of the language it belongs to) defines for the token there, characters without a token getting none or the default format. HTML output with the tags removed and entities resolved is exactly the original text, with all special characters escaped.",
 ["inputs","configurations"],"every text, region and language/theme combination",
 "the tests only check that output is produced.",
 ["parce/formatter.py","parce/out/html.py","parce/theme.py","parce/util.py"],
 [("Formatter.format_ranges, format caches","parce/formatter.py"),("HtmlFormatter","parce/out/html.py"),("merge_adjacent/fix_boundaries","parce/util.py")],["format_ranges(), html()"])
p("C18","Saving and loading a document round-trips its text and encoding",
 "For any text, encoding, byte order mark and newline setting that can represent it, saving a document and loading it again gives the same text. When loading, the encoding is the one of the byte order mark, else the one the contents declare, else the one given, else the default; when saving, the one given, else the one the document remembers, else the one the contents declare, else the default. A declared encoding that does not exist is ignored, text that can't be represented is reported, and the text is never silently altered.",
 ["inputs","configurations"],"every text, encoding, BOM and newline combination",
 "the tests load and save one file.",
 ["parce/docio.py","parce/util.py"],[("DocumentIOMixin.load/save, DocumentIO","parce/docio.py"),("get_bom_encoding","parce/util.py")],["Document.load(), save(), encoding"])
p("C19","CSS selectors and the cascade follow the CSS rules",
 "For any style sheet and any element tree, a selector matches exactly the elements the CSS meaning of its parts (type, class, id, attribute tests, the structural pseudo classes of the module and those the element reports, and the combinators) says, and the computed value of each property is the one of the most important, most specific, latest declaration that matches. Strings, escapes, numbers, colors and urls have the value CSS gives them; @media-like conditions and @import (circular ones included) contribute their rules in place. Themes give every standard action the style of its own class combined with those of its parents accordingly, and a text format has the colors, decorations and font attributes its declarations (shorthands included) specify.",
 ["inputs","programs"],"every style sheet, element tree and action",
 "the tests check a few selectors on one sheet.",
 ["parce/css.py","parce/theme.py"],[("StyleSheet/Style/Rule selection and specificity","parce/css.py"),("Theme.get_style/textformat","parce/theme.py")],["select_*, properties(), TextFormat"])
p("C20","Auto-indent changes only leading whitespace and is stable",
 "For any text in a language with indenting rules, indenting a region changes nothing but leading whitespace of lines in that region, gives every line the indent that the nesting opened and closed before it calls for (relative to the existing indent of the lines before the region), and indenting again changes nothing. Auto-indenting a single line of an indented text gives it that same indent. Increasing and then decreasing the indent restores the text, and stripping removes only trailing blanks.",
 ["inputs"],"every text, region and indent setting",
 "the tests indent one example.",
 ["parce/indent.py","parce/lang/"],[("Indenter.auto_indent/indent_info/indent","parce/indent.py")],["text after indent()"])
p("C21","Language transforms produce the values the text denotes",
 "For any valid JSON text the JSON transform yields the value the standard json module yields: the same keys in the same order, strings with all escapes, numbers of the same value. The CSV transform yields the records and fields of an RFC 4180 text (None for an empty field, '' for an empty quoted one, no record for a blank line, records ended by LF or CRLF), the INI transform the sections, keys and values (stripped, escapes and continuation lines translated, comments left out, None for a value that is absent right after the '='), and the numerals transforms (English, Nederlands, Deutsch, Français) every number below a thousand million from its usual spelling, in any case, with spaces or hyphens, and several numbers as a list. Text that is not valid never makes the JSON, CSV and INI transforms fail.",
 ["inputs"],"every text of the bundled data languages that have a transform",
 "the tests transform one sample per language.",
 ["parce/lang/json.py","parce/lang/csv.py","parce/lang/ini.py","parce/lang/numbers.py"],
 [("Transform classes of the language modules","parce/lang/")],["parce.transform.transform_text()"])
p("C22","Languages are found by name, file name, mime type and contents as registered",
 "For any set of registered languages, lookup by name, file name pattern, mime type or contents returns exactly the language with the best documented score, ties by registration, falling back to the parent registry and to nothing when none matches. Every bundled language can be found by its own name and file patterns, and registering twice, overriding or removing changes only that entry.",
 ["configurations","inputs"],"every registry content and query",
 "the tests look up a few names.",
 ["parce/registry.py","parce/lang/_registry.py"],[("Registry.find/suggest/lexicon","parce/registry.py")],["parce.find(), Registry.suggest()"])
p("C23","Documents report exactly the tokens at a position, range or block",
 "After any history of edits, Document.token(pos) and Cursor.token() give the token that starts at or contains that position, else the one that ends there, else the next one on the same line. Cursor.tokens() gives exactly the tokens that are in or overlap the selection, in order, and Block.tokens() exactly those that are in or overlap that line. They are the tokens of the tree of the current text, so their text is the document's text at their position; a line without tokens gives none.",
 ["histories","inputs"],"every edit history, position, selection and line",
 "the tests look up one or two positions in one text.",
 ["parce/work.py","parce/document.py","parce/tree.py"],[("WorkerDocumentMixin.token","parce/work.py"),("Cursor.token/tokens, Block.tokens","parce/document.py"),("Context.find_token, Range","parce/tree.py")],["Document.token(), Cursor.token(), Cursor.tokens(), Block.tokens()"])
p("C24","The validator reports exactly the broken languages",
 "For any language definition, validation fails if and only if a lexicon has a malformed rule (no pattern and action, a pattern that is no regular expression, a target that is neither a lexicon nor a number, in any branch of a dynamic rule and after any action), more than one default rule, or default targets that run away by entering ever more contexts without moving on. Circular default targets that the lexer handles are not errors, and a language that validates never makes the lexer run away at default targets. The introspection functions list every lexicon of a language, inherited ones included, and every standard action and other language that parsing any text with it can bring, other than by computed actions. A transform validates if and only if it has a method (or None) for every lexicon.",
 ["programs","inputs"],"every language definition and every text",
 "the tests only validate the bundled languages, which are correct.",
 ["parce/validate.py","parce/introspect.py","parce/ruleitem.py"],[("LexiconValidator.check_default_target/validate_rule","parce/validate.py"),("lexicons, standardactions, languages","parce/introspect.py"),("variations, variations_tree","parce/ruleitem.py")],["validate_language(), validate_transform(), LexiconValidator.errors, introspect.*"])
p("C25","Bundled Python, TOML, XML and HTML languages agree with reference parsers",
 "For any text that is valid in the language, the tokens say what the text is. In Python, the comments, strings (all prefixes and quotes, with the expressions in f-strings), numbers, keywords, names and multi-character operators are those of Python itself, every bracket closes the context that its partner opened, and nothing is called invalid. In TOML, the keys, tables and values are those of the TOML specification. In XML, XHTML and HTML, the elements, attributes, comments, CDATA sections, processing instructions, entities and text are those an XML (or HTML) parser reports, each element's contents being in a context of its own that ends at its end tag (void HTML elements having none).",
 ["inputs"],"every valid text",
 "the tests only parse one or two files per language and look at nothing but the number of tokens.",
 ["parce/lang/python.py","parce/lang/toml.py","parce/lang/xml.py","parce/lang/html.py"],[("Python, Toml, Xml, XHtml and Html lexicons","parce/lang/")],["tokens and contexts of parce.root()"])
p("C26","Actions, dispatchers and sister classes resolve along their hierarchy",
 "For any hierarchy of standard actions, however and in whatever order they are created, the same dotted name is the same object (copies too); an action is `in` another one exactly when that one is itself or one of its ancestors, a name is `in` an action when one of its parts has that name, iteration gives the action and then its parents, and `&` gives the deepest common ancestor or None. For any class hierarchy and order of use, a dispatcher calls for a key the method that the nearest class in the method resolution order with a dispatcher for that key names, as overridden by the class of the instance, with the other arguments; other keys go to the default method or are ignored. A language's sister class is the one with its name in its own module that has the right base, or (if asked) that of its nearest parent that has one.",
 ["programs","histories"],"every action and class hierarchy, and order of creation and use",
 "the tests use the fixed bundled hierarchies only.",
 ["parce/standardaction.py","parce/util.py"],[("StandardAction","parce/standardaction.py"),("Dispatcher, language_sister_class, unroll, split_list","parce/util.py")],["in, &, iteration of actions; methods called by a dispatcher"])
p("C27","Scheme numbers have their Scheme value, and Scheme texts their structure",
 "For any Scheme (R5RS) number text - integers, decimals, fractions, exponents with any marker, unknown digits (#), infinities, complex numbers in rectangular and polar form, with radix and exactness prefixes in any order and case - the number read from its tokens has the value and the exactness Scheme gives it, and text that is no number but is taken for one raises ValueError (or ZeroDivisionError). For any valid Scheme text the comments, strings, characters, booleans, numbers, identifiers, quotes and dots are those of Scheme, and every parenthesis closes the list or vector that its partner opened.",
 ["inputs"],"every Scheme text",
 "the tests read twenty numbers and no other text.",
 ["parce/lang/scheme.py"],[("Scheme lexicons, scheme_number()","parce/lang/scheme.py")],["scheme_number(), scheme_number_from_text(), tokens and contexts of parce.root()"])
p("C28","Comments, strings and brackets end where the language says they do",
 "For any valid text in C, JavaScript, CSS, LilyPond, LaTeX, Texinfo, Troff, Tcl and Bash, exactly the characters of comments have a Comment action and exactly those of strings a String action, whatever quotes, escapes, comment signs or brackets the text puts inside strings, comments, regular expressions, templates, here documents and substitutions; and after any prefix the open bracket contexts (braces, parentheses, environments, groups, template expressions, command substitutions) are those of the brackets that are really open.",
 ["inputs"],"every valid text in these languages",
 "the tests contain no text in most of these languages.",
 ["parce/lang/c.py","parce/lang/javascript.py","parce/lang/css.py","parce/lang/lilypond.py","parce/lang/tex.py","parce/lang/texinfo.py","parce/lang/troff.py","parce/lang/tcl.py","parce/lang/bash.py"],[("lexicons for strings, comments and nested constructs","parce/lang/")],["actions of the tokens and open contexts in the tree of parce.root()"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
