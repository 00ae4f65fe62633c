"""The properties, the modules that decide them, and the generator of
properties.jsonl and MANIFEST.json:  python3 vp/catalog.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SF, CF, YP, DL = "src/StarFile.nw", "src/CifFile_module.nw", "src/YappsStarParser.nw", "src/drel/"
PROPS = []


def P(pid, module, title, statement, over, text, why, files, mech, note, observe=()):
    PROPS.append(dict(pid=pid, module=module, note=note, line={
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None}}))


P("C01", "value_roundtrip", "Every data value survives being written and re-read",
  "Any data value placed in a block (as an item or a loop cell) and written out is returned unchanged when the text is "
  "read back with the same grammar: text of any length and content, reserved words, delimiters, line-folding or prefix "
  "look-alikes, Unicode, numbers (as their decimal text) and, for CIF2/STAR2, nested lists and tables. The text written "
  "is valid for the grammar, so another conforming reader obtains the same value.",
  ["inputs"], "all strings over the grammar's character set (no CR), finite numbers, nested lists/tables; grammars 1.0, "
  "1.1, 2.0, STAR2; item or loop position",
  "tests write a handful of fixed strings; the delimiter, folding, prefix and wrapping choices depend on arbitrary "
  "combinations of characters, lengths and column positions",
  [SF, YP], [("choice of delimiter", SF + " _formatstring"), ("value formatting", SF + " format_value"),
             ("line folding and prefixing", SF + " apply_line_folding/apply_line_prefix"),
             ("line breaking", SF + " CIFStringIO.write"), ("value stripping on input", YP + " stripstring/stripextras")],
  "random search, about 20000 files per quick run, against an independent reader written from the published syntax and "
  "against re-reading; carriage returns inside values are excluded", ["CifFile.WriteOut", "ReadCif"])

P("C02", "read_conformant", "Conformant text is read as exactly the content it states",
  "Reading any text that conforms to the requested grammar yields exactly the data blocks, save frames, items, loops and "
  "values the text states, whatever delimiters, white space, comments, keyword case, line folding, text prefixes or "
  "CR/LF/CRLF line endings were used to write it down. Nothing is lost, added, reordered or attached to a different "
  "block, and it makes no difference whether the text comes as a string stream or as UTF-8 bytes.",
  ["inputs"], "all conformant CIF 1.0, 1.1, 2.0 and STAR2 texts",
  "the tests read a few fixed files; tokenisation depends on every combination of neighbouring delimiters, comments and "
  "line breaks",
  [YP, SF], [("token definitions", YP), ("input handling", SF + " ReadStar"), ("value stripping", YP + " stripextras")],
  "random search with an emitter that draws every free choice of the syntax, and an independent reader that must agree "
  "with the model first", ["ReadCif"])

P("C03", "file_roundtrip", "Whole files survive being written and re-read, and writing is stable",
  "A file built through the API from any blocks, save frames (nested for STAR2), items and loops, when written out and "
  "re-read with the same grammar, has the same blocks and frames with the same hierarchy, items, loop groupings, order, "
  "values and letter case of names. The text is valid for the grammar (with the CIF2.0 magic line where due), follows a "
  "requested block order and header comment, and writing the re-read file gives the same text again.",
  ["inputs", "configurations"], "all models of blocks/frames/items/loops; grammars; block orders; CIF and dictionary "
  "layouts; string or on-disk transport under any file name",
  "tests compare selected values of a few files after a rewrite, never the whole structure of arbitrary files",
  [SF, CF, YP], [("file output", SF + " WriteOut"), ("block output", SF + " printsection/format_packets"),
                 ("frame merging on input", SF + " merge_fast"), ("loop construction", YP + " makeloop")],
  "random search against a model and an independent reader", ["CifFile.WriteOut", "ReadCif"])

P("C04", "output_limits", "Output line limits are honoured without altering the data",
  "When a file of text and number values is written with a maximum output line length (100 or more, given at "
  "construction or when writing) no line of the text is longer than that. Whatever wrap and maximum lengths are chosen, "
  "the text is valid for the grammar and re-reads as the same data.",
  ["inputs", "configurations"], "all text and number values up to several thousand characters, wide loops, wraplength "
  "20-120, maxoutlength 100-2048, all grammars",
  "the tests use one non-default length with one value",
  [SF], [("line writer", SF + " CIFStringIO.write"), ("line folding", SF + " apply_line_folding"),
         ("length settings", SF + " SetOutputLength/WriteOut")],
  "random search against an independent reader", ["CifFile.WriteOut", "ReadCif"])

P("C05", "text_protocols", "Line folding and text prefixing are exact inverses",
  "For any text, folding followed by unfolding, and prefixing followed by removing the prefix (alone or combined), give "
  "back the text exactly; folded lines are no longer than the requested maximum and every prefixed line carries the "
  "prefix. Text folded or prefixed by any other conforming writer is restored exactly, text that does not use a protocol "
  "(including text where only some lines carry a would-be prefix) is left alone, and a prefix that starts with a "
  "semicolon or holds a backslash is refused.",
  ["inputs"], "all texts without CR/FF/VT, all widths and legal prefixes",
  "tests fold about six short strings at one width; the failing combinations involve trailing backslashes, blank lines "
  "and break positions",
  [SF], [("folding", SF + " apply_line_folding/remove_line_folding"),
         ("prefixing", SF + " apply_line_prefix/remove_line_prefix")],
  "random search against round-trip and an independent implementation of both protocols",
  ["apply_line_folding", "remove_line_folding", "apply_line_prefix", "remove_line_prefix"])

P("C06", "scanner_equivalence", "The compiled scanner reads every text exactly as the Python scanner does",
  "For CIF 1.0 and 1.1, reading a text with the compiled scanner gives the same blocks, items and values as reading it "
  "with the Python scanner, and rejects it exactly when the Python scanner does. This holds for texts of any size (long "
  "values, many thousands of values) and whatever was read before, including after a reading that failed.",
  ["inputs", "histories"], "all texts over the CIF 1.x character set, conformant or not; sequences of readings in one process",
  "the tests read a few small files with both scanners; buffer refills, memory growth and differing character classes "
  "depend on size and content",
  ["src/lib/star.l", "src/lib/lex.yy.c", "src/lib/py_star_scan.c", "src/yapps3_compiled_rt.py", YP],
  [("compiled tokeniser", "src/lib/star.l"), ("token store", "src/lib/py_star_scan.c"),
   ("scanner selection", SF + " ReadStar")],
  "random differential search, both scanners against each other and, for conformant text, against the model", ["ReadCif"])

P("C07", "clean_rejection", "Any input is either read coherently or rejected cleanly",
  "Given any text or bytes whatever, with any grammar, scanner and scoping setting, reading terminates and either raises "
  "StarError or returns a coherent file: every item retrievable, loops rectangular, names unique regardless of case, "
  "every frame's parent present. A file that was accepted can be written out and re-read with the same content, and "
  "nothing of a failed or earlier reading is left over in the next one.",
  ["inputs", "histories"], "arbitrary strings and byte strings (near-valid ones most), all grammar settings, both scanners, "
  "permissive or not, sequences of readings",
  "tests try a few broken files; parser state, partial blocks and error paths depend on where the text breaks",
  [SF, YP, "src/yapps3_compiled_rt.py"], [("reading", SF + " ReadStar"), ("parser", YP), ("block merging", SF + " merge_fast")],
  "random search over mutated conformant texts and random fragments", ["ReadCif", "StarError"])

P("C08", "reject_invalid", "Text that breaks the syntax or the data model is rejected",
  "Reading with a given grammar raises StarError, never a partial or altered result, when an otherwise conformant text "
  "holds a repeated block, sibling save frame or data name (case ignored), a loop whose values do not fill its rows, a "
  "missing or surplus value, an unterminated or mismatched delimiter, a reserved word used as data, content outside a data "
  "block, a name that is too long (over 75 characters) or uses characters outside the grammar, or, for CIF2.0, no magic line.",
  ["inputs"], "conformant texts of every grammar with one defect of about 30 kinds at any place; both scanners",
  "tests hold about a dozen broken files, each with the defect in one fixed place",
  [YP, SF], [("grammar", YP), ("loop construction", YP + " makeloop"), ("duplicate detection", SF + " AddItem/merge_fast/NewBlock")],
  "random search; each case is first shown to be accepted without the defect", ["ReadCif", "StarError"])

P("C09", "input_handling", "Grammar detection, encodings and transports do not alter content",
  "Reading with grammar 'auto' or None gives the same content as naming the right grammar, detects CIF2.0 by its magic line, "
  "otherwise the first of 1.1 and 1.0 that fits, and remembers the grammar for output. The same data is obtained from a "
  "string or byte stream, a file path, a file URL or the constructor, with or without a byte order mark; bytes that are not "
  "UTF-8 are refused unless permissive, when they are read as Latin-1; and lines over a stated maximum input length are refused.",
  ["inputs", "configurations"], "conformant texts of every grammar, file names with special characters, encodings, maximum lengths",
  "tests read ASCII files from a few paths with the grammar named",
  [SF, CF], [("grammar selection, decoding, location", SF + " ReadStar"), ("reading entry point", CF + " ReadCif")],
  "random search over texts, names and encodings", ["ReadCif", "CifFile"])

P("C10", "block_model", "A block is a caseless ordered mapping with loops through any history",
  "Through any history of setting, deleting, looping, re-looping, moving, adding and removing columns or rows, locking and re-reading, a block holds "
  "for every name, in any letter case, exactly the value last given, each name belongs to at most one loop, and loops and item order are as the "
  "operations state (including requested positions). Operations that cannot be honoured (bad names or values, unequal or unlisted columns, absent "
  "names, overwriting a locked block) raise an error and change nothing, and the text written holds the items and loops in item order, spelled as last set.",
  ["histories", "inputs"], "sequences of up to 40 public operations over seven names; CIF1.1 and CIF2.0 blocks",
  "tests exercise single operations on fixed blocks; the item order, the loop table, the case table and the value table must stay consistent in every combination",
  [SF, CF], [("items", SF + " StarBlock.AddItem/RemoveItem"), ("loops", SF + " StarBlock.CreateLoop/AddLoopName"), ("order", SF + " ChangeItemOrder"),
             ("loop view", SF + " LoopBlock")],
  "random histories; setting a looped column to a list of another length is outside the domain", ["CifBlock", "CifFile.WriteOut"])

P("C11", "packets", "Loop rows can be iterated, looked up, added and removed exactly",
  "The rows of a loop, whether read or built, are obtained by iteration and by index in order, with every value available by position and by dataname "
  "in any letter case, as copies whose modification does not touch the block. A lookup by one key or a compound key, exact or caseless, returns "
  "the single matching row and raises an error when none or several match. Adding a packet appends exactly that row (or raises and changes nothing if a "
  "value is missing) and removing one by key value removes exactly the first matching row, leaving every other loop and item as it was.",
  ["inputs", "histories"], "loops of 1-5 columns and 1-7 rows with repeated and case-varied keys; up to seven changes",
  "tests look up two or three fixed rows; repeated keys, case variants and rows changed after reading are not sampled",
  [SF], [("rows", SF + " LoopBlock.__iter__/GetPacket/AddPacket"), ("lookup", SF + " GetKeyedPacket/GetCompoundKeyedPacket"), ("removal", SF + " RemoveKeyedPacket")],
  "random loops and histories against a table", ["CifBlock.GetLoop", "LoopBlock"])

P("C12", "collection_model", "A file is a consistent tree of caselessly named blocks through any history",
  "Through any history of adding, replacing, renaming, deleting (with everything nested inside) and re-parenting data blocks and save frames, switching "
  "scoping and re-reading, every block keeps its contents, name and enclosing block, is found by name in any letter case, and all hierarchy queries, "
  "sub-collections and the written text agree. Only top-level blocks are visible under instance scoping and all of them under dictionary scoping. Repeated names in "
  "one place, over-long names, and absent blocks are refused without changing anything; a save frame may share the name of a data block or of a frame in another block.",
  ["histories", "configurations"], "histories of up to 40 operations over eight names; grammars 1.1, 2.0, STAR2; both scopings; with and without a standard",
  "tests perform single renames or deletions; the child table, key tables, visibility list and block order must stay in step in every combination",
  [SF, CF], [("blocks", SF + " BlockCollection.NewBlock/__delitem__"), ("renaming", SF + " rename/_rekey"), ("hierarchy", SF + " get_children/makebc/set_parent"),
             ("reading into a collection", SF + " merge_fast")],
  "random histories against a tree model", ["CifFile", "CifFile.WriteOut"])

P("C13", "copy_independence", "Copies of blocks and files are complete and independent",
  "A copy of a data block (copy(), a block constructed from another, or a deep copy) or of a file (copy() or a deep copy) holds the same items, loops, order, "
  "spelling, blocks and hierarchy, and writes the same text. Afterwards no change to the one, by any sequence of operations or in place on a value it returned, "
  "is visible in the other.",
  ["histories"], "blocks and files reached by random histories, copied and then changed on both sides",
  "tests copy nothing that is then changed; sharing shows only after particular later changes",
  [SF, CF], [("block copies", SF + " StarBlock.__init__/copy"), ("file copies", SF + " BlockCollection.copy")],
  "random histories, each side against its own model", ["CifBlock.copy", "CifFile.copy"])

P("C14", "merging", "Merging blocks and files adds or replaces exactly what is asked for",
  "Merging one block into another adds its items and loops; in strict mode (the default) common names other than the match attributes are refused and nothing changes, "
  "in replace mode they take the incoming value and loop while everything else, the match attributes included, stays. Merging a file adds its blocks "
  "and frames in their places; blocks of the same name or match attribute are refused in strict mode and replaced in replace mode, the identification block is skipped, "
  "and in both cases the incoming block or file is left as it was and the written text agrees with the result.",
  ["inputs", "configurations"], "pairs of blocks over eight names, pairs of files over six block names with optional frames; strict and replace modes",
  "no test merges two blocks or files; the outcome depends on how the loops and names of both overlap",
  [SF], [("block merge", SF + " StarBlock.merge"), ("file merge", SF + " BlockCollection.merge/merge_fast")],
  "random pairs against a set-level model; overlay mode is not implemented by the package", ["CifBlock.merge", "CifFile.merge"])

P("C15", "template_output", "Templates change the layout of the output, never the data",
  "Writing with a template (given before or after the blocks are added, as a file or a stream) gives valid text holding the same names, values and loops, except that "
  "multi-line text for which the template shows indentation has its white space rearranged. Items and loop columns named in the template come in its order, followed "
  "by all others in their own order; names and values start in the template's columns with its delimiters wherever the values and the space allow.",
  ["inputs", "configurations"], "templates of up to seven items and loops over twelve confusable names; blocks of any text (layout: words); grammars 1.1, 2.0 and STAR2",
  "two tests look at one template; names are searched for in the template text, and delimiters wanted must give way to what the value needs",
  [SF], [("template reading", SF + " process_template"), ("ordering", SF + " create_ordering"), ("printing", SF + " printsection/format_packets/_formatstring/do_wrapping")],
  "random templates and blocks; exact layout judged for plain words", ["CifFile.SetTemplate", "CifFile.WriteOut"])

P("C16", "drel_expressions", "dREL expressions mean what the language says",
  "Every well-formed dREL expression, when its method is parsed, translated and executed, yields the value the language "
  "defines for it: numbers in all notations, all string forms, lists, tables, vectors and matrices, subscripts and slices, "
  "attribute access, arithmetic with the usual precedence and associativity, comparisons, membership, and/or/not and the "
  "built-in functions.  Spelling of keywords, parentheses beyond those needed and white space make no difference.",
  ["inputs"], "all well-typed expression trees over the dREL grammar, printed with every free choice of layout",
  "tests evaluate a few dozen fixed expressions; precedence, translation and typing errors need particular nestings",
  [DL + "drel_lex.py", DL + "drel_ast_yacc.py", DL + "py_from_ast.nw", DL + "drel_runtime.nw"],
  [("tokens", DL + "drel_lex.py"), ("grammar", DL + "drel_ast_yacc.py"), ("translation", DL + "py_from_ast.nw"),
   ("runtime functions", DL + "drel_runtime.nw")],
  "random search over typed expression trees against an independent evaluator; multi-line strings (documented as "
  "unsupported) are not generated", ["drel_ast_yacc.parser.parse", "py_from_ast.make_python_function"])

P("C17", "drel_statements", "dREL statements do what the language says",
  "Executing any dREL method performs its statements as the language defines: plain and augmented assignments, if/elseif/"
  "else, do with any bounds and step, repeat, for over lists, loop and with over categories, next and break, and function "
  "definitions and calls, nested in any way.  A variable holds the value last assigned to it, data and other variables are "
  "not altered by statements that do not name them, and the result is that of the target item.",
  ["inputs", "histories"], "all programs over the statement grammar whose loops end, with nesting",
  "tests run a few dozen fixed methods; scoping, loop bounds and interplay of nested control flow depend on the program",
  [DL + "drel_ast_yacc.py", DL + "py_from_ast.nw", DL + "drel_runtime.nw"],
  [("grammar", DL + "drel_ast_yacc.py"), ("translation", DL + "py_from_ast.nw"), ("runtime", DL + "drel_runtime.nw")],
  "random search over programs against an independent interpreter", ["py_from_ast.make_python_function"])

P("C18", "drel_layout", "dREL layout does not matter and bad dREL is refused cleanly",
  "How a dREL method is laid out (blank lines, comments, continuation after operators and inside brackets, line breaks or "
  "semicolons between statements, braces or single-statement bodies, letter case of keywords) does not change how it is "
  "understood.  A text that is not a dREL method is refused with an error rather than given a meaning, and whatever text "
  "was refused, the next method is understood as if it came first.",
  ["inputs", "histories"], "all programs in pairs of layouts; damaged programs; sequences of good and bad methods",
  "newline handling is a state machine in the lexer shared by all methods; its states are reached by histories",
  [DL + "drel_lex.py", DL + "drel_ast_yacc.py"],
  [("lexer states", DL + "drel_lex.py"), ("newline and grammar rules", DL + "drel_ast_yacc.py")],
  "random search; 'not a dREL method' is restricted to damage that is certain by construction (unbalanced brackets, missing "
  "operands, stray tokens)", ["drel_ast_yacc.parser.parse"])

P("C19", "derivation", "Missing values are derived as the dictionary says",
  "When a DDLm dictionary is assigned to a data block and values are provided, asking for an item gives the value in the "
  "block (also when it stands there under an alias), or else the value its dREL methods give, or else its default; unknown "
  "('?') items count as missing, loop items get one value per packet, and category methods fill whole categories.  Methods "
  "see other items, packets found by key, packets of a loop over a category (with index, test, next and break) and "
  "Current_Row as the dictionary language defines, derived in turn when missing.  The answer does not depend on the order "
  "in which items are asked for, and an item that cannot be derived leaves the block usable.",
  ["inputs", "histories"], "all dictionaries of Set and Loop categories with keys, links, aliases, defaults, functions and methods; all orders of request",
  "tests derive some thirty fixed items; the interplay of missing values, loops, aliases, defaults and order of request is unbounded",
  ["src/CifFile_module.nw", "src/StarFile.nw", DL + "py_from_ast.nw", DL + "drel_ast_yacc.py"],
  [("derivation", "src/CifFile_module.nw"), ("packets", "src/StarFile.nw"), ("translation", DL + "py_from_ast.nw"), ("grammar", DL + "drel_ast_yacc.py")],
  "random search over dictionaries and blocks against an independent evaluator; whether a derivation may use defaults is decided for the whole "
  "request, as documented; cases in which a method names an item of its own category that has no value, but does not need it, are not judged",
  ["CifDic.derive_item", "StarBlock.__getitem__", "py_from_ast.make_python_function"])

P("C20", "validation", "Validation reports exactly what breaks the dictionary's rules",
  "Validating a data file against a DDL1 or DDLm dictionary reports, for every block, exactly the items and loops that break a "
  "rule of the dictionary: type and type construct, uncertainty, enumeration, range, looping, common category, required loop "
  "items, references, parents and children, uniqueness and exclusion.  Names the dictionary does not define are listed and do "
  "not make a block invalid; case of datanames does not matter; no input makes validation fail with an exception, and the file "
  "validated is left as it was.  A validated block refuses the changes that would break these rules and accepts the others.",
  ["inputs", "histories"], "all dictionaries over these attributes; all data files",
  "tests validate a dozen fixed values; the interplay of attributes of several definitions with loops and missing or renamed items is unbounded",
  ["src/CifFile_module.nw"],
  [("validation", "src/CifFile_module.nw")],
  "random search against an independent model of validity",
  ["CifFile.Validate", "CifFile.ValidCifBlock"])

P("C21", "parser_generator", "Generated parsers accept exactly the language of their grammar",
  "For every grammar whose choices can be made from the next token, the parser yapps generates accepts exactly the inputs of the grammar's language, "
  "executing the actions with the matched texts, results and parameters in order, in context sensitive and insensitive scanning and with either of its grammar "
  "parsers.  Every other input is refused with a report of the line and position of the first text that cannot continue it.  Clauses that cannot be told "
  "apart and parts that may be empty are warned of, exactly, and malformed grammars are refused naming the line.",
  ["inputs"], "all grammars in the notation; all inputs",
  "the tests only exercise the parsers of five fixed grammars",
  ["src/yapps3/parsetree.py", "src/yapps3/grammar.py", "src/yapps3/yapps_grammar.py", "src/yapps3/yapps2.py", "src/yapps3_compiled_rt.py"],
  [("generation", "src/yapps3/parsetree.py"), ("grammars", "src/yapps3/grammar.py"), ("run time", "src/yapps3_compiled_rt.py")],
  "random grammars and inputs against an interpreter of the grammar",
  ["yapps2.py", "generated parsers"])

P("C22", "dictionary_edit", "An edited dictionary is the dictionary it was, but for the edits",
  "Through any history of adding, renaming, moving and removing categories and definitions, changing their contents, copying "
  "and re-reading, a DDLm dictionary holds exactly the definitions the edits leave, each found by its identifier in any letter "
  "case, with identifier, category, object and frame in agreement.  The queries on the category tree (children, "
  "descendants, items, unattached definitions) and the text written, categories before their members, state the same.  An edit "
  "that would clash with another definition, name an absent category or make a category its own ancestor is refused and changes nothing.",
  ["histories"], "all DDLm dictionaries with one Head category, with nested, outside and empty categories; histories of edits",
  "the tests make one edit each on one dictionary and look at one entry; tables, frame names and tree must agree after any sequence",
  [CF, SF], [("edits", CF + " Definition manipulation methods"), ("definition table", CF + " create_def_block_table"),
             ("category tree", CF + " ddlm_immediate_children"), ("output", CF + " get_full_child_list")],
  "random histories against a model", ["CifDic"])

P("C23", "dictionary_import", "Dictionaries are combined as their import statements say",
  "Loading a DDLm dictionary whose definitions import from other files (which may import in turn) gives exactly its own definitions "
  "with the attributes of the frames they import, together with every imported category, its descendants and "
  "their definitions, attached to the importing category, the dictionary's own definitions taking precedence.  A missing or duplicate "
  "target is an error or is skipped as the statement asks, and loading without imports, or following them on demand, agrees with this.",
  ["inputs", "configurations"], "sets of dictionary files with contents and full imports of frames, categories and heads, several levels deep",
  "the tests load two fixed dictionaries and look at single attributes",
  [CF], [("imports", CF + " obtain_imports/ddlm_import"), ("imports on demand", CF + " DicBlock.follow_import/lookup_imports")],
  "random search against a model; overlapping attributes and dupl Replace are excluded", ["CifDic"])

P("C24", "validate_program", "validate_cif reports exactly what is wrong with a file",
  "The validate_cif program, given data files and dictionaries by file name and directory, or by name and version in a registry, prints for every "
  "data block the verdict, the names no dictionary defines, and under each rule exactly the items that break it with the offending values, as text or as HTML.  "
  "Several dictionaries act as one, and the report names the file and every dictionary.",
  ["inputs", "configurations"], "DDL1 dictionaries in one or two files; data files; all ways of naming dictionaries; both forms of output",
  "no test runs the program",
  ["src/Programs/validate_cif.py", CF], [("program", "src/Programs/validate_cif.py"), ("report", CF + " validate_report"), ("merging", CF + " merge_dic")],
  "random search against an independent model of validity; no network", ["validate_cif.py"])

P("C25", "typed_values", "Values take the type that the dictionary gives them",
  "When a DDLm dictionary is assigned to a data block and values are asked for, an item of the block, present under its name or an alias or given by a default, is returned as its "
  "definition says: a number without its uncertainty, a complex number, a caseless code in lower case, a text as written, or a list or array of them, one for every row of a loop.  "
  "Without provide_value, or for '.', the text is returned, and looking at values does not change the file.  get_number_with_esd gives value and uncertainty of any CIF number, with the exponent applied to both.",
  ["inputs", "configurations"], "all numbers, definitions (containers, contents, dimensions) and data blocks",
  "the tests convert four values and six numbers",
  [CF, SF, "src/TypeContentsParser.nw"], [("conversion", CF + " convert_type"), ("numbers", CF + " get_number_with_esd"), ("access", SF + " StarBlock.__getitem__"), ("contents", "src/TypeContentsParser.nw")],
  "random search against values computed while the text was written", ["StarBlock item access"])

P("C26", "reproducible", "Results do not depend on the process they are computed in",
  "The same operations on the same inputs give the same files, reports, derived values and lists, in the same order, in every process, whatever the order in which sets and hashes are traversed there.",
  ["inputs", "histories", "configurations"], "all operations checked by other properties; hash seeds",
  "the tests run in one process with one hash seed at a time, and compare with fixed values at most",
  [SF, CF], [("writing", SF + " WriteOut"), ("order of definitions", CF + " get_full_child_list"), ("reports", CF + " validate_report")],
  "random search; differential between processes", ["all public functions"])

P("C27", "scanner_memory", "The compiled scanner stays within its memory and gives it back",
  "Whatever text is given to the compiled scanner, and whatever sequence of prepare, token, last_ten and cleanup requests is made (each request for the next token, an earlier one or one that is not there yet), no memory is read or written that is not in use by it, a request gets the token that scanning the text from its start gives or an IndexError, and no reference is lost. Repeating the same requests leaves no more memory in use.",
  ["inputs", "histories"], "all texts; all sequences of requests to the scanner",
  "the tests read a few correct files with it, without looking at its memory, and never ask it for anything out of turn",
  ["src/lib/py_star_scan.c", "src/lib/lex.yy.c", "src/lib/star_scanner.h", "src/yapps3_compiled_rt.py"], [("requests", "src/lib/py_star_scan.c get_input flex_scan get_token get_last_ten drop_mem"), ("buffers", "src/lib/lex.yy.c YY_INPUT yy_get_next_buffer star_clear")],
  "random search over histories with sanitizers and a count of the memory in use", ["StarScan.prepare / token / last_ten / cleanup", "ReadCif(scantype='flex')"])

P("C28", "ddl2_validation", "Data are judged against DDL2 dictionaries as their definitions say",
  "Every item of a DDL2 dictionary and each of its aliases is defined, with its category and links, wherever in the dictionary its name, category and parents are written. A data block is reported valid exactly if each item obeys its type, uncertainty, enumeration, range, dependent items, exclusions, parents, children and unique keys, loops stay within one category and mandatory categories are present. Otherwise exactly the offending items are reported, with the test that fails and the offending values, and neither the data nor the dictionary is changed.",
  ["inputs", "configurations"], "all DDL2 dictionaries without items of several parents, all data files",
  "no test reads a DDL2 dictionary",
  [CF], [("normalisation", CF + " DDL2_normalise create_def_block_table"), ("tests", CF + " validate_*"), ("report", CF + " Validate validate_report")],
  "random search against a model of validity", ["CifDic", "Validate", "validate_report"])

P("C29", "dictionary_validation", "Dictionaries are judged by the rules of their attribute dictionary",
  "A DDLm dictionary validated as such against an attribute dictionary is reported valid exactly if its header and every one of its definitions have all attributes that are mandatory for their scope and none that are prohibited, where a category stands for all attributes in it and below, and obey all rules for data as well (against a DDL2 dictionary, parents may be in any definition, and mandatory categories too); otherwise exactly the offending definitions, tests and attributes are reported. The tables for definitions are not applied to data, and the dictionary is afterwards as before.",
  ["inputs", "configurations"], "all attribute dictionaries with such tables, all dictionaries",
  "no test validates a dictionary",
  [CF], [("tables", CF + " ddlm_parse_valid expand_category_opt"), ("tests", CF + " check_mandatory_items check_prohibited_items run_block_validation"), ("frames", CF + " Validate isdic")],
  "random search against a model of validity", ["CifDic", "Validate(isdic=True)", "validate_report"])

P("C30", "error_reports", "A refused text is reported where it breaks",
  "When a text is refused because of its syntax, the error names the last value read and the last ten tokens before the fault with their exact texts and places (character position, or line with the compiled scanner), and with the Python scanner the report on standard error names the line and column of the first text that cannot stand there, showing that line with a pointer to it. A repeated or over-long name, a repeated block or frame, a loop that is not filled and a line that is too long are named. Nothing of an earlier reading appears in it.",
  ["inputs", "histories"], "all texts made by breaking off a conformant text with one that cannot follow, all grammars and both scanners",
  "the tests expect errors, and never look at what they say",
  [SF, "src/YappsStarParser.nw", "src/yapps3_compiled_rt.py", "src/lib/py_star_scan.c", "src/lib/lex.yy.c"], [("error", SF + " ReadStar"), ("report", "src/yapps3_compiled_rt.py print_error print_line_with_pointer Scanner.__repr__"), ("tokens", "src/lib/py_star_scan.c get_last_ten")],
  "random search against places known from making the text", ["StarError message", "standard error of ReadCif"])

P("C31", "dictionary_programs", "Programs that document and convert dictionaries keep what they say",
  "output_asciidoc writes for a DDLm dictionary its title, version, date, description and the dictionaries it builds on, and for every category and item, each once and under its category (or one of those dictionaries), a section with its name, whether it is a key, its text (own or imported, with names, Greek letters and quotes set as the document language asks), all its values with their meanings and the default, aliases and examples. star2_to_cif2 writes a dictionary in STAR2 as valid CIF2 with the same definitions and values, categories before their members, the description replaced and the comment added when asked for.",
  ["inputs", "configurations"], "all DDLm dictionaries, with the files they import",
  "no test runs these programs",
  ["src/Programs/output_asciidoc.py", "src/Programs/star2_to_cif2.py", CF], [("document", "src/Programs/output_asciidoc.py make_asciidoc prepare_text get_template_text locate_category"), ("conversion", "src/Programs/star2_to_cif2.py do_conversion"), ("order", CF + " get_full_child_list")],
  "random search against the definitions the dictionary was made from", ["output_asciidoc.py", "star2_to_cif2.py"])

P("C32", "constructed_categories", "Categories are constructed from others as the dictionary says",
  "When an item of a looped category without data is asked for, and the dictionary defines the category as a filter of another or as a pullback of two others, its rows are exactly those that the "
  "definition selects, with the keys of their sources and the values of the items that share a name with an item of a source, in one loop of the block.  "
  "Asked the other way, a category without data is filled from the categories that were constructed from it: every key once, with the items that all of them have, and the value that a filter for one value implies.  "
  "An item which cannot be had in this way is reported as missing, and other items stay as they are.",
  ["inputs", "histories"], "all dictionaries of two sources with filters and pullbacks, data blocks and orders of asking",
  "the tests ask for eight items of one file",
  [CF], [("construction", CF + " construct_category, push_from_pullback"), ("rows", CF + " duplicate_datanames, store_new_cat_values")],
  "random search against rows computed from the tables the data was written from", ["StarBlock item access with a dictionary assigned"])


NOT_APPLICABLE = []


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(HERE, "vp", "props", p["module"] + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps(p["line"]) + "\n")
    checks = []
    for p in have:
        checks.append({"property": p["pid"], "quick_cmd": "bash check.sh %s quick" % p["pid"],
                       "thorough_cmd": "bash check.sh %s thorough" % p["pid"],
                       "evidence_file": "evidence/%s.json" % p["pid"],
                       "technique": "property-based testing (Hypothesis): generated inputs against an explicit oracle",
                       "level": "exploration", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "check.sh copies /repo's working tree to a scratch directory, rebuilds it there, and runs every "
                  "generated check of the property in parallel worker processes. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in have:
        assert p["line"]["statement"].count(". ") <= 2, p["pid"]
        assert len(p["line"]["title"]) <= 80, p["pid"]


if __name__ == "__main__":
    main()
