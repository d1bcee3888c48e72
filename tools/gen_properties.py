#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements can be edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

T = "The 19 tests run a handful of fixed templates; "

p("C01", "Parsing any text ends with a result or an error, never a crash or hang",
  "Reading any text as a template, as a data literal, as a comparator or filter expression, or through r_json, r_card and table returns a value or an error after an amount of work in proportion to the text: it never panics, aborts or loops for ever. Reading the same text twice gives equal results.",
  ["inputs"], "every text (nesting bounded to 40 levels; unclosed nested brackets are a known finding)",
  T + "none feeds malformed, truncated or random text, and totality is a statement about all texts.",
  ["src/parse/template.rs", "src/parse/expr.rs", "src/parse/pattern.rs", "src/template.rs", "src/tdata.rs", "src/funcs/format.rs", "src/funcs/table.rs", "src/funcs/lists.rs"],
  [("TFile/Item parsers", "src/parse/template.rs"), ("to_tree", "src/template.rs"), ("BasicData", "src/parse/expr.rs")],
  ["TreeTemplate::from_str", "TData::from_str", "r_json / r_card / table / sort_on / filter"])
p("C02", "Rendering and every default helper give a result or an error, never a panic",
  "Rendering any parsed template, and calling any default helper with any number of arguments of any types and values, returns a result or an error and never panics or loops for ever.",
  ["inputs", "programs"], "every helper registered by default x argument lists of 0..5 values of all types with boundary values; every parsed template x parameters",
  T + "no test calls helpers with missing, extra, wrongly typed or extreme arguments.",
  ["src/funcs/mod.rs", "src/funcs/lists.rs", "src/funcs/strings.rs", "src/funcs/math.rs", "src/funcs/random.rs", "src/funcs/path.rs", "src/expr.rs", "src/template.rs"],
  [("argument checks in each helper", "src/funcs/*.rs"), ("TreeItem::run", "src/template.rs")],
  ["TreeTemplate::run", "FuncManager::get_func"])
p("C03", "Text outside tags is copied exactly; only markers trim it; comments vanish",
  "Text outside tags appears in the output unchanged and in order. Whitespace next to a tag is removed exactly where the tag uses {{- or -}} on that side, a backslash before whitespace removes that whitespace run (together with one closing backslash), a backslash before any other character yields that character, and comments {{# ... #}} yield nothing.",
  ["inputs"], "all texts made of plain characters, whitespace runs, braces, escapes and tags, in any adjacency",
  T + "one test covers gaps on one fixed text.",
  ["src/parse/template.rs"], [("StringItem", "src/parse/template.rs"), ("IOpen / IClose", "src/parse/template.rs"), ("Comment", "src/parse/template.rs")],
  ["rendered output"])
p("C04", "A literal denotes exactly the value and type it spells",
  "A literal in a template, in TData::from_str or in r_json denotes exactly what it spells: unsigned, negative and floating numbers (nearest representable value), booleans, null, dates (day/month number or name/year), quoted strings with their escapes, raw strings, lists and maps, nested to any depth. A number or date that is out of range is an error, never another value.",
  ["inputs"], "all values of the literal grammar in every spelling it allows",
  T + "only a few small literals appear in them.",
  ["src/parse/expr.rs", "src/tdata.rs"], [("SimpleData", "src/parse/expr.rs"), ("BasicData", "src/parse/expr.rs"), ("TString / Escape", "src/parse/expr.rs"), ("Date", "src/parse/expr.rs")],
  ["TData::from_str", "values passed to helpers", "r_json"])
p("C05", "Expressions evaluate as written: each argument once, left to right, in place",
  "An expression calls the named helper with the values of its arguments in the order written, each evaluated exactly once from left to right and innermost first; a bare name as argument takes everything after it as its own arguments, parentheses group, [..] and {..} build lists and maps. Extra whitespace, redundant parentheses and optional commas change nothing, and a failing or unknown name makes the whole evaluation fail.",
  ["programs"], "all expressions over calls, variables, paths, literals, lists and maps",
  T + "they use expressions of depth two at most and no test observes evaluation order or count.",
  ["src/expr.rs", "src/parse/expr.rs"], [("Expr::run", "src/expr.rs"), ("run_command / run_values", "src/expr.rs"), ("Exp", "src/parse/expr.rs")],
  ["arguments received by registered closures", "order of calls"])
p("C06", "first and select evaluate only what they need and pick the right value",
  "'first' gives its first argument that evaluates without error to something other than null, and null if there is none, evaluating nothing after the one it picks. 'select' with a bool gives its second argument for true and third for false, with a non-negative integer n the n-th (from 0) of the arguments after the first, evaluates only the chosen one, and fails when the selector is out of range or has no truth value.",
  ["programs", "inputs"], "all argument lists, including failing, null and side-effecting ones",
  T + "one test covers first on three arguments, none covers select.",
  ["src/expr.rs"], [("run_command 'first'", "src/expr.rs"), ("run_command 'select'", "src/expr.rs")],
  ["result value", "calls recorded by closures"])
p("C07", "if / elif / else renders exactly the first branch whose condition holds",
  "An if renders exactly one branch: that of the first condition that holds, else the else branch, else nothing, and conditions after it are not evaluated. Bools are themselves; numbers hold when not zero; strings, lists and maps when not empty; null, any other type and a condition that fails do not hold.",
  ["programs", "inputs"], "all values as conditions, all chains and nestings",
  T + "one test uses true and false in a single if.",
  ["src/template.rs", "src/tdata.rs"], [("TreeItem::If", "src/template.rs"), ("tt_if_yes / tt_else", "src/template.rs"), ("TData::as_bool", "src/tdata.rs")],
  ["rendered output", "calls recorded by closures"])
p("C08", "for loops visit every element once, in order, with the right key and value",
  "A for loop renders its body once per element: a list in order with keys 0,1,2.. and the elements, a number n with 0..n-1 as key and value, a map once per entry with its key and value. A negative number gives no iterations, looping over anything else is an error, and variables set in one iteration's body are not visible in the next or after the loop.",
  ["programs", "inputs"], "all lists, maps and counts as sequences, all bodies and nestings",
  T + "two tests loop over one fixed array.",
  ["src/template.rs"], [("TreeItem::For", "src/template.rs"), ("tt_for", "src/template.rs"), ("run_block", "src/template.rs")],
  ["rendered output", "calls recorded by closures"])
p("C09", "A variable refers to the innermost live let; blocks do not leak",
  "A variable refers to the most recent let of that name in the innermost enclosing block that has one, and a let inside a block (if, for, switch, as, @block) is gone at the end of it, leaving the outer value as it was. Several assignments in one let take effect in order, and a name that is not set is an error.",
  ["programs", "histories"], "all nestings of blocks with sets and reads of overlapping names",
  T + "one test sets two variables at top level.",
  ["src/scope.rs", "src/template.rs"], [("Scope push/pop/set/get", "src/scope.rs"), ("run_block", "src/template.rs"), ("Assign", "src/parse/template.rs")],
  ["values read back", "rendered output"], [("scope stack", "variables of each open block", "src/scope.rs")])
p("C10", "switch, case and as match patterns structurally and bind what they capture",
  "A switch renders the first case one of whose patterns matches the value, and nothing if none does; as renders its body if its pattern matches. A value pattern matches an equal value, _ anything, a list pattern a list whose leading elements match, a map pattern a map whose named entries are present and match, <x> and <x:pattern> capture the matched value, and ?(expression) matches when the expression, in which @ is the value and earlier captures are visible, is exactly true. Captures hold the matched parts inside the body only, and a pattern that fails leaves nothing behind.",
  ["inputs", "programs"], "all pairs of patterns and values, including near misses",
  T + "one test uses a single switch.",
  ["src/pattern.rs", "src/parse/pattern.rs", "src/template.rs"], [("Pattern::match_data", "src/pattern.rs"), ("Pat", "src/parse/pattern.rs"), ("TreeItem::Switch / As", "src/template.rs"), ("tt_switch", "src/template.rs")],
  ["rendered output", "captured values"])
p("C11", "Sub-templates see only their parameters and give back text or their return value",
  "Calling a defined template (run), a global one or one held by the template manager (by name) renders it with exactly the arguments given, as $0, $1.. and under its parameter names; it sees none of the caller's variables and changes none of them. The call's value is the rendered text, or the value of its last executed return; globals stay in the template manager for later calls, and a registered helper of the same name takes precedence.",
  ["programs", "histories"], "all programs that define, pass, call and redefine templates",
  T + "three tests each call one template once.",
  ["src/expr.rs", "src/template.rs", "src/scope.rs", "src/temp_man.rs"], [("run_command 'run'", "src/expr.rs"), ("run_values", "src/expr.rs"), ("TreeItem::Define / Global / Return", "src/template.rs"), ("Scope::with_pnames", "src/scope.rs")],
  ["values of calls", "rendered output"])
p("C12", "Block helpers receive exactly the rendered text of their block",
  "{{@name}}..{{/name}} gives the helper the rendered text of its block as the only argument and is replaced by the result; with parameters, it gives the helper those parameters, in which @ is that text; @ is gone at the end of the block the helper stands in. {{@let x}} and {{@export x}} set x to the rendered text of their block and render nothing themselves.",
  ["programs"], "all block bodies, nested, with and without parameters, closed or ended by the end of the file",
  T + "one test uses @ in parameters once.",
  ["src/template.rs", "src/parse/template.rs"], [("TreeItem::Block", "src/template.rs"), ("TreeItem::AtLet / AtExport", "src/template.rs"), ("tt_name_block", "src/template.rs")],
  ["arguments received by closures", "rendered output"])
p("C13", "Exports reach the caller with their last value, and front matter agrees",
  "After a run the caller gets every name exported anywhere in the template (nested blocks included) with the last value exported to it, plus the return value if there was one. front_matter evaluates the top level exports in order without parameters or templates: it contains each top level export that can be evaluated so, with the value it then has, skips those that fail, and ignores everything else.",
  ["programs"], "all templates mixing exports, blocks, failing expressions and ordinary content",
  T + "one test reads front matter from one file.",
  ["src/template.rs", "src/scope.rs"], [("TreeTemplate::run_exp", "src/template.rs"), ("TreeTemplate::front_matter", "src/template.rs"), ("Scope::set_root / top", "src/scope.rs")],
  ["map returned by run_exp", "map returned by front_matter"])
p("C14", "The same data gives the same result however it is passed in",
  "A template renders the same from equal data passed as template data, JSON, TOML, a HashMap, a list of strings, a string, number or bool, a card, a key-value pair or a pair of parameters (the first that has the path wins). A path finds the value its keys and indexes lead to, and one that leads nowhere is an error, never a value from elsewhere.",
  ["inputs"], "all data trees expressible in several representations x all paths, valid and invalid",
  T + "they pass a string, a JSON array and a bool once each.",
  ["src/tparam.rs", "src/tdata.rs"], [("TParam::get_v implementations", "src/tparam.rs"), ("from_json / from_toml", "src/tdata.rs"), ("From<&Card>", "src/tdata.rs")],
  ["values read back in templates"])
p("C15", "Rendering is a function of template and inputs: no state leaks between runs",
  "Rendering a parsed template any number of times, interleaved with other templates and with failing runs on the same helpers and template manager, gives each time what it gives on fresh ones (apart from globals a run defines); it changes neither the template nor its parameters. Cloned and re-parsed templates behave the same.",
  ["histories", "programs"], "all sequences of parse, run, failing run, front_matter and clone over a set of templates",
  T + "each test runs one template once or twice.",
  ["src/template.rs", "src/scope.rs", "src/func_man.rs", "src/temp_man.rs"], [("run_exp builds a new Scope", "src/template.rs"), ("run_block pops on error", "src/template.rs")],
  ["rendered output of every run in a history"], [("template manager", "globals defined so far", "src/temp_man.rs")])
p("C16", "Arithmetic is exact or an error; it never wraps or changes sign",
  "add, sub, mul, div, mod, min and max fold their arguments from left to right; over integers the result is the exact integer (div truncating to integer, mod its remainder) or an error when it cannot be represented or divides by zero, and with a float involved the result is that of floating point arithmetic. min and max give the numerically lowest and highest argument, sub with one argument negates, and combining with a non-number is an error.",
  ["inputs"], "all argument lists of uint, int and float values, with boundary values",
  T + "one test does four sums on small numbers.",
  ["src/funcs/math.rs"], [("fold", "src/funcs/math.rs"), ("num_match", "src/funcs/math.rs"), ("in_range", "src/funcs/math.rs")],
  ["result of the helpers"])
p("C17", "Comparison is consistent, numbers compare exactly, logic follows truthiness",
  "eq, neq, eq_any, gt, gte, lt and lte compare the first argument with each of the others: numbers of any types by exact value, strings, bools, dates and bytes naturally, lists and maps by contents, values of different kinds as unequal and in a fixed order of kinds; equality is reflexive (except for NaN) and symmetric, and order is transitive and agrees with equality. and, or, nand, nor follow the truth values of all arguments, and is_null, is_num and type_of report the type.",
  ["inputs"], "all pairs and triples of values of all types",
  T + "no test compares values of different types or at boundaries.",
  ["src/tdata.rs", "src/funcs/bools.rs", "src/funcs/math.rs"], [("PartialEq / PartialOrd for TData", "src/tdata.rs"), ("mixed_order", "src/funcs/math.rs"), ("bools helpers", "src/funcs/bools.rs")],
  ["result of the helpers"])
p("C18", "sort and sort_on give ordered, stable permutations; binary search finds",
  "sort gives all elements of its list arguments, none lost or duplicated, in ascending order and equal ones in their original order; sort_on does the same by each path in turn, descending where the path starts with '-'. On a list sorted by the same criteria, bin_search gives the index and bin_get the element of an entry that compares equal, and null exactly when there is none. Without a list, or without a criterion, all three are errors.",
  ["inputs"], "all lists of mixed values and records, with ties, missing keys and all criteria",
  T + "two tests sort one fixed list each.",
  ["src/funcs/lists.rs", "src/tdata.rs"], [("sort / sort_on", "src/funcs/lists.rs"), ("Comparator", "src/funcs/lists.rs"), ("bin_search / bin_get", "src/funcs/lists.rs")],
  ["result of the helpers"])
p("C19", "List and map helpers agree with their sequence definitions",
  "list, append, groups, slice, get, index_of, len, filter and map give what their description says for every input: append concatenates (a non-list counts as one element), groups of n concatenate back to the list with all but the last of size n, slice and get address from 0, filter keeps in order exactly the elements for which the expression holds with the element as $0, map pairs keys with values. Positions in strings count bytes. A position outside the list is an error for slice and null for get.",
  ["inputs"], "all lists, maps, positions, sizes and filter expressions",
  T + "one test filters one list.",
  ["src/funcs/lists.rs", "src/funcs/maps.rs"], [("list helpers", "src/funcs/lists.rs"), ("map", "src/funcs/maps.rs")],
  ["result of the helpers"])
p("C20", "String helpers agree with their definitions, for all text",
  "cat concatenates the displayed arguments; split gives the pieces between separators, so join_with with the same separator gives the text back; str_contains tells whether any needle occurs; str_replace replaces all and str_replace_n the first n (1 if not given) occurrences; regex tells whether the pattern matches; string_from_ints gives the characters of the arguments that are code points. Numbers, bools, dates and lists display the same way inside all of them as in the rendered output.",
  ["inputs"], "all strings (any Unicode), separators, needles and counts",
  T + "one test concatenates three values.",
  ["src/funcs/strings.rs", "src/funcs/path.rs", "src/tdata.rs"], [("string helpers", "src/funcs/strings.rs"), ("join_with", "src/funcs/path.rs"), ("Display for TData", "src/tdata.rs")],
  ["result of the helpers"])
p("C21", "Escaping helpers never let text break out, and escaping loses nothing",
  "html_esc and xml_esc give text without <, >, raw quotes or a bare &, that decodes back to exactly their input (all arguments joined). The svg helpers (xy, xywh, cxyrr, xy12, fl_stk, font) give exactly the named attributes with the given values (free of quotes) and units in order, and an error when one is missing.",
  ["inputs"], "all strings and argument lists",
  T + "no test calls them.",
  ["src/funcs/strings.rs", "src/funcs/svg.rs"], [("html_esc", "src/funcs/strings.rs"), ("xml_esc and attribute helpers", "src/funcs/svg.rs")],
  ["result of the helpers"])
p("C22", "w_json writes valid JSON that r_json and any reader read back unchanged",
  "w_json of any value is valid JSON for that value (several arguments as an array), and r_json of any JSON document, whatever its layout, gives the same value as a standard JSON reader: so writing and reading back changes nothing. r_json of something that is not a string is an error.",
  ["inputs"], "all JSON-expressible values and all JSON layouts (whitespace, escapes, number forms)",
  T + "one test adds numbers from one JSON text.",
  ["src/funcs/format.rs", "src/tdata.rs", "src/parse/expr.rs"], [("w_json", "src/funcs/format.rs"), ("Serialize for TData", "src/tdata.rs"), ("r_json", "src/funcs/format.rs"), ("BasicData", "src/parse/expr.rs")],
  ["result of the helpers"])
p("C23", "base64 and card data survive a round trip",
  "as_base64 gives the standard padded base64 text of a string or of bytes, and from_base64 gives back exactly the bytes; text that is not base64 is an error. r_card gives for every card its name, number and data entries, in order.",
  ["inputs"], "all byte strings and near-base64 texts; all card files of the format's grammar",
  T + "no test calls them.",
  ["src/funcs/bytes.rs", "src/funcs/format.rs", "src/tdata.rs"], [("as_base64 / from_base64", "src/funcs/bytes.rs"), ("r_card", "src/funcs/format.rs"), ("From<&Card> for TData", "src/tdata.rs")],
  ["result of the helpers"])
p("C24", "Path helpers take paths apart and put them together consistently",
  "join puts path pieces together (an absolute piece starts over), parent drops the last component, base_name is the last component, stem that without its extension, full_stem the path without its extension, with_ext the path with the extension replaced, and bread_crumbs lists all ancestors down to the path itself. Without a last component base_name, stem and full_stem are errors and base_name_sure is empty.",
  ["inputs"], "all relative and absolute paths with dots, empty parts, repeated and trailing slashes",
  T + "no test calls them.",
  ["src/funcs/path.rs"], [("path helpers", "src/funcs/path.rs")],
  ["result of the helpers"])
p("C25", "Folder-locked helpers never touch anything outside their folder",
  "With a folder lock or write lock, no path argument makes file, file_bytes, is_file, is_dir, dir, scan_dir, file_img_dimensions or write read, list, test, create or change anything outside the locked folder: a path that would lead outside (absolute or climbing with ..) is an error, in every argument position. Paths that stay inside work.",
  ["inputs", "histories"], "all path strings (.., ., absolute, repeated slashes, non-existing parts) in each argument position of each locked helper",
  T + "no test tries a path that leaves the folder.",
  ["src/funcs/folder.rs", "src/funcs/write.rs"], [("safe_path", "src/funcs/folder.rs"), ("with_folder_lock / with_write_lock", "src/funcs/mod.rs")],
  ["results of the helpers", "directory tree before and after"])
p("C26", "File helpers report the file tree as it is, and write what they are given",
  "On any tree of files, file and file_bytes give the contents (several arguments joined), is_file and is_dir tell the kind (true only if true of all arguments), dir lists the entry names, file_img_dimensions the image size, scan_dir exactly one record per file that does not start with _ down to the depth given and matching the pattern given, with its path, name and front matter. write creates missing folders and leaves the file with exactly the text given (without a text it is an error and changes nothing); the free and the locked versions agree.",
  ["inputs", "histories"], "all small file trees and sequences of writes and reads on them",
  T + "one test reads two files in one folder.",
  ["src/funcs/folder.rs", "src/funcs/free_file.rs", "src/funcs/write.rs"], [("folder helpers", "src/funcs/folder.rs"), ("free helpers", "src/funcs/free_file.rs"), ("write", "src/funcs/write.rs")],
  ["results of the helpers", "files on disk"])
p("C27", "Default helpers give no access to files, processes or the environment",
  "With the default helpers a template cannot read or change files, run processes or read the environment: only the helper groups the program adds (folder lock, write lock, free files, exec) make such helpers available, each only its own, and the result of any default helper depends on its arguments alone (rand excepted). Parsing, rendering and the default helpers ask the system for no file, environment variable, process or connection.",
  ["programs", "configurations"], "all combinations of helper groups; all default helpers on path-like arguments, with the file system and environment varied",
  T + "no test checks what is not available.",
  ["src/funcs/mod.rs", "src/func_man.rs"], [("with_defaults and the other groups", "src/funcs/mod.rs")],
  ["FuncManager::get_func / for_each", "results under changed files and environment", "the C library's entry points for files, environment, processes and network, watched"])
p("C28", "table turns table notation into the rows and cells written",
  "table gives one row per line of table notation (of two or more cells) with the cells between its bars, trimmed, in order (a line of fewer than two cells gives none, and when marked - does not end the row above); a row marked * has header cells, and a row marked - continues the previous row, each of its texts added to the cell above it (further cells extending the row). The second argument becomes the table's attributes; no cell text is lost, duplicated or moved.",
  ["inputs"], "all tables of up to 6x6 cells with headers and continuation rows of any length",
  T + "no test renders a table.",
  ["src/funcs/table.rs", "src/funcs/strings.rs"], [("Table / Row", "src/funcs/table.rs"), ("write_row", "src/funcs/table.rs")],
  ["result of the helper"])
p("C29", "rand stays within what was asked for and can give every value of it",
  "rand without arguments gives a float in [0,1), with n an integer in 0..n-1 (a float in [0,n)), with two bounds a number from the first up to but not including the second, of their type, and with a list one of its elements; a whole number below 1, an empty range between two bounds and an empty list are errors. Every value of a small range or list is given sooner or later.",
  ["inputs"], "all bounds and lists; repeated draws",
  T + "no test calls rand.",
  ["src/funcs/random.rs"], [("get_rand", "src/funcs/random.rs")],
  ["result of the helper"])
p("C30", "exec passes arguments and input through unchanged and returns all output",
  "exec and exec_stdin run the command with exactly the arguments given, unchanged and without a shell, exec_stdin with exactly the given text as its input whatever its size, and return the command's whole output, also when it fails; an unknown command is an error. env gives the variable's value, else its default, else an error.",
  ["inputs"], "all argument strings, input sizes across the pipe buffer, set and unset variables",
  T + "no test runs a command.",
  ["src/funcs/exec.rs"], [("exec / exec_stdin / env", "src/funcs/exec.rs")],
  ["result of the helpers"])
p("C31", "The helper and template registries hold exactly what was last put in",
  "A helper manager finds exactly the helpers added to it, the last added under a name wins, and it lists each name once with its last description (print_all prints all of them, print_filter those whose name or description contains the text); helpers may be closures with their own captured state. A template manager gives back the last template inserted under a name and an error for others, and the empty one never holds any.",
  ["histories"], "all sequences of adding, replacing, looking up, listing and calling",
  T + "no test replaces or lists helpers.",
  ["src/func_man.rs", "src/temp_man.rs"], [("BasicFuncs", "src/func_man.rs"), ("BasicTemps / NoTemplates", "src/temp_man.rs")],
  ["get_func / for_each / get_t", "calls from templates"])
p("C32", "word_wrap keeps all text and no line is longer than asked",
  "word_wrap gives lines of at most the width asked for, which together hold all non-whitespace characters of the text in order; a line break in the text always starts a new line, each line is a piece of the text that does not start or end with blanks, and a word (a run without space, tab or line break) shorter than the width is never cut. Where words are separated by single blanks, a line is broken only where it is full: with the next word (or, where a word is cut, the next character) and the blank before it, it would reach the width.",
  ["inputs"], "all texts (any Unicode, tabs, line breaks, long words) and widths",
  T + "no test wraps a text.",
  ["src/funcs/strings.rs"], [("_word_wrap", "src/funcs/strings.rs")],
  ["result of the helper"])
p("C33", "md renders markdown to the HTML that CommonMark prescribes",
  "md gives, for markdown built from paragraphs, headings, emphasis, code, lists, links, images, quotes, rules and raw HTML, the HTML CommonMark prescribes, and for its extensions (tables with alignment, strike-through, task lists) the usual HTML, several arguments one after another, and text without markdown stays itself inside a paragraph with HTML special characters escaped. It agrees whether called as a helper or as a block.",
  ["inputs"], "all documents of a generated markdown subset",
  T + "one doc test renders one list.",
  ["src/funcs/strings.rs"], [("md", "src/funcs/strings.rs")],
  ["result of the helper"])
p("C34", "A whole template means what its parts mean together",
  "Rendering any program of the template language, with all constructs freely mixed and nested, gives the output, exports, calls and success or failure that the rules of the single constructs give when composed. Formatting a program differently (whitespace inside tags, redundant parentheses, quoting of names, comments) changes nothing.",
  ["programs"], "all programs up to about 40 items with all constructs, helpers that record, fail and return values, and random data",
  T + "each test uses one or two constructs.",
  ["src/template.rs", "src/expr.rs", "src/pattern.rs", "src/scope.rs", "src/parse/template.rs"],
  [("TreeItem::run", "src/template.rs"), ("tt_basic", "src/template.rs"), ("TFile", "src/parse/template.rs")],
  ["rendered output", "exports", "calls recorded by closures"])
p("C35", "Tags pair up, and what does not fit is refused",
  "The tags of a template form a structure. An if has any number of elifs, then at most one else, then {{/if}}; else and elif stand only directly in an if that has not reached its else. case stands only directly in a switch; before the first case there is only text (which is not shown) and comments. Every closing tag closes the innermost open block and bears its name (if, for, switch, as, define, global, let and export for @let and @export, the helper's name for block helpers). Blocks still open at the end of the text end there, except an if that has not reached its else. Every other text, and one with an incomplete tag, is refused when it is parsed; what is accepted renders as this structure says, each item under the tag it stands in.",
  ["programs"], "all sequences of tags and texts, well-nested, left open, or with one or more tags out of place",
  T + "each test parses one well-formed template.",
  ["src/template.rs", "src/parse/template.rs"],
  [("tt_basic / tt_if_yes / tt_else / tt_switch / tt_name_block", "src/template.rs"), ("TFile", "src/parse/template.rs")],
  ["TreeTemplate::from_str", "rendered output"])
p("C36", "What a host program reads from data agrees with what templates make of it",
  "Data that leaves a template is the data that went in, and the host reads it as templates do: as_bool is what an if decides, as_usize and as_float give the number (negative ones are no usize), as_str and get_key_str give strings only, get_key_string gives the text that a path to that entry renders. Display gives the text a template shows, serialising gives the JSON that w_json writes and that from_str and from_json read back, from_str reads a literal as a template does, == and the order are those of eq, lt and gt, and conversions from Rust values keep them. A template loaded from a file is the template parsed from the file's text; files that are missing or not UTF-8 are refused.",
  ["inputs"], "all values of all types, all pairs of values, all template files",
  T + "no test uses the accessors or loads a file.",
  ["src/tdata.rs", "src/template.rs"],
  [("TData accessors, Display, Serialize, PartialEq, PartialOrd, From", "src/tdata.rs"), ("TreeTemplate::load", "src/template.rs")],
  ["results of the accessors", "rendered output"])
p("C37", "Threads that render at the same time do not disturb one another",
  "Several threads may parse, render, read front matter and call helpers at the same time, sharing parsed templates: each call gives exactly what it gives alone, however the threads are interleaved, and none panics or waits for another for ever.",
  ["schedules", "inputs"], "two or three threads of up to five jobs each, all interleavings at the granularity of edges of the compiled code",
  T + "no test uses a second thread.",
  ["src/template.rs", "src/funcs", "src/parse"],
  [("TreeTemplate::from_str, run, front_matter", "src/template.rs"), ("default helpers", "src/funcs/mod.rs")],
  ["results of each thread"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
