"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "ttp/ttp.py"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, state=None, tech=None, level="model_checking"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                   "why_tests_cant": why, "anchors": a}, note,
                  tech or "TLA+ specification checked with TLC; sessions recorded from the real code validated against it", level))


P("C01", "A template line matches exactly the data lines it describes",
  "A template line matches a data line if and only if the data line has the template line's indentation and literal text (a run of spaces in the text standing for one or more spaces or tabs, a run of digits for any number), with every variable in its place taking text its pattern (WORD, PHRASE, ORPHRASE, ROW, DIGIT, IP, PREFIX, IPV6, PREFIXV6, MAC, _line_, re(), alternatives, ignore) accepts, and nothing but spaces after it. "
  "The captured values are the parts of that data line, each complete, whatever line ending the data uses; regex characters in template text stand for themselves; _exact_ keeps digits literal.",
  ["inputs", "programs"], "every template line built of literals, variables, ignore and patterns, every data line",
  "Tests try a few dozen template lines on data made to match; what must not match, and how text is divided between several variables, is a matter of all lines.",
  [T, "ttp/patterns/get_pattern.py", "ttp/match/re_.py"],
  [("construction of the expression of a template line", T + " _template_class / _variable_class.form_regex"), ("patterns", "ttp/patterns/get_pattern.py")],
  "Every text up to length 5 (6 thorough) over {a, space, 1} against a catalogue of lines, and random lines with near-miss data; the specification has its own matcher (backtracking over abstract expressions), not Python's re.")
P("C02", "Every data line ends up in the right record",
  "Each time a line matching a group's first line is seen, a new record of that group begins; values of lines that follow belong to the most recent record of their own group, and child records to the most recent record of their parent. "
  "No matched value is lost, duplicated or moved to another record, whatever stands before, between or after the lines; values of the group's lines that follow a child group go to the record they belong to; a value already set in the open record is not overwritten by a later line unless records of child groups came in between.",
  ["inputs", "programs"], "every tree of groups, every sequence of data lines, at any offset in the text",
  "Tests check about two hundred fixed template and data pairs; the assembly depends on every interleaving of group lines.",
  [T], [("match selection and record assembly", T + " _results_class.make_results / start / add / save_curelements")],
  "Random trees of groups up to depth 3 with lines dropped, repeated, out of order and surrounded by other text; all texts up to a length for small templates (TtpSmall), long sessions with hundreds of records.",
  state=[("record", "the record being filled, with its group, path and defaults", T + " _results_class.record"), ("started_groups", "stack of opened groups", T)])
P("C03", "Results are placed at the group's path",
  "A group's records appear at its path: a child's path is below its parent's, a path starting with / is from the root, a `*` item is always a list, a `**` item never is, an item `_` adds no level, and a plain item is a dictionary for one record and a list for several. "
  "Records of nameless top groups form the list itself; no record already saved is lost or changed by one saved later at the same or another path.",
  ["inputs", "programs"], "every combination of path items, nesting, absolute and nameless groups, and any number of records",
  "The structure depends on what was saved before at every prefix of the path; tests contain a few shapes only.",
  [T], [("path formation", T + " _group_class.get_attributes / _results_class.form_path"), ("saving", T + " _results_class.value_to_list / list_to_list / save_curelements / dict_by_path")],
  "Random paths of up to three items with list, dictionary, null, absolute and nameless groups, several inputs, per_input and per_template.")
P("C04", "Dynamic path items take the value captured in the same record",
  "`{{ var }}` within a group path is replaced literally by that record's value of the variable (which then leaves the record), or, when this record has none, by the value the same name was last given, or by the template variable of that name; a record whose path cannot be formed is not saved. "
  "Records with different values never share a place, records with the same value are all kept, and digits become integer keys only when that option is on.",
  ["inputs", "programs"], "every captured value (of any characters), every nesting of dynamic paths, both settings of the option",
  "Values come from data: tests use interface names and numbers, not values with path or regex characters, repeats, or missing keys.",
  [T], [("form_path", T + " _results_class.form_path"), ("integer keys", T + " dynamic_path_key_to_int")],
  "Random dynamic paths in parents and children with repeated, missing, numeric and special-character values.")
P("C05", "Match functions apply in order, and a failed check drops the match",
  "The functions of a variable are applied in the order written, each to the result of the one before; values become what the documentation says of each function. "
  "When a check fails the line does not count as matched (a group's first line then opens no record), and nothing later in the chain has an effect; names given as arguments take the value of a template variable when there is one.",
  ["inputs", "programs"], "every chain of match functions, every captured value",
  "Tests call most functions once with one argument on one value; order, failing checks in the middle of a chain, and odd values are not covered.",
  [T, "ttp/match"], [("running of match functions", T + " _parser_class.run_re / check_matches"), ("functions", "ttp/match/*.py")],
  "Random chains of 1-4 of 45 functions on a group's first and further lines; DNS, GeoIP, IP, MAC and time functions are not specified.")
P("C06", "Group functions decide and change whole records",
  "When a record is complete the group's functions see it with its defaults applied, in the order written; if one of them rejects the record it does not appear in the results, and neither do values from lines that follow it for the same record. "
  "Other records, including those before and after it in the same group, are unaffected; otherwise the record saved is the one the functions returned, in the form they gave it: with names with dots nested (expand), as an item of a list (itemize), with one value as the name of another (items2dict).",
  ["inputs", "programs"], "every list of group functions, every record, in any tree of groups",
  "Tests apply one function to one flat group; combinations with defaults, children, tail lines and several records are open.",
  [T, "ttp/group"], [("processing of groups", T + " _results_class.process_group / save_curelements"), ("functions", "ttp/group/*.py")],
  "Random groups with one to three of 18 functions, in trees, with defaults, template variables, lookups, macros and dynamic paths.")
P("C07", "A closed group takes no line until it opens again",
  "After a line marked _end_ closes a group, or a first line rejected by a check does, no line of that group and no line of the groups nested in it contributes to results until its first line is accepted again. "
  "Everything up to and including the closing line is kept, other groups are unaffected, and lines after the last closing line of a group never re-open it except through its first line.",
  ["inputs", "programs"], "every placement of closing lines in a tree of groups and in data",
  "Whether a line counts depends on all the opening and closing lines before it; tests have a handful of closing lines.",
  [T], [("dropping of matches after the end", T + " _parser_class.parse"), ("ended groups", T + " _results_class.make_results / end")],
  "Random trees with several closing lines (kept, ignored, shared keywords) and rejected first lines, with lines after each.")
P("C08", "Defaults fill what was not matched, and only that",
  "A record contains every variable of its group that has a default (of the variable or of the group), with the matched value where there is one and the default otherwise; a default never replaces a matched value and never appears in another group's record. "
  "A group all of whose values have defaults gives one record of defaults when nothing of it matched, and a group with no match and no such defaults gives nothing; a default naming a template variable takes its value.",
  ["inputs", "programs"], "every combination of variable and group defaults, matched or not, in any tree of groups",
  "Which values are matched varies with data; tests check a few combinations, mostly with everything matched or nothing.",
  [T], [("default records", T + " _parser_class / _results_class"), ("run-time defaults", T + " _group_class.set_runs")],
  "Random trees with defaults of text, numbers, None, False and references, on data with many lines dropped.")
P("C09", "Joined and whole-line values keep every piece in order",
  "A value collected with joinmatches is made of all the values its lines gave within one record, in the order of the data, joined by the given text (or as one list when they are lists); nothing is taken from another record. "
  "A `_line_` variable takes every line of the open record that no other line of the template describes and that passes its checks, and only those.",
  ["inputs", "programs"], "every number and order of pieces, with functions before the join, in any tree of groups",
  "Tests join two or three lines of one record; the pieces of several records, mixed kinds and filtered lines are open.",
  [T, "ttp/match/joinmatches.py"], [("join", T + " _results_class.join"), ("_line_", "ttp/patterns/get_pattern.py, " + T)],
  "Random groups with joinmatches and _line_ on one or several lines, chains before the join, closing lines and children.")
P("C10", "When several template lines match one data line the choice is fixed",
  "When a data line matches lines of several groups, or several lines of one group, exactly one of them takes it: a line opening a group is preferred over other lines, those over _line_; among equals, the group of the record being filled, then a group whose parent is open, then the last in the template. "
  "The choice depends on the template and the data before only, and never makes one data line count twice.",
  ["inputs", "programs"], "every template whose groups share lines, every sequence of data lines",
  "Ambiguous templates are rare in tests, yet usual with vendor configurations where one keyword occurs in many contexts.",
  [T], [("selection among matches", T + " _results_class.make_results")],
  "Random trees of groups over four shared keywords with data over the same; 500 sessions quick.")
P("C11", "Columns under headers are cut where the header says",
  "A `_headers_` line takes every non-blank data line long enough for the required columns, cuts it at the columns' positions in the header line, and gives each column's text without surrounding spaces under the column's name. "
  "Empty columns give empty text, columns over the required number may be missing, and the header line itself gives no record.",
  ["inputs", "programs"], "every header line (names, widths, indentation, columns()), every data line",
  "Tests have a few tables with all columns present.",
  [T, "ttp/patterns/get_pattern.py"], [("headers", T + " _variable_class / headers pattern")],
  "Random headers of one to six columns, rows with empty, missing, truncated and overlong columns.")
P("C12", "Each input text is parsed on its own, and results keep input order",
  "Results of an input text do not depend on other texts parsed with it, except through values recorded or counted on purpose, and they appear in the order inputs and their data were added; the same text added twice to one input is parsed once. "
  "With per_template results, the records of all texts are in one structure, in the same order.",
  ["inputs", "histories"], "every sequence of inputs and texts, any of which leaves groups open, groups closed, or path values behind",
  "Tests parse one text, or two unrelated ones; leaks show only with particular predecessors.",
  [T], [("per input parsing", T + " ttp.parse / __parse_in_one_process"), ("state of results", T + " _results_class")],
  "Random templates with two to six texts in several inputs, which leave open groups, closed groups, dynamic path values, recorded values and counters behind.")
P("C13", "Parsing with several processes gives what parsing with one gives",
  "parse(multi=True) produces, for every template, exactly the results parse(one=True) produces for the same inputs, variables, lookups, macros and added functions; only the order of the texts' results may differ. "
  "When parsing a text raises an error both raise it, and the object can be used again afterwards.",
  ["schedules", "inputs", "programs"], "every template, every number of inputs and texts, every assignment of texts to processes",
  "Tests parse the same small text in several processes; what reaches a worker (variables, lookups, macros, functions, templates' states) is copied separately for each kind of thing.",
  [T], [("processes", T + " _worker / ttp.__parse_in_multiprocess"), ("what workers get", T + " _worker.__init__ / lazy_import")],
  "Random templates with variables, lookups, macros, functions of all scopes and several templates, parsed by real worker processes, asked for or chosen by the parser for the size of its data; records shared between texts (record, count) and per_template are left out, workers do not share them.")
P("C15", "Parser objects do not influence each other",
  "What a parser object returns depends only on the calls made on it: templates, functions added by the user, macros, variables, lookups, options, recorded values and results of other objects in the same process never show in it, in whatever order calls on several objects are interleaved.",
  ["histories", "programs"], "every interleaving of calls on two or three parser objects whose templates use the same names for different things",
  "Tests make one object after the other and seldom let two be in use at once; functions live in modules shared by all objects.",
  [T, "ttp/match", "ttp/group", "ttp/output"], [("shared function modules", T + " lazy_import / ttp.__init__ / add_function"), ("per-object state", T + " ttp._ttp_")],
  "Two or three objects with clashing names for macros, functions, lookups, record variables and dynamic paths; calls interleaved at random.")
P("C16", "Groups parse the inputs meant for them, and no others",
  "A group that names inputs parses exactly these, an input that no group names is parsed by the groups its own filter lists, or by all groups that name no input. "
  "Data added by add_input and set_input goes to the templates named and to the input named, replacing what was there only with set_input; an unknown name or an empty selection loses nothing else.",
  ["programs", "histories"], "every assignment of inputs to groups and groups to inputs, in templates and calls, over several templates",
  "Tests have the simple assignments; the rules meet when several inputs, groups and templates name each other.",
  [T], [("association of groups and inputs", T + " _input_class / _template_class.update_input / form_results"), ("adding inputs", T + " ttp.add_input / set_input / clear_input")],
  "Random names on both sides, inputs in templates and calls, one or two templates, per_input and per_template; same names repeated.")
P("C17", "Variables have the value of the latest place that set them",
  "A template's variables come from the object, then its own tags in order, then add_vars; functions that read a variable see that value, and variables computed from the text (host name, file name, functions of the user) are computed anew for every text, and time getters give the time of the parsing in the form their name says. "
  "Tags with a name save their variables once per text at that path, with the values they have for that text.",
  ["inputs", "programs", "histories"], "every sequence of constructor, tag and add_vars values, every text and file",
  "Tests set variables one way at a time and read them in one place; order and per-text values are not covered.",
  [T, "ttp/variable"], [("variables", T + " _variables_class / add_vars / load_vars"), ("host names", "ttp/variable/gethostname.py")],
  "Random variables of all kinds of values in all places, read by set, let, defaults, paths, append, group set; prompts of eight systems, text from files.")
P("C18", "result() presents the same results in the structure asked for",
  "For any selection of templates, the list structure has the results of each in loading order, the dictionary structure has them by template name, and the flat list has their records in the same order, with nothing lost, added or changed; asking does not change what later calls give. "
  "clear_result forgets the results of the named templates only.",
  ["inputs", "histories"], "every sequence of parse, result and clear_result over any number of templates, some with no results",
  "Tests ask once for one or two templates; empty results, nameless groups and repeated names are not covered.",
  [T], [("result", T + " ttp.result / get_input_load"), ("clearing", T + " ttp.clear_result")],
  "Random sessions with none to three templates, selections by name, order and absence, all structures, repeated.")
P("C19", "Outputs receive the results and their form is that of the results",
  "Every output of a template whose condition holds runs once, in order, on what the one before returned; group outputs get the results of their groups only, and result() may run one more on a copy without changing what is kept. "
  "Tables and CSV have one row per record under the right headers, JSON, YAML and pprint texts stand for the results, and files contain what the formatter made.",
  ["inputs", "programs"], "every list of outputs (functions, formatters, returners, conditions) of templates, groups and result()",
  "Tests run one output on one result; records with missing keys, no records at all, several outputs in a row, and outputs of groups next to plain groups are open.",
  [T, "ttp/output", "ttp/formatters", "ttp/returners"], [("outputs", T + " _outputter_class"), ("formatters", "ttp/formatters"), ("returners", "ttp/returners")],
  "Random lists of outputs with macros, traverse, dict_to_list, is_equal, table, csv, json, yaml, pprint, own formatters, files, conditions; texts are decoded and compared as values.")
P("C14", "Every call changes what it is about, at once, and nothing else",
  "Adding templates, inputs, variables, lookups and functions, parsing, asking for results and clearing may be done in any order and any number of times: each call acts on the state left by the calls before it, results already there keep their place and content until cleared, and templates not named in a call are not touched by it. "
  "Parsing again gives one more result per text, a failed call leaves the object as usable as it was.",
  ["histories"], "every sequence of calls on a parser object",
  "Tests make the calls in the usual order once; sequences grow exponentially and state left by one call shows several calls later.",
  [T], [("public methods", T + " ttp.add_input / set_input / clear_input / add_vars / add_lookup / add_template / parse / result / clear_result"), ("state", T + " ttp._templates, _template_class")],
  "TLC explores all sequences of up to 4 (thorough 5) calls of three menus of 9-12 calls under invariants and action properties; the sequences it prints are replayed in the code (sampled: 1500 per menu, 20000 thorough), plus random longer walks.",
  state=[("templates", "templates loaded, in order, each with inputs, variables, lookups and results", T + " ttp._templates"), ("results", "results kept by each template", T + " _template_class.results")],
  tech="TLA+ specification of the API explored exhaustively by TLC with invariants and action properties; its behaviours replayed in the real code")
P("C21", "Lookups give the value of the key looked up, or leave the match alone",
  "lookup replaces a match (or adds the named field) with the value its table has at the given path for exactly that text, and leaves it unchanged when there is none; rlookup takes the first key contained in the text, gpvlookup the keys whose patterns match. "
  "Group lookups add or update the record the same way; tables may be results of groups or templates parsed before; tables are never changed.",
  ["inputs", "programs"], "every table in every form, every value looked up, any chain of functions around",
  "Tests look up values that are there, once; missing keys and paths, results of other groups, added fields and repeated use are open.",
  [T, "ttp/match/lookup.py", "ttp/group/lookup.py"], [("match lookups", "ttp/match/lookup.py"), ("group lookups", "ttp/group/lookup.py"), ("tables", T + " ttp.add_lookup / load")],
  "Random tables in Python, JSON, YAML, CSV, INI, in the tag or in files, looked up by match and group functions, from tables, groups and templates, before and after add_lookup.")
P("C22", "An extended template is the template with the extension written out",
  "An extend tag stands for what the named file contains: groups, or lines within a group, in its place in the same order, and at the top of a template also the file's variables, lookups, inputs, outputs and macros, merged as if written there; filters select by name or index, and nothing not selected is loaded. "
  "The same holds for the groups of extensions of extensions and for content a macro has rewritten; the text get_template returns is the template written out.",
  ["programs"], "every tree of extensions, filter, place of the tag",
  "Tests have one or two levels in fixed places; position among siblings and lines, and filters at every level matter.",
  [T], [("extend", T + " _template_class.construct_extend / handle_extend")],
  "Random trees of extensions up to three levels with filters, macros, files in directories or TTP_TEMPLATES_DIR; compared with the specification of the template written out.")
P("C32", "Structured text loads to the same data whatever form it is in",
  "Variables and lookup tables given as Python, JSON, YAML, INI or CSV text, in the tag, in a file it includes, or both, load to the data the text stands for: all keys, with values of the right types and names kept as they are. "
  "Of several tags that set the same name the last one counts, an INI section has the options of DEFAULT, and a CSV row is found by its key column.",
  ["inputs"], "every structured text in every form, in every place that takes one",
  "Tests load one small text per form; quoting, repeated keys, sections, defaults and mixed sources are open.",
  [T], [("loaders", T + " _ttp_ load functions"), ("include", T + " load_template / include attribute")],
  "Random data written in each form; CSV and INI texts are interpreted in the specification itself (TtpLoad).")
P("C23", "Templates loaded together parse as if each were alone",
  "Every template added, and every template tag within one, parses the inputs meant for it with its own groups, variables, lookups, macros and outputs, and its results stand in loading order under its own name (the tag's, or its index); a template that contains templates adds nothing itself. "
  "Filters load the named ones only, and loading one more changes nothing in those loaded before.",
  ["programs", "histories"], "every set of templates with names, nesting, filters and content that clash",
  "Tests load two templates with different content; those whose names for groups, macros, lookups, inputs and variables clash are open.",
  [T], [("templates within templates", T + " ttp.add_template / _template_class.load_template_xml"), ("filters", T + " ttp.add_template(filters)")],
  "One to three added templates, some with up to three within, all with the same names for macros, lookups, variables, inputs and groups but other content; filters, data for one or all of them.")
P("C24", "Macros and functions of the user take part like built-in ones",
  "A macro or added function is called with the value at its place in the chain, once, in order; what it returns replaces the value, True and None keep it, False discards the match, record, text or output, and a dictionary as second item adds the fields. "
  "The code called is that of the template (macros) or the object (functions) it belongs to, also when the name exists elsewhere or among built-in functions.",
  ["inputs", "programs"], "every chain that mixes macros, functions of the user and others, in variables, groups, inputs and outputs of several templates",
  "Tests call one macro in each place; mixed chains, clashing names, helper functions and all kinds of returned values are open.",
  [T, "ttp/match/macro.py", "ttp/group/macro.py", "ttp/input/macro.py", "ttp/output/macro.py"], [("macros", T + " _template_class.load macro tags"), ("functions", T + " ttp.add_function")],
  "Random assignments of 16 match, 7 group, 4 input and 4 output macros and 12 functions to names used by one or two templates, with helpers of the same name in both.")
P("C25", "Files and directories given as data are read in full and in order",
  "A path in add_input, set_input or an input's url stands for the file's text, and a directory for the texts of the files right in it, in the order listed, with only the extensions asked for; paths are relative to base_path, in the templates directory for names not found, and a text that is no path is data itself. "
  "Every text is parsed once under its own file name, with what the file contains when it is parsed.",
  ["inputs", "configurations"], "every tree of files, url, extension list, base path, place it is given in",
  "Tests read two fixed directories; extensions, nested directories, base paths and repeated files are not covered.",
  [T, "ttp/utils/loaders.py"], [("loading files", "ttp/utils/loaders.py"), ("inputs", T + " _input_class")],
  "Random file trees written, listed (the order is the system's), given in url, extensions, add_input and set_input, with base paths, files rewritten between two parse calls.")
P("C26", "The cache of functions never changes what parsing gives",
  "Whatever is in the cache file or its place (nothing, a part of it, other text, data of other versions or classes, a directory, an unusable folder), every new parser has all functions and gives the same results; so do processes that start at the same moment with it.",
  ["crash_points", "fault_sequences", "schedules"], "every content left by a process that stopped while writing, or by another version; processes starting together",
  "Tests never look at the file; a process killed while writing leaves any prefix of it.",
  [T], [("cache", T + " lazy_import_functions")],
  "Files cut at random places, spoilt, of other versions, other types and missing folders between the parsers of a session; several command line runs started together.")
P("C27", "One call and the command line give what the object gives",
  "quick_parse and the command line tool load the template (also from a variable of a Python file), data, variables and base path they are given, parse, and return or print the same results in the structure and for the templates asked for; the printed JSON, YAML, pprint or raw text stands for exactly these results.",
  ["inputs", "configurations"], "every combination of arguments, with templates that have their own inputs or templates",
  "Tests call quick_parse once and do not run the tool in all ways; combinations of arguments meet only there.",
  [T], [("command line", T + " cli_tool"), ("one call", T + " quick_parse")],
  "Random templates, data as text and files, variables, long and short arguments, formats in any case, one and several processes, run as script and as module; output decoded and compared.")
P("C28", "What belongs to the caller is not changed, what is returned stays",
  "Dictionaries and lists given as variables or data have the same content after any number of calls, and results taken earlier keep theirs after the object parses again, adds, clears or makes outputs of them; two objects given the same data do not see each other through it.",
  ["histories"], "every sequence of calls with shared structures, functions that write variables, and results kept",
  "Tests do not look at arguments after the call or at results after the next one.",
  [T], [("variables", T + " ttp.__init__ / add_vars"), ("data", T + " add_input"), ("results", T + " ttp.result / clear_result")],
  "Variables with nested values and structured data held by the caller, used by record, count, let, set and paths in one or two objects; all held values looked at after further calls.")
P("C29", "get_input_load gives the parameters each input was written with",
  "For every template and input that has parameters in Python, JSON or YAML form, the answer has all of them with the values written, under the names of the template and the input; inputs with none have none, and adding data, parsing or clearing changes only what it is about.",
  ["inputs", "histories"], "every set of templates and inputs with the same or other names, every form and value",
  "Tests ask for one template with plain values.",
  [T], [("parameters", T + " ttp.get_input_load / _input_class.load_data")],
  "Random parameters in three forms for up to three templates with clashing names, asked before and after data is added, parsed and cleared.")
P("C30", "The way a template is written down does not change what it does",
  "A template means the same as text, file, file object's text or found in the templates directory; with or without a template tag, with short or long tag names, in any order of variables, lookups, macros and groups, with comments, blank lines, trailing spaces, other quotes, escapes or CDATA. "
  "Text without tags is one group whose record is the result itself.",
  ["programs"], "every template in every such way of writing",
  "Tests have each template in one form; combinations such as comments within groups or text in tags were never compared.",
  [T], [("loading", T + " _template_class.construct_etree / load_template_xml"), ("groups", T + " _group_class.get_regexes")],
  "Random templates written in random ways against the specification of the plain one; bare texts with and without (nested) template tags and attributes.")
P("C31", "What a template says through its variables is as if said in place",
  "Functions, patterns, arguments and defaults of match variables and groups that are given by the name of a template variable do what they do written in place, in the order given: as one text or as a list, nested, or between functions written out, wherever the variable comes from (a vars tag, the parser's vars, add_vars before the template). "
  "A match variable may have any name, results have the name as it is written; a pathchar of the template separates path items as the dot does.",
  ["inputs", "programs"], "every chain of functions and patterns, every way of dividing it over variables, every variable name without blanks",
  "Tests have one chain per group or match variable, of checks that do not interact.",
  [T, "ttp/utils/get_attributes.py"],
  [("chains", T + " _variable_class.extract_functions.extract_chain, _group_class.get_attributes.extract_chain"), ("arguments", T + " get_arg_from_vars, extract_re"), ("names", T + " _variable_class.__init__")],
  "The specification has the functions in place; the template given to the code has them divided at random over variables (lists, texts, nested).")
P("C33", "Network addresses, hardware addresses and durations mean what they say",
  "is_ip accepts exactly the texts that are IPv4 or IPv6 addresses or interfaces (of the version asked for); to_ip, to_net, to_cidr and ip_info give the address, network, masks, lengths, compressed forms and kinds it stands for, and cidr_match says whether it overlaps the prefix given. "
  "mac_eui gives the twelve hexadecimal digits in its text in pairs; uptimeparse gives the total of all parts of a duration in seconds, or each part as it stands.",
  ["inputs"], "every address, mask, prefix, hardware address and duration text, well formed or not, alone or in a chain with other functions",
  "Tests have a handful of addresses of each kind and two or three durations; compressed forms, masks in three notations, near misses and all unit words in combination are open.",
  ["ttp/match/ip.py", "ttp/match/mac_eui.py", "ttp/match/uptimeparse.py", "ttp/group/to_ip.py"],
  [("address functions", "ttp/match/ip.py, ttp/group/to_ip.py"), ("others", "ttp/match/mac_eui.py, ttp/match/uptimeparse.py")],
  "The specification has its own arithmetic on addresses as octets and groups (TtpNet), not the ipaddress module; random addresses, masks, near misses, attribute chains, all unit words.")
P("C34", "Comparison and validation report exactly what differs or is wrong",
  "deepdiff reports every change, addition and removal between the results and the data they are compared with (an input, results of another template, a variable), with the value or type on both sides, and nothing else; validate says of every record whether it meets the schema and, asked for errors, which rules each field breaks. "
  "The results themselves stay as they are, except for what the output or group is asked to add to them.",
  ["inputs", "programs"], "every pair of nested results, every schema over them and every record, in outputs and in groups",
  "Tests compare two fixed results and validate against two or three fixed schemas.",
  ["ttp/output/deepdiffer.py", "ttp/output/validate_cerberus.py", "ttp/group/validate_cerberus.py"],
  [("comparison", "ttp/output/deepdiffer.py"), ("validation of outputs", "ttp/output/validate_cerberus.py"), ("validation of groups", "ttp/group/validate_cerberus.py")],
  "The specification has its own comparison of nested values and its own evaluation of schema rules (TtpValid), not the libraries used; random texts, variables, schemas, forms of reports.")
P("C35", "What is printed, saved or sent stands for the results, complete and in order",
  "Text made by Jinja2 templates, tabulate tables and workbooks has every value of the results at its place; a file of the name asked for, with variables in it, has the last output in full, workbooks asked to be updated keep what they had before the new rows. "
  "The terminal shows and syslog servers receive each item once, in order, and the results handed on are what they were.",
  ["inputs", "programs", "histories"], "every template text, table, name, list of servers and sequence of parse and result calls",
  "Tests write one workbook and one table; updates, several tabs, missing values, names with variables and messages sent are not looked at.",
  ["ttp/formatters/excel_formatter.py", "ttp/formatters/tabulate_formatter.py", "ttp/formatters/jinja2_formatter.py", "ttp/returners/file_returner.py", "ttp/returners/syslog_returner.py", "ttp/returners/terminal_returner.py"],
  [("formatters", "ttp/formatters"), ("returners", "ttp/returners")],
  "Workbooks, tables and messages are read back (cells, UDP packets on the loopback network, standard output of the process) and compared with what the specification says the files, servers and terminal hold.")
P("C36", "The functions of an input decide what of its texts is parsed",
  "The functions given to an input (attributes of the tag, or a list in its functions attribute) get each text of that input in full, in the order they are written, before any group sees it; what the last one returns is what is parsed, and a function that returns False ends the list for that text. "
  "extract_commands leaves the output of the commands named, in the order they are named, or the whole text if there is none; texts added later with add_input or set_input to the same input go through the same functions, texts of other inputs go through none of them.",
  ["inputs", "programs", "histories"], "every terminal output, list of commands, order of functions, division of texts over inputs",
  "Tests have one function per input and one text of a device.",
  [T, "ttp/input/commands.py", "ttp/input/macro.py"],
  [("running them", T + " _parser_class.run_functions / set_data / _input_class.get_attributes"), ("commands", "ttp/input/commands.py"), ("macros", "ttp/input/macro.py")],
  "The specification has the texts' transformation as a step before scanning; random terminal outputs (other prompts, blank outputs, commands that begin like others), inputs, macros and functions added.")
