import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
CL='src/cmdline.cpp'; VM='src/variables_map.cpp'; OD='src/options_description.cpp'; VS='src/value_semantic.cpp'; PA='src/parsers.cpp'; CF='src/config_file.cpp'; CV='src/convert.cpp'; H='include/boost/program_options/'
p('C01','No command-line token is lost, duplicated, reordered or altered',
 "Whenever an argument vector is parsed successfully with the built-in syntaxes, the original tokens recorded on the parsed options, concatenated in order, are exactly the given arguments, byte for byte, except that the one bare '--' acting as terminator is dropped. Every value of a parsed option is, verbatim, either a whole argument recorded among its own original tokens or the tail of one, and every positional option holds exactly its own argument as its value. No argument is therefore ever lost, duplicated, reordered, split or changed, whatever the style, the option set, and whether or not unregistered options are allowed.",
 ['inputs','configurations'],'every argument vector x option set x style mask x allow_unregistered x positional set that parses without error',
 'the tests compare a few dozen fixed short command lines; conservation must hold for every sequence in which options, groups, values, unknown options, positionals and terminators interleave',
 [CL,PA,H+'option.hpp'],[('style parsers consume tokens front to back','src/cmdline.cpp run()'),('original_tokens bookkeeping','src/cmdline.cpp finish_option and the second phase of run()')],
 [('original_tokens','tokens an option was made from',H+'option.hpp')],['command_line_parser(...).run().options'])
p('C02','All permitted spellings of the same option and value mean the same thing',
 "If two command lines differ only in how an option occurrence is spelled, using spellings the active style permits (value adjacent after '=', or in the next argument; full long name, alias or unambiguous abbreviation; short name with dash or slash, value adjacent or next; long name after a single dash or slash where disguised long options are on; different letter case where case is ignored; short flags grouped or separate), they produce the same sequence of option names and values and the same stored variables. The value seen by the program is the exact text given, including '=', spaces, dashes and quotes inside it.",
 ['inputs','configurations'],'every abstract assignment of options to values x every permitted spelling of each occurrence x every style',
 'tests check each spelling alone on two or three options; equivalence must hold for every option set, every value text and every mixture of spellings on one line',
 [CL,OD,VM],[('parse_long_option / parse_short_option / parse_dos_option / parse_disguised_long_option','src/cmdline.cpp'),('names canonised by the first long name','src/options_description.cpp option_description::key')])
p('C03','Malformed command lines are rejected with the right kind of error',
 "A command line naming an unknown option, an ambiguous abbreviation, an option without its required value (nothing follows, or an argument that is exactly a declared short option with a dash follows), an option with an empty value after '=', a valueless option given a value, or more positional arguments than allowed is always rejected: parsing throws the error class and kind for exactly that defect, and never returns a result. A command line without such a defect is never rejected by the parser.",
 ['inputs','configurations'],'every argument vector x option set x style; both directions (accept iff no defect)',
 'tests have one or two examples per error class in isolation; soundness and completeness of rejection are over every placement of the defect among arbitrary other arguments',
 [CL,OD,H+'errors.hpp'],[('arity and lookahead checks','src/cmdline.cpp finish_option'),('unknown/ambiguous detection','src/options_description.cpp find_nothrow')])
p('C04','Positional arguments are bound by position, in order, and only to their names',
 "Arguments that are not options or option values become positional options numbered consecutively from zero in the order given, and the n-th one receives the name the positional description assigns to position n (fixed counts in the order added, then the unlimited trailing name). Everything after a bare '--' is positional, no matter what it looks like, and is never taken as the value of an earlier option. When more positional arguments are given than the description allows, parsing fails; the number allowed and the name of each position are exactly what was declared.",
 ['inputs','configurations'],'every positional description (counts, repeated names, trailing) x every argument vector with terminator at any place',
 'tests bind at most six positionals to one description; the rule ranges over all descriptions, mixtures with options and terminator positions',
 [CL,'src/positional_options.cpp'],[('position keys and names assigned after parsing','src/cmdline.cpp run()'),('name_for_position/max_total_count','src/positional_options.cpp'),('INT_MAX marks post-terminator tokens','src/cmdline.cpp parse_terminator')])
p('C05','A name resolves to its one option, or is reported unknown or ambiguous',
 "Looking up a name finds an option exactly when the name equals one of its long names or its short name (ignoring case only where asked), extends a wildcard name's prefix, or, where abbreviation is allowed, is a prefix of a long name; an exact match always wins over wildcard and abbreviation matches. Two different exact matches, or several inexact ones without an exact one, are reported as ambiguous with exactly the matching candidates listed; no match is reported as unknown; the answer does not depend on the order in which options were added.",
 ['inputs','configurations'],'every set of option names (prefixes of one another, aliases, wildcards, case variants) x every looked-up name x every flag combination',
 'tests look up a handful of names in small tables; the rule must hold for every overlapping-name table, where the interesting conflicts live',
 [OD,H+'options_description.hpp'],[('option_description::match','src/options_description.cpp'),('options_description::find / find_nothrow','src/options_description.cpp')])
p('C06','Unregistered options pass through intact and can be collected',
 "When unregistered options are allowed, unknown options never cause an error (unless malformed in themselves, with nothing after their '='), are marked as unregistered, do not disturb the parsing of the registered ones, and are never stored in a variables map. Collecting unrecognised arguments returns exactly the original arguments of the unregistered options, in order, plus the positional ones when asked, so re-parsing that list with the full option set loses nothing. Registered options are never among the collected ones.",
 ['inputs','configurations','programs'],'every argument vector mixing known, unknown and positional arguments; two-stage programs with disjoint option sets',
 'tests use about ten vectors with one or two unknown options; pass-through must hold for every interleaving and for values resembling options',
 [CL,PA,H+'detail/parsers.hpp',VM],[('opt.unregistered set when lookup fails','src/cmdline.cpp finish_option'),('collect_unrecognized',H+'detail/parsers.hpp'),('store skips unregistered',VM)])
p('C07','Only the syntaxes the style enables are recognised; bad styles are refused',
 "For every combination of style flags, an argument is recognised as an option only through a syntax the flags enable (long with two dashes, short with dash, short with slash, disguised long with one dash or slash, grouped flags, abbreviations, case-insensitive names); otherwise it is an ordinary positional argument or an unknown name, never silently reinterpreted. A style that enables long or short options without any way of giving their values, or short options without any prefix character, is refused when it is set; every other style is accepted, and style zero means the default style.",
 ['configurations','inputs'],'all style masks (2^13) x argument shapes x option tables',
 'tests use about twelve style values out of 8192',
 [CL,H+'cmdline.hpp'],[('style parser list built from the flags','src/cmdline.cpp run()'),('check_style','src/cmdline.cpp')])
p('C08','Options consume exactly the arguments their declaration permits',
 "An option that takes no value consumes no other argument. One that requires a value and has none adjacent consumes exactly the next argument, whatever it looks like, except that an argument which is exactly a declared short option with a dash is never consumed and makes the required value missing. An optional-value option consumes an adjacent value or at most one directly following non-option argument; a multi-token option consumes, besides its required first value, all directly following non-option arguments. No option takes optional or further values from behind a terminator, and arguments not consumed keep their own meaning.",
 ['inputs','configurations'],'every option declaration (zero, one, implicit, multitoken, composing, switch, untyped) x every following-argument sequence',
 'tests cover each arity with a couple of continuations; the boundary between value and next option must hold for every continuation',
 [CL,H+'value_semantic.hpp',VS],[('min_tokens/max_tokens','include/boost/program_options/value_semantic.hpp'),('required tokens taken in finish_option, optional ones in the second phase of run','src/cmdline.cpp')])
p('C09','User-supplied parsers see each argument first and are held to the same rules',
 "A custom token parser or custom style parser is offered each not-yet-consumed argument before the built-in syntaxes, once the preceding arguments are done; what it recognises is used as given and what it declines is parsed by the built-in syntaxes as if it were absent. Options it produces are validated like any other: unknown names, missing or surplus values are reported by exception, names are canonised and further values are taken from the following arguments.",
 ['inputs','programs'],'every custom parser (declining, rewriting, multi-argument, valueless, producing several options) x every argument vector',
 'tests have one custom parser of each kind with two or three inputs',
 [CL,PA,H+'parsers.hpp'],[('style_parsers vector ordering','src/cmdline.cpp run()'),('handle_additional_parser','src/cmdline.cpp'),('extra_style_parser','src/cmdline.cpp')])
p('C10','Values from several sources combine with the documented precedence',
 "After storing any sequence of parsed sources in one variables map, a non-composing option holds the value from the first source that gave it, a composing option holds the concatenation of its values from all sources in order, and an option given by none holds its default, marked as defaulted, if it has one, and is absent otherwise. An explicit value always replaces a default and is never marked defaulted; a repeated non-composing scalar within one source is an error. Options not mentioned by a source are unaffected by it.",
 ['histories','inputs','configurations'],'every sequence of stores of command-line, config-file and environment results over every mix of composing/non-composing/defaulted/implicit options',
 'tests store at most three sources with a few options; precedence is a property of every history of stores',
 [VM,H+'variables_map.hpp',VS],[('m_final set','src/variables_map.cpp store'),('defaults applied last','src/variables_map.cpp store')],
 [('m_final','names whose value may not change any more',H+'variables_map.hpp')])
p('C11','A failed store leaves the variables map as it was',
 "If storing a parsed source throws because a value cannot be converted, an option is repeated or has too many values, the variables map keeps exactly the entries, values and defaulted marks it had before the call. A later store, after the user corrects the input, behaves as though the failed one had never happened.",
 ['fault_sequences','histories','inputs'],'every history of stores in which any subset fails at any option',
 'the tests check only that an exception is thrown, never what is left in the map',
 [VM],[('values staged and committed at the end of the store','src/variables_map.cpp store')])
p('C12','Notification: required options checked first, then each value delivered once',
 "Notifying a map throws for an option required in that map and absent from it (or present there only as an empty value), naming it, before any callback runs or any user variable is written. Otherwise every option present in the map, including defaulted ones, has its final value written to its bound variable and passed to its callback exactly once per notification, and no option that is absent is notified. Storing without notifying never touches user variables or callbacks.",
 ['histories','configurations','inputs'],'every set of required/defaulted/bound/callback options x every history of stores and notifications',
 'tests observe one callback and a few bound variables; ordering and exactly-once delivery over arbitrary sets are not sampled',
 [VM,H+'detail/value_semantic.hpp'],[('variables_map::notify','src/variables_map.cpp'),('m_required','src/variables_map.cpp')])
p('C13','Converted values are exact; text that is not a value of the type is rejected',
 "The value obtained for a typed option equals the value its text denotes in the declared type (integers over their full range, a minus sign on an unsigned type being left to lexical_cast, floating point, characters, strings verbatim, the documented boolean words in any letter case, vectors element by element in order, optional values), for narrow and wide options alike. Text that does not denote a value of the type, including out-of-range numbers, stray characters, surrounding blanks and (except for strings, and for a boolean, where it means true as documented) empty text, is rejected with the invalid-value error and never truncated or defaulted.",
 ['inputs'],'every text for every supported value type',
 'tests convert about ten literals; exactness and rejection range over all texts, in particular boundary values and near misses',
 [VS,H+'detail/value_semantic.hpp',H+'value_semantic.hpp'],[('validate overloads','src/value_semantic.cpp and include/boost/program_options/detail/value_semantic.hpp')])
p('C14','Configuration files mean what they say',
 "For every configuration text, parsing yields, in order, one option per 'name = value' line, with the enclosing section and a dot prefixed to the name, blanks around name and value removed, '#' comments and blank lines ignored, and the value otherwise verbatim (including further '=' signs). A line that is none of these is an error, as is a name matching no declared long name or wildcard, unless unregistered names are allowed, in which case it is returned marked unregistered. Wide-character files give the same options.",
 ['inputs','configurations'],'every configuration text x option set x allow_unregistered',
 'tests parse four small fixed files; the grammar ranges over all texts including odd section headers, blank variants and missing final newlines',
 [CF,H+'detail/config_file.hpp',PA],[('common_config_file_iterator::get','src/config_file.cpp'),('allowed_option/add_option','src/config_file.cpp')])
p('C15','Unreadable configuration files are always reported, never silently truncated',
 "Parsing a configuration file by name returns a result only if the whole file was read: a file that cannot be opened, is a directory, or fails with an I/O error at any point while being read causes an error naming the file. No options are returned for a partially read file, for narrow and wide variants alike, and the file is closed in every case.",
 ['fault_sequences','inputs'],'every read call at which an I/O error, short read or interruption can occur, for every file size and line structure',
 'tests only try a non-existent file name; faults in the middle of reading never occur in a test run',
 [PA,H+'detail/config_file.hpp'],[('stream state checked before and after parsing','src/parsers.cpp parse_config_file(const char*)')])
p('C16','The environment parser takes exactly the mapped variables, values verbatim',
 "Parsing the environment yields exactly one option for each environment variable whose name the mapper (or prefix rule: prefix removed, rest lower-cased) maps to a non-empty name, in environment order, with the variable's value kept verbatim (including empty values and '=' signs); all others are ignored. The result does not depend on unrelated variables, and a missing or malformed environment never crashes the program.",
 ['inputs','configurations'],'every environment block x prefix or mapping function',
 'tests set one or two variables in an otherwise fixed environment',
 [PA,H+'environment_iterator.hpp'],[('environment_iterator',H+'environment_iterator.hpp'),('prefix_name_mapper','src/parsers.cpp')])
p('C17','Splitting a Unix-style command string inverts quoting and escaping',
 "For every list of non-empty arguments, joining them with any separators after quoting or escaping each and splitting the result gives back exactly that list, for narrow and wide strings and for any distinct choice of separator, quote and escape characters. Separators inside quotes or after an escape never split, runs of separators never create arguments, and an invalid escape is reported by exception.",
 ['inputs','configurations'],'every argument list x quoting style per argument x separator/quote/escape sets',
 'tests split five literal strings with default and one custom separator',
 ['src/split.cpp',H+'parsers.hpp'],[('tokenizer with escaped_list_separator','src/split.cpp')])
p('C18','Splitting a Windows command string follows the Microsoft argument rules',
 "Splitting a Windows command string yields the arguments the Microsoft C runtime rules give: blanks separate arguments outside quotes, 2n backslashes before a quote give n backslashes and toggle quoting, 2n+1 give n backslashes and a literal quote, backslashes elsewhere are literal, and quoted empty arguments are kept. Quoting any argument list by those rules and splitting gives the list back, and the wide variant agrees with the narrow one.",
 ['inputs'],'every command string over blanks, quotes, backslashes and ordinary characters',
 'the winmain test is empty on this platform, and has nineteen literals on Windows',
 ['src/winmain.cpp'],[('backslash/quote state machine','src/winmain.cpp split_winmain')])
p('C19','UTF-8 and local-encoding conversions are lossless, or fail loudly',
 "Converting any wide string of valid code points to UTF-8 and back returns the same string, the UTF-8 text is the standard encoding, and converting through the local encoding of the current locale or a given conversion facet round-trips likewise for every representable string, whatever its length. Malformed or truncated input (stray or missing continuation bytes, overrunning sequences cut at the end) is rejected by exception; a conversion never loops, drops, truncates or invents characters.",
 ['inputs','configurations'],'every string (all code points, all lengths around internal buffer boundaries), every malformed byte sequence, every facet',
 'tests convert three short strings',
 [CV,'src/utf8_codecvt_facet.cpp',H+'detail/convert.hpp'],[('chunked conversion loop','src/convert.cpp detail::convert'),('utf8 facet','src/utf8_codecvt_facet.cpp')])
p('C20','Wide and narrow parsing agree',
 "Parsing a wide command line or configuration text gives the same option names, positions, unregistered marks and errors as parsing its UTF-8 form, with wide values and original tokens that are the exact wide text. Storing either into a map gives equal values for narrow and wide typed options, for every combination of wide/narrow source and wide/narrow option, under the current locale.",
 ['inputs','configurations'],'every text over ASCII and non-ASCII code points x source width x option width x locale able to represent the text',
 'tests use two or three fixed Cyrillic strings and one option each',
 [PA,VS,CV,H+'detail/parsers.hpp'],[('to_internal / from_utf8 at the boundary','src/convert.cpp'),('utf8 flag of value_semantic::parse','src/value_semantic.cpp'),('woption_from_option','src/parsers.cpp')])
p('C21','Help output is complete, ordered, aligned and within the line width',
 "Printing an option set shows every option exactly once, in the order added with groups after ungrouped options under their captions, giving its names, value placeholder with default/implicit texts, and the entire description: removing the inserted line breaks and indentation recovers every word in order, and paragraphs start on their own lines. Descriptions start in one common column and no description line exceeds the configured width, for any valid line length and description length. Printing does not change the option set.",
 ['inputs','configurations'],'every option set x description text x line length x minimum description length x nesting of groups',
 'tests compare the output of about ten fixed option sets, mostly at default width',
 [OD],[('format_paragraph / format_description / format_one','src/options_description.cpp'),('get_option_column_width','src/options_description.cpp')])
p('C22','Error messages are complete, quote the user text verbatim, and always terminate',
 "Every error raised while parsing, storing or notifying has a message that names the offending option with the prefix of the syntax in use and quotes the offending text byte for byte, whatever that text contains; no unreplaced placeholder remains unless the user's own text contains it. Producing the message always terminates, gives the same text every time, and survives copying and re-throwing of the exception.",
 ['inputs','configurations'],'every erroneous input x every error class x every style, in particular option names and values containing placeholder-like text',
 'tests check one message per error class with plain alphabetic names',
 [VS,H+'errors.hpp',CL,VM],[('placeholder substitution','src/value_semantic.cpp error_with_option_name::substitute_placeholders'),('add_context at the catch sites','src/cmdline.cpp, src/variables_map.cpp')])
p('C23','No input can cause undefined behaviour',
 "For every argument vector, configuration text, environment block, command string, byte sequence to convert, option table and style, the library neither reads or writes memory out of bounds, uses uninitialised or freed memory, violates the preconditions of the standard library functions it calls, nor triggers an internal assertion; it returns a result or throws an exception derived from std::exception. It always terminates.",
 ['inputs','configurations'],'every input to every public entry point',
 'tests run uninstrumented on well-behaved inputs; memory errors on hostile input are invisible to them',
 [CL,CF,OD,VS,CV,PA,'src/split.cpp','src/winmain.cpp'],[('bounds checks throughout','all sources')])
p('C24','Concurrent use of shared, fully built descriptions is safe and deterministic',
 "Any number of threads may at the same time parse, store, look up, print and format error messages using the same option descriptions that none of them modifies, without data races, and each thread gets exactly the result it would get alone. Parsing, storing and printing never change the descriptions they use, so repeating an operation gives the same result.",
 ['schedules','histories'],'every interleaving of threads performing read-only operations on shared descriptions, including first uses',
 'all tests are single threaded',
 [CL,OD,VM,VS,CV,PA],[('descriptions are only accessed through const references','src/cmdline.cpp, src/variables_map.cpp'),('function-local statics initialised once','src/options_description.cpp, src/variables_map.cpp')])
p('C25','Running out of memory is reported and leaves everything usable',
 "If any single memory allocation fails, or all do from some point on, during parsing, storing, notifying, lookup or reading of a configuration, the operation throws (or completes with the correct result) instead of crashing, returning a wrong or truncated result, or leaking memory. Descriptions and maps stay usable: a map touched by a failed store is unchanged, and repeating the operation with memory available gives the normal result.",
 ['fault_sequences','inputs'],'every allocation site reached, failing each in turn, for each workload',
 'allocation failures never occur in tests',
 [CL,VM,OD,CF,PA,VS],[('RAII containers and shared_ptr throughout','all sources'),('store commits at the end','src/variables_map.cpp')])
p('C26','Chained variables maps resolve each name by the documented rule',
 "Looking up a name in a chain of variables maps returns the explicit value of the first map in the chain that has one, else the first map's default for it that appears in the chain, else an empty value. Lookup never modifies or adds entries to any map, clearing a map forgets all its values, defaults, finality and required marks without affecting the maps behind it, and re-linking takes effect at once.",
 ['histories','configurations'],'every chain length x every assignment of absent/defaulted/explicit per map x every order of store, clear and relink',
 'tests check one two-map chain',
 [VM,H+'variables_map.hpp'],[('abstract_variables_map::operator[]','src/variables_map.cpp'),('variables_map::clear','src/variables_map.cpp')])
p('C27','Composing option descriptions preserves every option and its names',
 "An option declared with any list of long names and an optional final one-letter short name answers to exactly those names, is keyed by its first long name (or by the short name, or for wildcard names by the name as given), and displays the prefix of the requested style. Adding one description set to another makes each of its options findable and listed exactly once in order, without changing the added set, and options added to the original afterwards do not appear.",
 ['programs','configurations'],'every name list x every tree of groups x every order of additions',
 'tests build three small descriptions and check a few names',
 [OD,H+'options_description.hpp'],[('set_names/key/canonical_display_name','src/options_description.cpp'),('options_description::add','src/options_description.cpp')])
p('C28','Behaviour does not depend on how the library was built',
 "For every input, the observable results (parsed options, stored values, errors and their messages, help text) are the same whether the library is built as static or shared, with or without assertions, optimisation, run-time type information or instrumentation, by either supported compiler and in any supported language standard. Nothing observable depends on uninitialised memory, addresses or container growth.",
 ['configurations','inputs'],'every build configuration x every input of the differential corpus',
 'the tests run in three debug builds by one compiler and compare only to fixed expectations',
 [CL,OD,VM,VS,CV,PA,CF],[('no reliance on assert side effects or unspecified order','all sources')])
p('C29','User-written semantics, validators and types are used as the interface says',
 "With a value_semantic written by the user, the parser never gives an option fewer values than min_tokens() (it reports a missing argument) nor more than max_tokens(). Storing calls parse exactly once per stored occurrence, in order, with exactly the tokens of that occurrence and an encoding flag that tells the truth, passing an empty object for the first occurrence and otherwise the object left by the earlier ones; apply_default is asked exactly for the options that got no value; notify is called once per notification with the stored object. An exception thrown by any of these, or by a user's validate() or operator>>, reaches the caller, validation errors naming the option, and leaves the map unchanged. The semantics object lives as long as a description or map uses it and is then destroyed exactly once. A user's validate() or operator>> is used for single values and vectors, narrow and wide alike.",
 ['programs','inputs','histories'],'every user-written semantics (token limits, defaults, failures) x every command line, configuration and history of stores',
 'tests use one custom validator and one trivial user type and observe neither the calls made nor their arguments or number',
 [CL,VM,H+'value_semantic.hpp',H+'detail/value_semantic.hpp',VS],[('finish_option and the token grabbing loop in cmdline::run','src/cmdline.cpp'),('store: parse and apply_default calls','src/variables_map.cpp'),('value_semantic interface','include/boost/program_options/value_semantic.hpp')])
p('C30','Stored values keep their types, and maps and results are independent values',
 "Reading a stored value as its declared type gives exactly the stored object, by reference where the map is not constant; reading it as any other type throws bad_any_cast and changes nothing; an absent name reads as an empty value. Copies, assignments, swaps and moves of variable maps, values, parsed options, parsers and positional descriptions behave exactly as the originals would (including which options are final, required or defaulted) and are independent of them afterwards. Changes made in place are seen by later stores and notifications. Maps outlive the descriptions and results they were filled from, and results outlive the parsers, arguments and streams.",
 ['histories','programs'],'every history of stores, copies, assignments, swaps and destructions of the objects involved',
 'tests read values as the right type from maps that are never copied and whose descriptions outlive them',
 [VM,H+'variables_map.hpp',H+'parsers.hpp',H+'positional_options.hpp',H+'option.hpp'],[('variable_value / variables_map copying','include/boost/program_options/variables_map.hpp'),('variable_value::as','include/boost/program_options/variables_map.hpp')])
p('C31','The library only reads what it is given, keeps copies, and touches nothing else',
 "Parsing, storing, notifying, looking up, describing and printing never write to the arguments, environment, vectors, streams' settings, option tables or parsed results they are given (a program may hold the texts in read-only memory), read no further than the stated count or terminator, and leave process-wide state (locale, environment, directory, open files, signal dispositions, rounding mode, the standard streams) as found, on success and on error alike; nothing is written to standard output or error. What the library keeps it copies: names, descriptions, defaults and arguments may be destroyed right after the call, and a result, map, description or exception stays valid and says the same after everything it came from is gone. Results do not depend on errno or on formatting the user left in a stream.",
 ['programs','inputs','histories'],'every input in any memory, every state of process and streams around the call, success and failure',
 'tests pass literals and long-lived vectors, use fresh streams and never look at process state around a call',
 [PA,CL,VM,OD,H+'detail/config_file.hpp',H+'environment_iterator.hpp'],[('parse_config_file(const char*)','src/parsers.cpp'),('environment_iterator','include/boost/program_options/environment_iterator.hpp'),('printing of descriptions','src/options_description.cpp')])
p('C32','Work, memory and stack grow with the input as stated',
 "The time an operation takes is at most linear in the length of any text given to it (argument, value, name, configuration line, command string, description, text to convert, offending text of an error), linear in the number of declared options for one argument, configuration line, variable or printed help, and at most quadratic in the number of arguments or of options declared, stored or looked up together. The memory it takes, while it works and afterwards, is proportional to its input; the stack it needs does not depend on the input, other than on how deeply the user nested groups or chained maps; all memory is given back with the objects that hold it. No short input makes it run without end.",
 ['inputs','configurations'],'every length and every number of every part of an input, on all paths including errors',
 'tests use inputs of a few dozen characters, where any growth looks the same',
 [CL,CF,OD,VM,VS,CV,PA,'src/split.cpp','src/winmain.cpp'],[('convert','src/convert.cpp'),('cmdline::run','src/cmdline.cpp'),('replace_token / substitute_placeholders','src/value_semantic.cpp'),('format_paragraph','src/options_description.cpp')])
p('C33','A declaration means the same however it is written',
 "The settings of a value (default_value, implicit_value, value_name, notifier, composing, multitoken, zero_tokens, required) may be given in any order and again: each keeps its effect whatever is set before or after, and of one setting given twice the last counts. The value_semantic interface answers accordingly (token limits, composing, required, displayed name with default and implicit texts, default application, and on notification both the variable and the notifier get the value). Equivalent ways of declaring give the same option: value(&v) and a notifier that assigns to v, bool_switch() and its expansion, wvalue and value for narrow types, add_options() and option_description objects, untyped options with and without semantic. Using a declaration changes nothing in it.",
 ['programs','inputs'],'every sequence of settings on every kind of value x every use of the declaration',
 'tests write each setting in one customary order, one or two together',
 [H+'value_semantic.hpp',H+'detail/value_semantic.hpp',VS,OD],[('typed_value setters','include/boost/program_options/value_semantic.hpp'),('typed_value::name / notify / xparse','include/boost/program_options/detail/value_semantic.hpp')])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        if not q['anchors']['state']: q['anchors'].pop('state')
        f.write(json.dumps(q)+'\n')
