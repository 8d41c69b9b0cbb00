ABS = 'abstract interpretation'
CHECKS = {
    'C01': ('abstract interpretation of copy/enhance with symbolic attribute values; structural comparison of the abstract heaps',
            'Every attribute stored by the constructors is compared between original and copy, per class and depth, '
            'with text attributes symbolic and finite attributes enumerated. Trusts the models of Python builtins in sa/.'),
    'C03': ('abstract interpretation of __eq__/__ne__ on pairs of definitions differing in one attribute',
            'All pairs of values per attribute, three depths; symbolic words stand for arbitrary distinct strings.'),
    'C11': ('abstract interpretation of the generators with a harmless and with special texts at every place of a definition; relational word-by-word comparison of the two parsed scripts, including the code and formats carried in words',
            'About 140 places (completers in several hosts, help, metavar, conditions, separators, wraps) times three shells, nine texts (thorough: twenty texts and nine hosts).'),
    'C12': ('abstract interpretation of the quoting, escaping and identifier functions on texts of special characters among symbolic words; the results are read back by readers of bash, zsh and fish words',
            'About 4,800 texts (every special character alone, in pairs and in sequences of up to four interacting ones), ten functions, three shells. Longer texts by the character-wise form of the functions.'),
    'C18': ('abstract interpretation of every generator, exporter, copy and validation; comparison of the definition heap before and after and of texts produced in sequence',
            'Every documented completer with all its options and a definition using every attribute; every ordered pair of operations.'),
    'C13': ('abstract interpretation of the generators over a corpus of definitions; parsing of the derived scripts; resolution of every call, switch and literal argument against the definitions emitted and the helper repository',
            'About 980 definitions (every completer, condition form, option shape, configuration) times three shells, and the dependency lists of all helpers.'),
    'C14': ('abstract interpretation of the emitter for every helper and switch subset and of the generators over the corpus; the derived texts are read by the parsers of the shells without running them',
            'All helpers of three shells with every subset of their switches (up to seven), all code templates, about 980 definitions times three shells, code carried in strings.'),
    'C15': ('abstract interpretation of the generators over the corpus; scope analysis (locals, dynamic scoping over the call graph, subshells, name references) of the parsed scripts',
            'Every assignment and function definition of about 980 definitions times three shells.'),
    'C16': ('abstract interpretation of the generators over the corpus; the derived texts are searched for placeholders of templates, conditional markers and texts of Python objects',
            'About 980 definitions times three shells.'),
    'C08': ('abstract interpretation of the generators on pairs of definitions differing in one completer argument; comparison of the abstract output texts',
            'All 48 documented completers, every argument and option, three shells, several contexts (option, positional, subcommand, nested in list/combine).'),
    'C10': ('abstract interpretation of the generators on pairs of conditions; parsing of the generated condition and truth table comparison',
            'All five tests with their flags, all comparison operators, boolean structures up to four parts, three shells.'),
    'C09': ('abstract interpretation of the generators on pairs of definitions differing in one attribute; comparison of the abstract output texts',
            'Every attribute of commands, options and positionals, in the root, in subcommands and alone or combined with others, three shells.'),
    'C04': ('abstract interpretation of validation on definitions with one attribute of a wrong type; the exceptions of every path are compared with the documented type table',
            'Every attribute, nested element, completer argument and option, each wrong type, at the root and nested, through the validator of YAML input and of definition objects.'),
    'C05': ('abstract interpretation of validation on malformed definitions; the exceptions of every path are inspected',
            'Each malformation (unknown, missing, superfluous, contradictory) at three depths and in every place a completer may stand.'),
    'C06': ('abstract interpretation of validation on definitions with a value of unknown content or of any type at each place; exceptions that are no definition errors are reported with their raise site',
            'Every place of a definition holding each type of value; a verdict is only given when the exception is definite.'),
    'C21': ('abstract interpretation of the whole program from parse_args to the written text with virtual files; the text is compared with the one generated from the configuration object',
            'Every command line setting with its values, alone and all together, three shells; thorough: every pair.'),
    'C22': ('abstract interpretation of enhance_commandline and of the generators; every attribute of the abstract result is compared with the documented resolution',
            'All attribute values at four levels under combinations of all settings and disabled features; script equality of inherited and explicit settings for three shells.'),
    'C07': ('abstract interpretation of generate_completion on definition objects that are invalid in one place; a path that returns text is a violation',
            'Every attribute, contradictions, several depths, every setting, three shells; whole runs for each input format; a definition changed between two generations; YAML scalars of every implicit type as validated and as loaded.'),
    'C19': ('abstract interpretation of the whole program with virtual files: every file opened for writing, truncated, written or removed is an event of the run; typestate of output files, plus a listing of all call sites that change files',
            'Every failing input kind, each shell and exporter, all destinations; every malformed definition of C05; events of every path compared with the one designated file.'),
    'C20': ('abstract interpretation of the whole program with virtual files; every exec, eval, import and subprocess call is an event of the run; listing and classification of all such call sites',
            'Every input kind and every wrong or missing input type, each shell and exporter; provenance of each subprocess command.'),
    'C23': ('abstract interpretation of the whole program; the exit statuses, messages and tracebacks of all paths are compared with the documented ones',
            'Every kind of unreadable, unparsable and malformed input, wrong command lines, batch files, a sample of malformed and wrongly typed definitions (thorough: all).'),
    'C02': ('abstract interpretation of the exporters on definitions with symbolic texts and of the loaders on the exact text they give; comparison of the two abstract definitions',
            'Every attribute value at three depths, every documented completer with every option and form, one text per class of characters and numbers that JSON or YAML treat specially.'),
    'C26': ('abstract interpretation of the whole program with virtual files: the evaluated encoding of every opened file; call sites that no run reaches are judged by their arguments',
            'Every call site that opens a file as text or converts text to bytes.'),
    'C25': ('abstract interpretation of the argparse import on programs covering the constructs of argparse; the abstract definition is compared with the one the parser object prescribes',
            'Every add_argument keyword with its kinds of values, options and positionals, aliases, sub-parsers up to three levels, groups, and pairs of keywords; the program file is virtual and interpreted with a stub of argparse.'),
    'C17': ('abstract interpretation of generators, exporters, imports and whole runs in two opposite worlds (set order, identities, hashes, clock, random numbers, environment, platform) and after other generations; comparison of the derived texts',
            'About 240 definitions times five targets, argparse programs with sets, whole runs for each target; sources met and module level objects changed are reported.'),
    'C28': ('abstract interpretation of the pattern translations for every construct; the result is read as regular expression or zsh pattern and both languages are compared as automata',
            'Every construct alone and combined, every printable character in every way of quoting, malformed and unsupported patterns, validation, and the scripts that hold the patterns.'),
    'C31': ('abstract interpretation of the functions that fold texts into patterns; the pattern is read as a bash pattern and its language compared with the set of texts as automata',
            'About 290 sets of texts (shared beginnings and endings, prefixes of each other, numbers of every shape) for both functions.'),
    'C27': ('abstract interpretation of every message function with symbolic parameters in every language; resolution of every reference to the catalogue; abstract interpretation of validation in every language',
            'Every message times every language, every reference, about 700 malformed definitions per language, the variables that choose the language.'),
    'C24': ('set comparison of completers known to the manual, the documentation and the (abstractly interpreted) validator; abstract interpretation of the manual pages and of the generators',
            'Every documented completer times manual page, colors, example, related completers, three shells; every candidate name of the validator.'),
}
NOT_APPLICABLE = {
    'C29': 'Quantifies over the run-time behaviour of interactive shells at every cursor position; the semantics of '
           'bash, fish and zsh completion systems are outside the source and no sound static argument is in reach.',
    'C30': 'Quantifies over free-form help texts of arbitrary programs; there is no specification of that input language '
           'against which a structural necessary condition could be stated.',
}
