CP = 'crazy_complete/'
prop('C01', 'Copying a definition loses nothing',
 'A copy of a command line definition, and the enhanced copy every generator works on, carries every attribute of every command, option and positional of the original at every nesting depth, each attribute under its own name. Apart from resolving inherited defaults and explicitly disabled features, no attribute value is dropped, swapped or replaced.',
 ['inputs'], 'every definition: every attribute of every command, option and positional, all values',
 'The tests exercise a few attribute combinations through shell sessions; an attribute lost in the copy only shows for the definitions that use it.',
 [CP+'cli.py', CP+'generation.py'], [('CommandLine.copy', CP+'cli.py'), ('enhance_commandline', CP+'generation.py')])
prop('C02', 'YAML and JSON export can be loaded back without loss',
 'Exporting a definition to YAML or to JSON and loading the result again yields a definition in which every attribute of every command, option and positional has the value it had before. An attribute is left out of the exported text only when its value is the default the loader fills in.',
 ['inputs'], 'every definition, every attribute value, both formats',
 'A single conversion test converts one file; attributes and values absent from that file are never round-tripped.',
 [CP+'dictionary_source.py', CP+'yaml_source.py', CP+'json_source.py', CP+'compat.py'],
 [('option_to_dictionary, positional_to_dictionary, commandline_to_dictionary', CP+'dictionary_source.py'),
  ('dictionary_to_commandline', CP+'dictionary_source.py'), ('to_yaml', CP+'yaml_source.py')])
prop('C03', 'Two definitions compare equal only if no attribute differs',
 'Comparing two command lines, options or positionals says they are equal exactly when all of their user-visible attributes are equal: a difference in any single attribute makes them unequal, and two definitions whose attributes all agree are equal.',
 ['inputs'], 'every pair of definitions, every attribute',
 'Equality is used by the export tests as the oracle; an attribute missing from the comparison hides exactly the defects that comparison is meant to show.',
 [CP+'cli.py'], [('__eq__ of CommandLine, Option, Positional, SubCommandsOption', CP+'cli.py')])
prop('C04', 'A definition attribute of the wrong type is always rejected',
 'Whenever an attribute of a command, option or positional, or an argument or option of a completer, has a type the documentation does not allow, validation rejects the definition with an error instead of accepting it, whatever the rest of the definition contains.',
 ['inputs'], 'every attribute and every completer argument, every wrong JSON/YAML type',
 'The error tests list one or two wrong values for some attributes; the product of attributes, completers and types is not covered.',
 [CP+'scheme_validator.py'], [('_check_dictionary rule tables and _check_* functions', CP+'scheme_validator.py')])
prop('C05', 'Malformed definitions are rejected at every nesting depth',
 'Validation rejects unknown attributes, unknown completers, missing required attributes or arguments, superfluous arguments and contradictory attributes, and it does so for every command of the definition however deeply it is nested and wherever the completer is used, including completers nested inside other completers.',
 ['inputs'], 'every definition tree of any depth, every completer in every position',
 'The error tests use single commands; they do not repeat each mistake at each nesting depth and inside each nesting completer.',
 [CP+'scheme_validator.py', CP+'completion_validator.py'],
 [('DefinitionTree.visit, _check_complete, Arguments', CP+'scheme_validator.py')])
prop('C06', 'Bad definitions produce an error message, never an internal crash',
 'Whatever value stands at any place of a definition, validating it ends either normally or with the error type that is reported to the user as a definition error; it never ends with an internal exception such as a key, attribute, index or type error.',
 ['inputs'], 'every definition: every JSON/YAML type at every attribute and completer argument',
 'Tests feed well-formed definitions plus selected mistakes; wrong types at unusual places reach unguarded accesses.',
 [CP+'scheme_validator.py', CP+'type_utils.py', CP+'errors.py'],
 [('error reporting helpers', CP+'scheme_validator.py'), ('validate_type', CP+'type_utils.py')])
prop('C07', 'No completion script is produced from an unvalidated definition',
 'For every shell and every input format, the definition that a script is generated from has passed complete validation first, on every path from the program entry or from the library entry points to the generated text.',
 ['inputs', 'configurations'], 'all entry points, shells, input types and configurations',
 'Tests only run valid definitions through the generators; a generation path that skips validation produces the same text for them.',
 [CP+'generation.py', CP+'bash.py', CP+'fish.py', CP+'zsh.py', CP+'completion_validator.py', CP+'yaml_source.py'],
 [('enhance_commandline', CP+'generation.py'), ('generate_completion', CP+'bash.py, fish.py, zsh.py')])
prop('C08', 'Every completer and completer option takes effect in every shell',
 'Every completer the validator accepts is implemented for bash, fish and zsh, and every argument and option that the validator accepts for it takes effect: changing its value changes the generated script of each shell for which the completer documentation claims support.',
 ['inputs'], 'every completer x argument x shell',
 'Shell tests cover some completers with default options; a silently ignored option gives the same script as its absence.',
 [CP+'bash_complete.py', CP+'fish_complete.py', CP+'zsh_complete.py', CP+'shell.py', CP+'scheme_validator.py'],
 [('BashCompleter, FishCompleter, ZshCompleter', CP+'*_complete.py')])
prop('C09', 'Every definition attribute takes effect in every shell',
 'Every attribute of a command, option or positional (names, aliases, help, metavar, completion, sorting, groups, optional argument, repeatability, finality, hiding, condition, capture variable, argument separator, abbreviation, option inheritance, wrapping) takes effect in the scripts for bash, fish and zsh: setting it changes the generated script of every shell that has a place for it (bash shows neither descriptions nor metavars, fish shows no metavars and has no control of the argument separator, abbreviated options exist in bash only, the description of the program itself is not shown), and a text attribute the shell has a place for occurs in the script.',
 ['inputs'], 'every attribute x shell, at the root and in subcommands',
 'Shell tests use hand-picked combinations; an attribute ignored by one shell in one position (for instance in subcommands) is not noticed.',
 [CP+'bash.py', CP+'fish.py', CP+'zsh.py', CP+'bash_parser.py', CP+'bash_parser_v2.py', CP+'bash_option_completion.py', CP+'zsh_utils.py', CP+'fish_utils.py'],
 [('generate_completion', CP+'bash.py, fish.py, zsh.py')])
prop('C10', 'Conditions are translated completely for every shell',
 'Every condition form accepted in a `when` attribute (kind of test, option names, values or pattern, number, comparison operator, ignore-case and any flags, negation, conjunction and disjunction) is carried into the generated condition of bash, fish and zsh: each component influences the result, each comparison operator keeps its meaning, and no accepted form is left untranslated.',
 ['inputs'], 'every condition form, operator and flag x shell',
 'Tests contain a handful of conditions; flags and operators are not crossed with condition kinds and shells.',
 [CP+'when.py', CP+'bash_when.py', CP+'zsh_when.py', CP+'fish_conditions.py', CP+'shell_parser.py'],
 [('replace_commands/parse_when', CP+'when.py'), ('generate_when_conditions', CP+'bash_when.py, zsh_when.py'), ('replace_commands', CP+'fish_conditions.py')])
prop('C11', 'Definition text never becomes shell code unless it is meant to be',
 'Descriptions, metavars, choices, separators, patterns, prefixes, keys and other plain texts of a definition reach the generated bash, fish and zsh scripts only after quoting or escaping suited to the quoting context they are placed in, so they can neither end a quoted string nor introduce expansions or commands; only completers documented to take shell code are inserted verbatim.',
 ['inputs'], 'every text of a definition, all strings including quotes, dollars, backquotes, backslashes and newlines',
 'Tests use benign texts and a few quotes; injection needs a specific character at a specific place.',
 [CP+'shell.py', CP+'bash_complete.py', CP+'fish_complete.py', CP+'zsh_complete.py', CP+'zsh_utils.py', CP+'fish_utils.py', CP+'bash_utils.py'],
 [('quote and escape functions', CP+'shell.py, zsh_utils.py, fish_utils.py, bash_utils.py')])
prop('C12', 'The quoting and escaping functions are correct for every string',
 'For every input string, the shell quoting function returns text that the shell reads back as exactly that one word, the escaping functions leave no unescaped occurrence of any character they are responsible for and change nothing else, and the identifier function returns only letters, digits and underscores not starting with a digit.',
 ['inputs'], 'all strings',
 'Unit-level tests do not exist for these functions; shell tests see only benign strings.',
 [CP+'shell.py', CP+'zsh_utils.py', CP+'fish_utils.py', CP+'bash_utils.py'],
 [('quote, needs_quote, make_identifier, escape helpers', CP+'shell.py')])
prop('C13', 'Every helper function a script calls is defined in that script',
 'Whatever combination of features a definition uses, each helper function referenced by the generated bash, fish or zsh script is also emitted in it, including the helpers that helpers call themselves, and every feature switch a generator turns on for a helper is one that helper knows.',
 ['inputs', 'configurations'], 'all feature combinations',
 'Tests generate scripts with many features at once, so a missing dependency is usually supplied by an unrelated feature.',
 [CP+'helpers.py', CP+'bash_helpers.py', CP+'fish_helpers.py', CP+'zsh_helpers.py'],
 [('use_function, dependencies', CP+'helpers.py')])
prop('C14', 'Emitted helper code is well-formed shell code in every variant',
 'For every helper function and template and every combination of its feature switches, the emitted code is balanced and syntactically valid for its shell, and conditional sections are properly nested.',
 ['inputs', 'configurations'], 'every helper x every subset of its feature switches',
 'A test session only ever loads the variants its definition selects.',
 [CP+'bash_helpers.py', CP+'fish_helpers.py', CP+'zsh_helpers.py', CP+'preprocessor.py', CP+'bash_parser.py', CP+'bash_parser_v2.py', CP+'zsh_wrapper.py'],
 [('preprocess', CP+'preprocessor.py')])
prop('C15', 'Generated code does not leak names into the user\'s interactive shell',
 'Variables assigned in emitted helper and template code are declared local (or belong to the documented interface of completion functions), and every function that is defined carries the configured function prefix, so that sourcing and using a script leaves no stray names in the interactive shell.',
 ['inputs', 'configurations'], 'every helper, template and feature switch',
 'Tests compare the completion menu on screen; leaked variables are invisible there.',
 [CP+'bash_helpers.py', CP+'fish_helpers.py', CP+'zsh_helpers.py', CP+'bash_parser.py', CP+'bash_parser_v2.py', CP+'helpers.py'],
 [('local declarations; get_real_function_name', CP+'helpers.py')])
prop('C16', 'Generated scripts contain no unresolved template placeholders',
 'On every path through the generators, every placeholder and conditional marker of a code template is replaced before the text is emitted, for all definitions and configurations.',
 ['inputs', 'configurations'], 'all feature combinations and configurations',
 'Leftover markers appear only for combinations the tests do not generate.',
 [CP+'bash_parser.py', CP+'bash_parser_v2.py', CP+'zsh_wrapper.py', CP+'fish.py', CP+'helpers.py', CP+'str_utils.py'],
 [('replace_many and placeholder templates', CP+'*.py')])
prop('C17', 'Generation is deterministic',
 'Generating or exporting the same definition with the same configuration always gives byte-identical output: no part of the output depends on hash-based iteration order, object identities, the clock, random numbers, the locale or environment of the generating process.',
 ['inputs', 'histories'], 'all definitions; all processes and hash seeds',
 'The tests fix the hash seed and compare behaviour, not bytes across processes.',
 [CP+'bash.py', CP+'fish.py', CP+'zsh.py', CP+'helpers.py', CP+'yaml_source.py', CP+'json_source.py'],
 [('ordered containers in generators and helper registry', CP+'helpers.py')])
prop('C18', 'Generating or exporting never modifies the caller\'s definition',
 'Generating a script for any shell, exporting to YAML or JSON, copying or validating leaves the given definition object unchanged, including the lists and dictionaries nested in it, so that generating for several shells in a row, or twice, gives the same results as generating each alone.',
 ['inputs', 'histories'], 'every definition, every sequence of generations',
 'Each test generates once per process from a freshly loaded definition.',
 [CP+'generation.py', CP+'shell.py', CP+'cli.py', CP+'bash_complete.py', CP+'fish_complete.py', CP+'zsh_complete.py'],
 [('copy before enhancement', CP+'generation.py')])
prop('C19', 'Output files are touched only after generation succeeded',
 'A run writes or removes at most the one file designated by its output, install or uninstall option, does so only after the complete output text was produced without error, and writes exactly that text; a run that fails on its input or definition leaves an existing output file as it was, and no other code of the program writes, truncates or deletes files other than its own temporary ones.',
 ['inputs', 'fault_sequences'], 'all inputs, options and failures before output',
 'Tests look at successful runs.',
 [CP+'application.py', CP+'paths.py', CP+'file_loader.py'],
 [('write_string_to_file, generate', CP+'application.py')])
prop('C20', 'Input is executed as code only when Python input is requested',
 'Only with the Python input type chosen explicitly is any part of the input imported, evaluated or executed; YAML is always read with the safe loader, and no subprocess is started through a shell or with a command taken from the definition.',
 ['inputs', 'configurations'], 'all definition files, all option combinations',
 'Tests do not contain hostile definition files.',
 [CP+'application.py', CP+'file_loader.py', CP+'yaml_source.py', CP+'extended_yaml_parser.py', CP+'json_source.py', CP+'str_utils.py'],
 [('load_definition_file', CP+'application.py'), ('yaml.safe_load_all', CP+'yaml_source.py')])
prop('C21', 'Every command line setting takes effect',
 'Every generation setting that can be given on the command line reaches the generator unchanged and affects the result: none is dropped, swapped with another setting or overridden by a default, and the defaults of the command line and of the configuration object agree.',
 ['configurations'], 'every setting, every value, every shell it applies to',
 'Few settings are exercised by tests, mostly one at a time and with one value.',
 [CP+'application.py', CP+'config.py', CP+'generation.py'],
 [('_get_config_from_options', CP+'application.py'), ('Config', CP+'config.py')])
prop('C22', 'Inherited settings are resolved, explicit ones are kept',
 'Before generation every attribute left to be inherited takes the value of the corresponding configuration setting, in every command at every depth; an explicitly given value is never overridden by that setting; each disabled feature switches off exactly its attribute everywhere.',
 ['inputs', 'configurations'], 'every inheritable attribute x explicit or inherited x setting value x depth',
 'Tests use few explicit/inherited combinations and mostly at the root command.',
 [CP+'generation.py', CP+'config.py', CP+'cli.py'], [('_apply_config', CP+'generation.py')])
prop('C23', 'Usage and definition errors map to their documented exit status',
 'The program reports every predictable error raised while reading or validating a definition as a message with exit status 1, command line misuse with status 2, and never ends with status 0 after an error or prints a traceback for a predictable error.',
 ['inputs'], 'all error classes that loading can raise',
 'The error tests run the validator in-process for most cases and do not observe the exit status.',
 ['crazy-complete', CP+'application.py', CP+'errors.py'], [('exception handlers of the entry script', 'crazy-complete')])
prop('C24', 'The manual describes exactly the completers that exist',
 'The built-in manual, the documentation of completion commands and the validator agree on the set of completers, and a completer documented as implemented for a shell is implemented for that shell.',
 ['programs'], 'every completer x shell',
 'No test compares documentation tables with the implementation.',
 [CP+'manual.py', 'docs/commands.yaml', CP+'scheme_validator.py'], [('COMMANDS tables', CP+'manual.py, '+CP+'scheme_validator.py')])
prop('C25', 'Importing an argparse parser keeps what argparse declares',
 'Converting an argparse parser keeps, for every action, its option strings, help, metavar, arity, choices and mutually exclusive group, and for every subparser its name, help and aliases; every extension attribute set on an action or parser reaches the resulting definition.',
 ['inputs'], 'every argparse parser',
 'One conversion test imports one parser.',
 [CP+'argparse_source.py', CP+'argparse_mod.py'], [('ArgumentParser_to_CommandLine', CP+'argparse_source.py')])
prop('C26', 'Text files are read and written as UTF-8 everywhere',
 'Every definition, include and output file is opened as UTF-8 text regardless of the locale of the process.',
 ['configurations'], 'all locales',
 'The tests run in a UTF-8 locale.',
 [CP+'application.py', CP+'output.py', CP+'yaml_source.py', CP+'json_source.py', CP+'help_converter.py', CP+'file_loader.py'],
 [('open(..., encoding)', CP+'*.py')])
prop('C27', 'Translated messages are complete and consistent',
 'Every user message exists in every supported language with the same parameters, each parameter given to a message appears in its text in each language, and every message function called by the program exists.',
 ['configurations'], 'every message x language',
 'Tests run in one language.',
 [CP+'messages.py'], [('message functions', CP+'messages.py')])
prop('C28', 'Glob patterns are translated construct by construct',
 'Every construct the glob pattern parser can produce is handled by the translation to regular expressions and to zsh patterns, literal characters that are special in the target are escaped, and unsupported constructs are rejected rather than dropped.',
 ['inputs'], 'all glob patterns',
 'Tests use a few patterns.',
 [CP+'pattern.py'], [('bash_glob_to_regex, bash_glob_to_zsh_glob', CP+'pattern.py')])
prop('C29', 'Completions offered inside a real shell match the definition',
 'In every interactive session and at every cursor position, the candidates offered by bash, fish and zsh are exactly those the definition prescribes.',
 ['inputs', 'histories'], 'all command lines typed by a user',
 'Tests sample a few hundred command lines.',
 [CP+'bash.py', CP+'fish.py', CP+'zsh.py'], [('generated scripts', CP+'bash.py, fish.py, zsh.py')])
prop('C30', 'Help output conversion recovers every option of a help text',
 'Converting the help output of a program yields a definition with every option listed there, with its strings, metavar and description.',
 ['inputs'], 'all help texts', 'Help texts are free-form; tests sample a few.',
 [CP+'help_parser.py', CP+'help_converter.py'], [('parse', CP+'help_parser.py')])
