From 211a9b6064e30800aa7bb6baa836f1edcfd3e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 01/44] fix: compare long_opt_arg_sep in Option.__eq__

---
 crazy_complete/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/cli.py b/crazy_complete/cli.py
index 63ea6fd..dc01b95 100644
--- a/crazy_complete/cli.py
+++ b/crazy_complete/cli.py
@@ -838,7 +838,8 @@ class Option:
             self.nosort         == other.nosort         and
             self.groups         == other.groups         and
             self.when           == other.when           and
-            self.capture        == other.capture
+            self.capture        == other.capture        and
+            self.long_opt_arg_sep == other.long_opt_arg_sep
         )
 
     def __repr__(self):
-- 
2.43.0


From 57afd75026b4f5d4d03b655df9ffa472bc1ef21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 02/44] fix: validate definitions of nested subcommands at
 every depth

---
 crazy_complete/scheme_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 6f55119..ca9a346 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -976,7 +976,7 @@ class DefinitionTree:
         '''Call `callback` on each node in the tree.'''
         callback(self)
         for subcommand in self.subcommands.values():
-            callback(subcommand)
+            subcommand.visit(callback)
 
     def get_all(self):
         '''Return a list of all nodes.'''
-- 
2.43.0


From 0b9763bb4d03314845ae0ebd947a4e2753013ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 03/44] fix: pass long_opt_arg_sep to the validation of
 definition objects

---
 crazy_complete/completion_validator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crazy_complete/completion_validator.py b/crazy_complete/completion_validator.py
index 87c9059..10bac60 100644
--- a/crazy_complete/completion_validator.py
+++ b/crazy_complete/completion_validator.py
@@ -48,6 +48,7 @@ def _option_to_definition(option):
         'hidden':         option.hidden,
         'when':           option.when,
         'capture':        option.capture,
+        'long_opt_arg_sep': option.long_opt_arg_sep,
     }
 
 
-- 
2.43.0


From c70a7694ea311faf3a483d5d3a3440b90b147cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 04/44] fix: do not modify the definition's completer options
 in file_list and directory_list

---
 crazy_complete/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index 0bd6990..9ac5c2d 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -145,6 +145,8 @@ class ShellCompleter:
     # =========================================================================
 
     def file_list(self, ctxt, trace, opts=None):
+        opts = dict(opts) if opts else opts
+
         list_opts = {
             'separator': opts.pop('separator', ',') if opts else ',',
             'duplicates': opts.pop('duplicates', False) if opts else False
@@ -153,6 +155,8 @@ class ShellCompleter:
         return self.list(ctxt, trace, ['file', opts], list_opts)
 
     def directory_list(self, ctxt, trace, opts=None):
+        opts = dict(opts) if opts else opts
+
         list_opts = {
             'separator': opts.pop('separator', ',') if opts else ',',
             'duplicates': opts.pop('duplicates', False) if opts else False
-- 
2.43.0


From 394dc26f3efbb93c94b9a4f32a5da7b16c45d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 05/44] fix: implement the service completer for zsh

---
 crazy_complete/zsh_complete.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index a751d5c..6911205 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -555,6 +555,9 @@ class ZshCompleter(shell.ShellCompleter):
     def filesystem_type(self, ctxt, _trace):
         return ZshComplFunc(ctxt, ['_file_systems'])
 
+    def service(self, ctxt, _trace):
+        return ZshComplFunc(ctxt, ['_services'])
+
     def signal(self, ctxt, _trace):
         return ZshComplFunc(ctxt, ['_signals'])
 
-- 
2.43.0


From c9212e0cd70d9fb94d44af2c1a7e308139c0b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 06/44] fix: check nested completers in the context of their
 own parents

---
 crazy_complete/scheme_validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index ca9a346..b7cb8fa 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -682,12 +682,17 @@ def _check_complete(ctxt, args):
         msg = '%s: %s' % (m.unknown_completer(), cmd.value)
         raise _error(msg, cmd)
 
+    # Nested completers are checked in the context of their own parents only
+    trace = list(ctxt.trace)
+
     try:
         _COMMANDS[cmd.value](ctxt, arguments)
     except _error as e:
         msg = '%s: %s' % (cmd.value, e.message)
         raise _error(msg, e.value_with_trace) from e
 
+    ctxt.trace = trace
+
 
 def _check_positionals_repeatable0(definition_tree, definition):
     if not _has_set(definition, 'positionals'):
-- 
2.43.0


From 512441839dc1a274d8004e938ebcaf51873b6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 07/44] fix: reject conditions that end with an operator

---
 crazy_complete/shell_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index f09e2d5..da1bb17 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -154,6 +154,9 @@ def check_syntax(tokens):
     if last is None:
         raise ValueError("No command found")
 
+    if last in ('&&', '||', '!'):
+        raise ValueError(f"Command expected after `{last}`")
+
 
 def parse(string):
     '''Parse a string and turn it into And/Or/Not/Command objects.'''
-- 
2.43.0


From 13a1e1b2bc7712986939ed6c451200dae0cf86c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 08/44] fix: reject conditions with a command after a closing
 parenthesis

---
 crazy_complete/shell_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index da1bb17..36cc7f3 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -146,6 +146,9 @@ def check_syntax(tokens):
             if last not in (None, '(', '&&', '||', '!'):
                 raise ValueError("Unexpected `!`")
 
+        elif last == ')':
+            raise ValueError("Unexpected command after `)`")
+
         last = token
 
     if parentheses > 0:
-- 
2.43.0


From f25d8a63bcdbe90f1a2e1bce297e15ced353b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 09/44] fix: report wrong types of prog, option_strings and
 positionals instead of crashing

---
 crazy_complete/scheme_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index b7cb8fa..73ed676 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -811,7 +811,7 @@ def _check_option(ctxt, option):
         try:
             option_strings = option.value['option_strings'].value
             option_strings = '|'.join([o.value for o in option_strings])
-        except (KeyError, TypeError):
+        except (KeyError, TypeError, AttributeError):
             raise e from None
 
         msg = '%s: %s' % (option_strings, e.message)
@@ -862,7 +862,7 @@ def _check_positional(ctxt, positional):
             metavar_ = positional.value['metavar'].value
             assert isinstance(metavar_, str)
             metavar = metavar_
-        except (AssertionError, KeyError):
+        except (AssertionError, KeyError, TypeError):
             pass
 
         msg = '%s: %s' % (metavar, e.message)
@@ -941,6 +941,8 @@ class DefinitionTree:
         if not _has_set(definition, 'prog'):
             raise _error('%s: %s' % (m.missing_arg(), 'prog'), definition)
 
+        _check_type(definition.value['prog'], (str,), 'prog')
+
         try:
             validate_prog(definition.value['prog'].value)
         except CrazyError as e:
-- 
2.43.0


From 6f9fbb08150070f886be0818c7ccc58760edcf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 10/44] fix: report definitions, options and positionals that
 are no dictionaries

---
 crazy_complete/dictionary_source.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/dictionary_source.py b/crazy_complete/dictionary_source.py
index 3006bdd..7a1f239 100644
--- a/crazy_complete/dictionary_source.py
+++ b/crazy_complete/dictionary_source.py
@@ -11,10 +11,14 @@ from collections import OrderedDict
 from .errors import CrazyError, CrazyTypeError
 from .cli import CommandLine, INHERIT
 from .str_utils import validate_prog
+from .type_utils import is_list_type
 from . import compat
 
 
 def _validate_keys(dictionary, allowed_keys):
+    if not isinstance(dictionary, dict):
+        raise CrazyTypeError('definition', 'dict', dictionary)
+
     for key in dictionary.keys():
         if key not in allowed_keys:
             raise CrazyError(f'Unknown key: {key}')
@@ -87,7 +91,7 @@ def dictionary_to_commandline(dictionary, prog=None):
 
 
 def _check_prog_in_dictionary(dictionary):
-    if 'prog' not in dictionary:
+    if not isinstance(dictionary, dict) or 'prog' not in dictionary:
         raise CrazyError('Missing `prog` field')
 
     if not isinstance(dictionary['prog'], str):
@@ -162,6 +166,9 @@ def replace_defines_in_documents(documents):
 def dictionaries_to_commandline(dictionaries):
     '''Convert a list of dictionaries to a cli.CommandLine object.'''
 
+    if not is_list_type(dictionaries):
+        raise CrazyTypeError('definitions', 'list', dictionaries)
+
     dictionaries = replace_defines_in_documents(dictionaries)
     compat.fix_commandline_dictionaries(dictionaries)
 
-- 
2.43.0


From a64643ccacc2e6f75cc19429eeb9e2ea98d55caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 11/44] fix: report a parent of the wrong type instead of
 raising KeyError

---
 crazy_complete/type_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/type_utils.py b/crazy_complete/type_utils.py
index 2d754fe..37e8804 100644
--- a/crazy_complete/type_utils.py
+++ b/crazy_complete/type_utils.py
@@ -34,7 +34,7 @@ def validate_type(value, types, parameter_name):
                 tuple:    'tuple',
                 dict:     'dict',
                 bool:     'bool',
-                NoneType: 'None'}[t])
+                NoneType: 'None'}.get(t, t.__name__))
         types_string = '|'.join(types_strings)
 
         raise CrazyTypeError(parameter_name, types_string, value)
-- 
2.43.0


From 2f4974e96ba47545d913a96927e6720c79c359f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:29 +0000
Subject: [PATCH 12/44] fix: validate definitions before applying settings to
 them

---
 crazy_complete/generation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/generation.py b/crazy_complete/generation.py
index 7adeca7..c38c218 100644
--- a/crazy_complete/generation.py
+++ b/crazy_complete/generation.py
@@ -90,10 +90,12 @@ def _apply_config(commandline, config):
 
         if config.disabled_when:
             option.when = None
+            option.when_parsed = None
 
     for positional in commandline.positionals:
         if config.disabled_when:
             positional.when = None
+            positional.when_parsed = None
 
 
 def _add_parsed_when(commandline):
@@ -127,14 +129,17 @@ def enhance_commandline(commandline, config):
     '''Enhance commandline.
 
     - Make a copy of commandline
-    - Apply configuration to it
     - Add `when_parsed` attribute
+    - Validate it
+    - Apply configuration to it
     '''
 
     commandline = commandline.copy()
-    commandline.visit_commandlines(lambda c: _apply_config(c, config))
     commandline.visit_commandlines(_add_parsed_when)
+    # Settings may result in combinations that are invalid in a definition,
+    # e.g. `repeatable` for an option that is hidden.
     completion_validator.validate_commandlines(commandline)
+    commandline.visit_commandlines(lambda c: _apply_config(c, config))
     return commandline
 
 
-- 
2.43.0


From 16c694ebe32cf9a8ef07fc3e0a1d72f27a8f20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 13/44] fix: report every YAML error, unreadable and
 undecodable files as an error message

---
 crazy-complete | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crazy-complete b/crazy-complete
index d830658..5de58b4 100755
--- a/crazy-complete
+++ b/crazy-complete
@@ -41,10 +41,9 @@ if __name__ == '__main__':
     try:
         app.run()
     except (application.CrazyError,
-            FileNotFoundError,
-            yaml.scanner.ScannerError,
-            yaml.parser.ParserError,
-            yaml.constructor.ConstructorError,
+            OSError,
+            UnicodeDecodeError,
+            yaml.YAMLError,
             json.decoder.JSONDecodeError) as e:
         print_err('Error:', e)
         if app.options.debug:
-- 
2.43.0


From 32e26611a57ef2dcd0ce8d19d26d792fa285f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:43 +0000
Subject: [PATCH 14/44] fix: report YAML values that do not fit their tag as an
 error message

---
 crazy_complete/yaml_source.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/yaml_source.py b/crazy_complete/yaml_source.py
index 458bb32..b718c7c 100644
--- a/crazy_complete/yaml_source.py
+++ b/crazy_complete/yaml_source.py
@@ -11,6 +11,7 @@ import yaml
 
 from . import dictionary_source
 from . import scheme_validator
+from .errors import CrazyError
 from .str_utils import indent
 from .extended_yaml_parser import ExtendedYAMLParser
 from .cli import INHERIT
@@ -190,7 +191,13 @@ def load_from_file(file):
     # First, load using normal yaml loader. It gives better error messages
     # in case of syntax errors.
     with open(file, 'r', encoding='utf-8') as fh:
-        dictionaries = list(yaml.safe_load_all(fh))
+        try:
+            dictionaries = list(yaml.safe_load_all(fh))
+        except UnicodeDecodeError:
+            raise
+        except (ValueError, TypeError, KeyError, AttributeError) as e:
+            # PyYAML leaks these for values which don't fit their tag
+            raise CrazyError(f'{file}: Invalid YAML value: {e}') from e
 
     # Then load using extended yaml loader...
     with open(file, 'r', encoding='utf-8') as fh:
-- 
2.43.0


From 3ef68600fb76cc766e181c04181df4c561b4dd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:43 +0000
Subject: [PATCH 15/44] fix: don't truncate the output file if the output is
 not encodable

---
 crazy_complete/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crazy_complete/application.py b/crazy_complete/application.py
index e03c6a6..992d9bd 100644
--- a/crazy_complete/application.py
+++ b/crazy_complete/application.py
@@ -198,6 +198,12 @@ del p
 def write_string_to_file(string, file):
     '''Writes string to file if file is given.'''
 
+    # Check this before opening the file, as opening truncates it.
+    try:
+        string.encode('utf-8')
+    except UnicodeEncodeError as e:
+        raise CrazyError(f'Output is not encodable as UTF-8: {e}') from e
+
     if file is not None:
         with open(file, 'w', encoding='utf-8') as fh:
             fh.write(string)
-- 
2.43.0


From df12d9351acef98eb8a33766dd15fcf2f0df0017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 16/44] fix: report errors of --batch runs as error messages

---
 crazy-complete                | 6 ++----
 crazy_complete/application.py | 7 ++++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crazy-complete b/crazy-complete
index 5de58b4..fc3f664 100755
--- a/crazy-complete
+++ b/crazy-complete
@@ -34,19 +34,17 @@ if __name__ == '__main__':
 
     try:
         app.parse_args(sys.argv[1:])
+        app.run()
     except argparse.ArgumentError as e:
         print_err('Command line error:', e)
         sys.exit(2)
-
-    try:
-        app.run()
     except (application.CrazyError,
             OSError,
             UnicodeDecodeError,
             yaml.YAMLError,
             json.decoder.JSONDecodeError) as e:
         print_err('Error:', e)
-        if app.options.debug:
+        if app.options and app.options.debug:
             traceback.print_exc()
         else:
             print_err('Pass --debug to see full stack trace')
diff --git a/crazy_complete/application.py b/crazy_complete/application.py
index 992d9bd..c8253f1 100644
--- a/crazy_complete/application.py
+++ b/crazy_complete/application.py
@@ -322,8 +322,13 @@ def try_batch(args):
 
         utils.print_err('Running:', sys.argv[0], line)
 
+        try:
+            args = shlex.split(line)
+        except ValueError as e:
+            raise CrazyError(f'{opts.batch}: {e}: {line}') from e
+
         app = Application()
-        app.parse_args(shlex.split(line))
+        app.parse_args(args)
         app.run()
 
     sys.exit(0)
-- 
2.43.0


From 11b678407b5ba8371673aa8fc1470942ca3ba00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 17/44] fix: report Python files that cannot be executed or
 imported as an error message

---
 crazy_complete/argparse_source.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index c980be0..47a3a89 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -235,13 +235,21 @@ def load_from_file(file, parser_variable=None, parser_blacklist=()):
     except Exception as e:
         utils.warn(e)
         utils.warn(f"Failed to load `{file}` using importlib, falling back to exec")
-        module = file_loader.execute_file(file)
+        try:
+            module = file_loader.execute_file(file)
+        except OSError:
+            raise
+        except Exception as e:
+            raise CrazyError(f"Failed to execute `{file}`: {e!r}") from e
 
     if parser_variable is not None:
         try:
             parser = getattr(module, parser_variable)
         except AttributeError:
             raise CrazyError(f"No variable named `{parser_variable}` found in `{file}`") from None
+
+        if not isinstance(parser, argparse.ArgumentParser):
+            raise CrazyError(f"Variable `{parser_variable}` in `{file}` is not an ArgumentParser object")
     else:
         parsers = find_root_argument_parsers(module)
         for blacklisted in parser_blacklist:
-- 
2.43.0


From 36eda574b0d3d6e1d59d7503c53e04145415d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:19 +0000
Subject: [PATCH 18/44] fix: reject patterns that contain null bytes instead of
 raising ValueError

---
 crazy_complete/str_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/str_utils.py b/crazy_complete/str_utils.py
index 39bf4dc..486b79d 100644
--- a/crazy_complete/str_utils.py
+++ b/crazy_complete/str_utils.py
@@ -40,6 +40,9 @@ def is_valid_extended_regex(string):
         return r.returncode != 2
     except (FileNotFoundError, PermissionError, subprocess.TimeoutExpired):
         return True
+    except ValueError:
+        # Cannot be passed to a program (null bytes, unencodable characters)
+        return False
 
 
 def validate_prog(string):
-- 
2.43.0


From a25a235cc76bbaf33390caf05919f32986627e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:28 +0000
Subject: [PATCH 19/44] fix: YAML export: write special characters, surrogate
 pairs and floats the way YAML reads them

---
 crazy_complete/yaml_source.py | 43 +++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/yaml_source.py b/crazy_complete/yaml_source.py
index b718c7c..50d024c 100644
--- a/crazy_complete/yaml_source.py
+++ b/crazy_complete/yaml_source.py
@@ -6,6 +6,7 @@ This module provides functions for creating CommandLine objects from YAML
 and vice versa.
 """
 
+import re
 import json
 import yaml
 
@@ -20,6 +21,28 @@ from .cli import INHERIT
 # pylint: disable=redefined-builtin
 
 
+def value_to_yaml(value):
+    '''Convert a value to YAML (flow style).'''
+
+    if isinstance(value, dict):
+        return '{%s}' % ', '.join(
+            f'{value_to_yaml(k)}: {value_to_yaml(v)}' for k, v in value.items())
+
+    if isinstance(value, (list, tuple)):
+        return '[%s]' % ', '.join(value_to_yaml(v) for v in value)
+
+    if isinstance(value, float):
+        # YAML needs a dot in floats
+        return yaml.safe_dump(value).split('\n', maxsplit=1)[0]
+
+    # Unlike JSON, YAML doesn't know surrogate pairs and doesn't allow
+    # special characters to be unescaped.
+    return re.sub(
+        r'[^\x20-\x7e]',
+        lambda m: ('\\u%04x' if ord(m[0]) <= 0xFFFF else '\\U%08x') % ord(m[0]),
+        json.dumps(value, ensure_ascii=False))
+
+
 def option_to_yaml(dictionary):
     '''Convert an option dictionary to YAML.'''
 
@@ -41,13 +64,13 @@ def option_to_yaml(dictionary):
         ('long_opt_arg_sep', INHERIT,   lambda v: v != INHERIT),
     ]
 
-    r = [f'- option_strings: {json.dumps(option_strings)}']
+    r = [f'- option_strings: {value_to_yaml(option_strings)}']
 
     for name, default, include_if in fields:
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {value_to_yaml(value)}')
 
     return '\n'.join(r)
 
@@ -74,7 +97,7 @@ def positional_to_yaml(dictionary):
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {value_to_yaml(value)}')
 
     return '\n'.join(r)
 
@@ -92,25 +115,25 @@ def to_yaml(dictionary):
     options             = dictionary.get('options',             None)
     positionals         = dictionary.get('positionals',         None)
 
-    r = 'prog: %s\n' % json.dumps(prog)
+    r = 'prog: %s\n' % value_to_yaml(prog)
 
     if aliases is not None:
-        r += 'aliases: %s\n' % json.dumps(aliases)
+        r += 'aliases: %s\n' % value_to_yaml(aliases)
 
     if help is not None:
-        r += 'help: %s\n' % json.dumps(help)
+        r += 'help: %s\n' % value_to_yaml(help)
 
     if wraps is not None:
-        r += 'wraps: %s\n' % json.dumps(wraps)
+        r += 'wraps: %s\n' % value_to_yaml(wraps)
 
     if abbreviate_commands != INHERIT:
-        r += 'abbreviate_commands: %s\n' % json.dumps(abbreviate_commands)
+        r += 'abbreviate_commands: %s\n' % value_to_yaml(abbreviate_commands)
 
     if abbreviate_options != INHERIT:
-        r += 'abbreviate_options: %s\n' % json.dumps(abbreviate_options)
+        r += 'abbreviate_options: %s\n' % value_to_yaml(abbreviate_options)
 
     if inherit_options != INHERIT:
-        r += 'inherit_options: %s\n' % json.dumps(inherit_options)
+        r += 'inherit_options: %s\n' % value_to_yaml(inherit_options)
 
     if options:
         r += 'options:\n'
-- 
2.43.0


From 3d79c7a67a8220983d2db59cc9f75f3c95e16e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:28 +0000
Subject: [PATCH 20/44] fix: validate the values yaml.safe_load() gives, so
 that dates and binaries are rejected instead of crashing

---
 crazy_complete/extended_yaml_parser.py | 37 +++++++++-----------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/crazy_complete/extended_yaml_parser.py b/crazy_complete/extended_yaml_parser.py
index cd1f2ec..23f323d 100644
--- a/crazy_complete/extended_yaml_parser.py
+++ b/crazy_complete/extended_yaml_parser.py
@@ -75,7 +75,7 @@ class ExtendedYAMLParser:
             self.current_stack.append(new_seq)
             self.current_key = None
         elif isinstance(event, ScalarEvent):
-            value = self.convert_scalar(event.value, event.implicit)
+            value = self.convert_scalar(event)
             value = ValueWithTrace.from_yaml_event(value, self.src, event)
 
             if self.current_stack and isinstance(self.current_stack[-1].value, list):
@@ -111,30 +111,17 @@ class ExtendedYAMLParser:
         else:
             raise _error("Invalid structure in YAML", value)
 
-    def convert_scalar(self, value, implicit):
+    def convert_scalar(self, event):
         """
-        Converts a scalar based on its type hints (implicit tuple).
+        Converts a scalar to the value that yaml.safe_load() gives it.
         """
-        if implicit[0]:
-            lower = value.lower()
-
-            if lower in ("null", "~", ""):
-                return None
-
-            if lower in ("true", "on", "yes"):
-                return True
-
-            if lower in ("false", "off", "no"):
-                return False
-
-            try:
-                return int(value)
-            except ValueError:
-                pass
-
-            try:
-                return float(value)
-            except ValueError:
-                pass
+        loader = yaml.SafeLoader('')
+        try:
+            tag = event.tag
+            if tag is None or tag == '!':
+                tag = loader.resolve(yaml.ScalarNode, event.value, event.implicit)
 
-        return value
+            return loader.construct_object(yaml.ScalarNode(
+                tag, event.value, event.start_mark, event.end_mark))
+        finally:
+            loader.dispose()
-- 
2.43.0


From 0f3d48db0f20735f3ec743875de3cfe76e230fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:40 +0000
Subject: [PATCH 21/44] fix: bash: always define the completion function that
 gets registered

---
 crazy_complete/bash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 90f8f39..b3c2471 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -118,7 +118,8 @@ class BashCompletionGenerator:
         # The completion function returns 0 (success) if there was a completion match.
         # This return code is used for dealing with subcommands.
 
-        if not utils.is_worth_a_function(self.commandline):
+        # The function of the root parser is always needed, since it's registered.
+        if self.commandline.parent and not utils.is_worth_a_function(self.commandline):
             self.result = ''
             return
 
-- 
2.43.0


From 385d820c0f24c01774681289fae00bdcb1350676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:07 +0000
Subject: [PATCH 22/44] fix: give the completion functions of different
 commands different names

---
 crazy_complete/helpers.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index 71d3d19..040591a 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -101,6 +101,9 @@ class GeneralHelpers:
         # Dynamic functions
         self.dynamic_functions_code_to_funcname = {}
 
+        # Completion functions of commands
+        self.completion_funcnames = {}  # prognames:identifier
+
         # Builtin functins
         self.functions = {}
         self.used_functions = {}  # funcname:set(defines)
@@ -245,6 +248,15 @@ class GeneralHelpers:
         commandlines = commandline.get_parents(include_self=True)
         prognames = [cmdline.prog for cmdline in commandlines]
         prognames[0] = self.function_prefix
-        identifier = shell.make_identifier('_'.join(prognames))
-
-        return f'{identifier}{suffix}'
+        prognames = tuple(prognames)
+
+        if prognames not in self.completion_funcnames:
+            identifier = shell.make_identifier('_'.join(prognames))
+            unique = identifier
+            num = 0
+            while unique in self.completion_funcnames.values():
+                unique = f'{identifier}{num}'
+                num += 1
+            self.completion_funcnames[prognames] = unique
+
+        return f'{self.completion_funcnames[prognames]}{suffix}'
-- 
2.43.0


From 4eeb074d93d800abd01fc0faae0e75b4b4740cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:15 +0000
Subject: [PATCH 23/44] fix: bash: make completers reachable if all options
 that take an argument take an optional one

---
 crazy_complete/bash_option_completion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 074377d..a0b901c 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -129,7 +129,9 @@ class MasterCompletionFunctionNoWhen(MasterCompletionFunctionBase):
 
         if optional_arg:
             self.optionals = True
-            r =  '(( ! ret )) && return 0\n'
+            r = ''
+            if required_arg:
+                r += '(( ! ret )) && return 0\n'
             r += '[[ "$mode" == WITH_OPTIONAL ]] || return 1\n'
             r += 'ret=0'
             self.code.append(r)
-- 
2.43.0


From 53dd382f7fcf2828e4f07c840248c6ed6d0a3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:39 +0000
Subject: [PATCH 24/44] fix: bash: declare the loop variables of helper
 functions local

---
 crazy_complete/bash_helpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index eda5ecf..c8cad63 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -156,7 +156,7 @@ echo ${#s1}
 ''')
 
 _COMMANDLINE_STRING = ShellFunction('commandline_string', r'''
-local l line break_pos in_quotes
+local i l line break_pos in_quotes
 dequote "$cur" line break_pos in_quotes
 
 local COMP_LINE_OLD="$COMP_LINE"
@@ -339,7 +339,7 @@ if [[ -z "$cur" ]]; then
   return
 fi
 
-local pair key value found_key cur_stripped="$cur"
+local pair key value found_key having_key cur_stripped="$cur"
 local -a tmp having_pairs having_keys remaining_keys
 
 IFS="$sep1" read -r -a having_pairs <<< "$cur"
@@ -450,7 +450,7 @@ local strip_chars=''
 local cur="$cur" break_pos in_quotes
 dequote "$cur" cur break_pos in_quotes
 
-local key="${cur%%"$sep"*}" value="${cur#*"$sep"}" cur_stripped="$cur"
+local i key="${cur%%"$sep"*}" value="${cur#*"$sep"}" cur_stripped="$cur"
 
 COMPREPLY=()
 
@@ -513,7 +513,7 @@ if [[ -z "$cur" ]]; then
   return
 fi
 
-local pair key value found_key cur_stripped="$cur"
+local i pair key value found_key having_key cur_stripped="$cur"
 local -a tmp having_pairs having_keys remaining_keys
 
 IFS="$sep1" read -r -a having_pairs <<< "$cur"
@@ -625,7 +625,7 @@ echo $pos
 ''')
 
 _PREFIX = ShellFunction('prefix', r'''
-local prefix="$1" func="$2"
+local i prefix="$1" func="$2"
 local stripped="$(strip_prefix_keep_quoting "$prefix" "$cur")"
 
 if [[ "$stripped" == "$cur" ]]; then
@@ -647,7 +647,7 @@ fi
 ''', ['get_last_break_position', 'strip_prefix_keep_quoting'])
 
 _STRIP_PREFIX_KEEP_QUOTING = ShellFunction('strip_prefix_keep_quoting', r'''
-local p="$1" pi=0 plen=${#1}
+local p="$1" pi=0 plen=${#1} pc sc
 local s="$2" si=0 slen=${#2} state=w
 
 for (( pi=0; pi < plen; ++pi )); do
-- 
2.43.0


From 1d47a12706f9f1d9f900f130142a97369de443f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:39 +0000
Subject: [PATCH 25/44] fix: fish: do not create a global variable when
 completing directories

---
 crazy_complete/fish_helpers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 4e75249..32ee16a 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -554,8 +554,6 @@ end
 
 if set -q _flag_description[1]
   set desc $_flag_description
-else if set -g _flag_directories
-  set desc 'Directory'
 end
 
 if set -q files[1]
-- 
2.43.0


From e9c10dfebd26f2f309a84978b63c56a7bb0b494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:39 +0000
Subject: [PATCH 26/44] fix: zsh: split captured option values on newlines
 without changing the global IFS

---
 crazy_complete/zsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index b8b0dff..7aa74ea 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -130,7 +130,7 @@ class ZshCompletionFunction:
         for option in self.commandline.options:
             if option.capture:
                 local_vars.append(option.capture)
-                set_cmds.append('IFS=$"\\n" %s=($(%s get_option %s))' % (
+                set_cmds.append('%s=(${(f)"$(%s get_option %s)"})' % (
                     option.capture,
                     self.query.use('get_option'),
                     shell.join_quoted(option.option_strings)))
-- 
2.43.0


From e5f2d16cf7067e8f48c311b9be742d3ffb809fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:52 +0000
Subject: [PATCH 27/44] fix: bash: define nested functions with the function
 prefix

---
 crazy_complete/bash_option_completion.py |  4 ++-
 crazy_complete/bash_parser_v2.py         | 36 ++++++++++++------------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index a0b901c..dbe9d22 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -336,13 +336,15 @@ def generate_option_completion(self):
     abbreviations = utils.get_option_abbreviator(self.commandline)
 
     complete_function = _get_master_completion_obj(options, abbreviations, self)
-    complete_function_code = complete_function.get('__complete_option')
+    funcname = self.ctxt.helpers.get_real_function_name('complete_option')
+    complete_function_code = complete_function.get(funcname)
 
     if not complete_function_code:
         return None
 
     info = _Info(options, abbreviations, self.commandline, self.ctxt)
     dispatcher_code = _get_dispatcher(info)
+    dispatcher_code = dispatcher_code.replace('__complete_option', funcname)
 
     if not complete_function.optionals:
         dispatcher_code = dispatcher_code.replace('WITH_OPTIONAL ', '')
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 418e0af..93ce53d 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -24,7 +24,7 @@ local cmd="root" argi arg i char trailing_chars VAR ARGS
 
 %FIND_OPTION_CODE%
 
-__append_to_array() {
+%PREFIX%__append_to_array() {
   local -n arr=$1
   arr+=("$2")
 }
@@ -41,14 +41,14 @@ for ((argi=1; argi < cword; ++argi)); do
       return;;
 #ifdef long_options
     --*=*)
-      if __find_option "$cmd" "${arg%%=*}"
-      then __append_to_array "$VAR" "${arg#*=}"
+      if %PREFIX%__find_option "$cmd" "${arg%%=*}"
+      then %PREFIX%__append_to_array "$VAR" "${arg#*=}"
       fi;;
     --*)
-      if __find_option "$cmd" "$arg"; then
+      if %PREFIX%__find_option "$cmd" "$arg"; then
         if [[ "$ARGS" == 1 ]]
-        then __append_to_array "$VAR" "${words_dequoted[++argi]}"
-        else __append_to_array "$VAR" "_OPT_ISSET_"
+        then %PREFIX%__append_to_array "$VAR" "${words_dequoted[++argi]}"
+        else %PREFIX%__append_to_array "$VAR" "_OPT_ISSET_"
         fi
       fi;;
 #else
@@ -57,16 +57,16 @@ for ((argi=1; argi < cword; ++argi)); do
     -?*) # ignore '-'
 #ifdef old_options
       if [[ "$arg" == -*=* ]]; then
-        if __find_option "$cmd" "${arg%%=*}"; then
-          __append_to_array "$VAR" "${arg#*=}"
+        if %PREFIX%__find_option "$cmd" "${arg%%=*}"; then
+          %PREFIX%__append_to_array "$VAR" "${arg#*=}"
           continue
         fi
       fi
 
-      if __find_option "$cmd" "$arg"; then
+      if %PREFIX%__find_option "$cmd" "$arg"; then
         if [[ "$ARGS" == 1 ]]
-        then __append_to_array "$VAR" "${words_dequoted[++argi]}"
-        else __append_to_array "$VAR" "_OPT_ISSET_"
+        then %PREFIX%__append_to_array "$VAR" "${words_dequoted[++argi]}"
+        else %PREFIX%__append_to_array "$VAR" "_OPT_ISSET_"
         fi
 
         continue
@@ -78,23 +78,23 @@ for ((argi=1; argi < cword; ++argi)); do
         char="${arg:$i:1}"
         trailing_chars="${arg:$((i + 1))}"
 
-        if __find_option "$cmd" "-$char"; then
+        if %PREFIX%__find_option "$cmd" "-$char"; then
           if [[ "$ARGS" == 1 ]]; then
             if [[ -n "$trailing_chars" ]]
-            then __append_to_array "$VAR" "$trailing_chars"
-            else __append_to_array "$VAR" "${words_dequoted[++argi]}"
+            then %PREFIX%__append_to_array "$VAR" "$trailing_chars"
+            else %PREFIX%__append_to_array "$VAR" "${words_dequoted[++argi]}"
             fi
             break;
 #ifdef short_optionals
           elif [[ "$ARGS" == '?' ]]; then
             if [[ -n "$trailing_chars" ]]
-            then __append_to_array "$VAR" "$trailing_chars"
-            else __append_to_array "$VAR" _OPT_ISSET_
+            then %PREFIX%__append_to_array "$VAR" "$trailing_chars"
+            else %PREFIX%__append_to_array "$VAR" _OPT_ISSET_
             fi
             break;
 #endif
           else
-            __append_to_array "$VAR" "_OPT_ISSET_"
+            %PREFIX%__append_to_array "$VAR" "_OPT_ISSET_"
           fi
         fi
       done
@@ -131,7 +131,7 @@ def _make_find_option_code(commandline, variable_manager):
         for cmdline in cmdlines:
             code += [_make_cmd_plus_option_switch_code(cmdline, variable_manager)]
 
-    r = '__find_option() {\n'
+    r = '%PREFIX%__find_option() {\n'
     r += '%s\n' % indent('\n'.join(filter(None, code)), 2)
     r += '  return 1\n'
     r += '}'
-- 
2.43.0


From 0f0c8ca9b026e57f8f74d5cb52eb553324876153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:20 +0000
Subject: [PATCH 28/44] fix: argparse: import aliases of subparsers as aliases

---
 crazy_complete/argparse_source.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index 47a3a89..59f0698 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -86,7 +86,7 @@ def get_final(action):
     return action.get_final()
 
 
-def argumentparser_to_commandline(parser, prog=None, description=None):
+def argumentparser_to_commandline(parser, prog=None, description=None, aliases=None):
     '''Converts an ArgumentParser object to a CommandLine object.
 
     Args:
@@ -101,6 +101,9 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
             The description of the program.
             Defaults to the description of the parser.
 
+        aliases (list, optional):
+            Aliases of the program, in addition to the aliases of the parser.
+
     Returns:
         CommandLine: A CommandLine object representing the converted parser.
     '''
@@ -114,21 +117,30 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
     if not prog:
         prog = parser.prog
 
-    commandline = CommandLine(prog, help=description, aliases=parser.get_aliases())
+    aliases = aliases or []
+    aliases = aliases + [a for a in parser.get_aliases() if a not in aliases]
+    commandline = CommandLine(prog, help=description, aliases=aliases)
     positional_number = 0
 
     for action in parser._actions:
         if isinstance(action, argparse._SubParsersAction):
+            # Aliases are further names for the same parser
             subparsers = OrderedDict()
             for name, subparser in action.choices.items():
-                subparsers[name] = {'parser': subparser, 'help': None}
+                for data in subparsers.values():
+                    if data['parser'] is subparser:
+                        data['aliases'].append(name)
+                        break
+                else:
+                    subparsers[name] = {'parser': subparser, 'help': None, 'aliases': []}
 
             for subaction in action._get_subactions():
                 subparsers[subaction.dest]['help'] = subaction.help
 
             subcommands = commandline.add_subcommands()
             for name, data in subparsers.items():
-                subcmd = argumentparser_to_commandline(data['parser'], name, data['help'])
+                subcmd = argumentparser_to_commandline(
+                    data['parser'], name, data['help'], data['aliases'])
                 subcommands.add_commandline_object(subcmd)
         elif not action.option_strings:
             if action.nargs in ('+', '*'):
-- 
2.43.0


From 0e60a28304c3b43c7559974599e9ce50ae7c7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:20 +0000
Subject: [PATCH 29/44] fix: argparse: do not use argparse.SUPPRESS as
 description of positionals and subparsers

---
 crazy_complete/argparse_source.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index 59f0698..78eee1e 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -86,6 +86,15 @@ def get_final(action):
     return action.get_final()
 
 
+def get_help(action):
+    '''Return the help text of an action or None if it shall not be shown.'''
+
+    if action.help == argparse.SUPPRESS:
+        return None
+
+    return action.help
+
+
 def argumentparser_to_commandline(parser, prog=None, description=None, aliases=None):
     '''Converts an ArgumentParser object to a CommandLine object.
 
@@ -135,7 +144,7 @@ def argumentparser_to_commandline(parser, prog=None, description=None, aliases=N
                     subparsers[name] = {'parser': subparser, 'help': None, 'aliases': []}
 
             for subaction in action._get_subactions():
-                subparsers[subaction.dest]['help'] = subaction.help
+                subparsers[subaction.dest]['help'] = get_help(subaction)
 
             subcommands = commandline.add_subcommands()
             for name, data in subparsers.items():
@@ -156,7 +165,7 @@ def argumentparser_to_commandline(parser, prog=None, description=None, aliases=N
                 positional_number,
                 metavar    = action.metavar or action.dest,
                 complete   = get_complete(action),
-                help       = action.help,
+                help       = get_help(action),
                 repeatable = is_repeatable,
                 when       = action.get_when()
             )
@@ -164,7 +173,6 @@ def argumentparser_to_commandline(parser, prog=None, description=None, aliases=N
             complete = get_complete(action)
             optional_arg = False
             metavar = None
-            help = None
 
             if action.nargs == '?':
                 optional_arg = True
@@ -174,14 +182,11 @@ def argumentparser_to_commandline(parser, prog=None, description=None, aliases=N
             if complete:
                 metavar = action.metavar or action.dest
 
-            if action.help != argparse.SUPPRESS:
-                help = action.help
-
             commandline.add_option(
                 action.option_strings,
                 metavar      = metavar,
                 complete     = complete,
-                help         = help,
+                help         = get_help(action),
                 optional_arg = optional_arg,
                 repeatable   = action.get_repeatable(),
                 final        = get_final(action),
-- 
2.43.0


From 742330cc71363000516d5a9a8bf36589c1de201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:20 +0000
Subject: [PATCH 30/44] fix: argparse: respect set_repeatable() of positionals

---
 crazy_complete/argparse_source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index 78eee1e..e125323 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -160,6 +160,9 @@ def argumentparser_to_commandline(parser, prog=None, description=None, aliases=N
                 is_repeatable = True
                 utils.warn(f'Truncating nargs={action.nargs} of {action}')
 
+            if action.get_repeatable() in (True, False):
+                is_repeatable = action.get_repeatable()
+
             positional_number += 1
             commandline.add_positional(
                 positional_number,
-- 
2.43.0


From 24fc034818dba69104b996aae2b8ed737ee918a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:20 +0000
Subject: [PATCH 31/44] fix: argparse: accept metavars that are tuples

---
 crazy_complete/argparse_source.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index e125323..0ae8f3a 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -95,6 +95,15 @@ def get_help(action):
     return action.help
 
 
+def get_metavar(action):
+    '''Return the metavar of an action.'''
+
+    if isinstance(action.metavar, tuple):
+        return ' '.join(action.metavar)
+
+    return action.metavar or action.dest
+
+
 def argumentparser_to_commandline(parser, prog=None, description=None, aliases=None):
     '''Converts an ArgumentParser object to a CommandLine object.
 
@@ -166,7 +175,7 @@ def argumentparser_to_commandline(parser, prog=None, description=None, aliases=N
             positional_number += 1
             commandline.add_positional(
                 positional_number,
-                metavar    = action.metavar or action.dest,
+                metavar    = get_metavar(action),
                 complete   = get_complete(action),
                 help       = get_help(action),
                 repeatable = is_repeatable,
@@ -183,7 +192,7 @@ def argumentparser_to_commandline(parser, prog=None, description=None, aliases=N
                 utils.warn(f'Truncating nargs={action.nargs} of {action}')
 
             if complete:
-                metavar = action.metavar or action.dest
+                metavar = get_metavar(action)
 
             commandline.add_option(
                 action.option_strings,
-- 
2.43.0


From 82faf28ef20577068b8f3a0f8d0011649899cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:20 +0000
Subject: [PATCH 32/44] fix: argparse: accept choices of any container and item
 type

---
 crazy_complete/argparse_source.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index 0ae8f3a..3a3efc6 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -32,6 +32,21 @@ def range_to_complete(r):
     return ('range', start, end, step)
 
 
+def convert_choices(choices):
+    '''Convert a container of choices to a list or a dictionary with descriptions.'''
+
+    def is_valid(obj):
+        return isinstance(obj, (str, int))
+
+    if isinstance(choices, dict) and all(map(is_valid, choices.values())):
+        return {k if is_valid(k) else str(k): v for k, v in choices.items()}
+
+    if isinstance(choices, (set, frozenset)):
+        choices = sorted(choices, key=str)
+
+    return [c if is_valid(c) else str(c) for c in choices]
+
+
 def get_complete(action):
     '''
     Get the `complete` attribute of `action` if it is set.
@@ -67,7 +82,7 @@ def get_complete(action):
         if action.choices:
             if isinstance(action.choices, range):
                 return range_to_complete(action.choices)
-            return ['choices', action.choices]
+            return ['choices', convert_choices(action.choices)]
 
         return ['none']
 
-- 
2.43.0


From e151c2cafff309ddf385ae5bfc6a6e6c67793989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:21 +0000
Subject: [PATCH 33/44] fix: pattern: escape backslash, caret and dollar in
 regexes

---
 crazy_complete/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index e2699c3..3457db9 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -22,7 +22,7 @@ class PatternBase:
 class Literal(PatternBase):
     '''Holds a literal string.'''
 
-    REGEX_ESCAPE_CHARS = '.?*+|{}[]()'
+    REGEX_ESCAPE_CHARS = '\\^$.?*+|{}[]()'
 
     def __init__(self, string):
         self.string = string
-- 
2.43.0


From 8b5577de37b83d4af25bbc2fcf8187fa8ec06c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:21 +0000
Subject: [PATCH 34/44] fix: pattern: escape the characters of a class only
 once

---
 crazy_complete/pattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index 3457db9..ba08bf8 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -85,10 +85,10 @@ class CharClass(PatternBase):
         self.negated = negated
 
     def to_regex(self):
-        chars = self.chars
+        chars = ''
 
-        for c in CharClass.REGEX_ESCAPE_CHARS:
-            chars = chars.replace(c, f'\\{c}')
+        for c in self.chars:
+            chars += f'\\{c}' if c in CharClass.REGEX_ESCAPE_CHARS else c
 
         if self.negated:
             return f'[^{chars}]'
-- 
2.43.0


From f5c3ac894a4253cd616ee924db03dc6c70270c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:21 +0000
Subject: [PATCH 35/44] fix: pattern: treat ), ], ! and | outside of groups as
 literals

---
 crazy_complete/pattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index ba08bf8..94e6799 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -319,6 +319,9 @@ class GlobParser:
         if token in EXTGLOB_TOKENS:
             return self._parse_ext_glob(token)
 
+        if isinstance(token, str):
+            return Literal(token)
+
         return token
 
 
-- 
2.43.0


From 47dca75e6dc4bf23d72adbc3c905f2373df278d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:21 +0000
Subject: [PATCH 36/44] fix: pattern: support backslash escapes in globs

---
 crazy_complete/pattern.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index 94e6799..6417489 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -212,6 +212,12 @@ class GlobLexer(StringStream):
         if c == "'":
             return Literal(self.parse_shell_single_quote(in_quotes=True))
 
+        if c == '\\':
+            if not self.have():
+                raise ValueError('Missing character after backslash')
+
+            return Literal(self.get())
+
         literal = c
         while True:
             c = self.peek()
@@ -219,7 +225,7 @@ class GlobLexer(StringStream):
                 break
             if c in EXTGLOB_TOKENS_PRE and self.peek(1) == '(':
                 break
-            if c in ('*', '?', '[', ']', ')', '|', '"', "'"):
+            if c in ('*', '?', '[', ']', ')', '|', '"', "'", '\\'):
                 break
             literal += c
             self.get()
-- 
2.43.0


From 8abda2ed3ff129c6c2b7db5a6195e850237c99a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:21 +0000
Subject: [PATCH 37/44] fix: pattern: negated classes with ^, reject empty and
 named classes

---
 crazy_complete/pattern.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index 6417489..1dc00f8 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -203,7 +203,7 @@ class GlobLexer(StringStream):
         if c in EXTGLOB_TOKENS_PRE and self.peek() == '(':
             return f'{c}{self.get()}'
 
-        if c in ('[', ']', ')', '?', '!', '*', '|'):
+        if c in ('[', ']', ')', '?', '!', '^', '*', '|'):
             return c
 
         if c == '"':
@@ -273,12 +273,13 @@ class GlobParser:
         except IndexError as e:
             raise ValueError('Unclosed character class') from e
 
-        if token == '!':
+        if token in ('!', '^', '!('):
             negated = True
+            chars += token[1:]
         elif token == ']':
             raise ValueError('Empty character class')
         else:
-            chars += str(token)
+            self.i -= 1
 
         while True:
             try:
@@ -287,8 +288,14 @@ class GlobParser:
                 raise ValueError('Unclosed character class') from e
 
             if token == ']':
+                if not chars:
+                    raise ValueError('Empty character class')
+
                 return CharClass(chars, negated)
 
+            if token == '[' and str(self.peek() or '')[:1] in (':', '.', '='):
+                raise ValueError('Named character classes are not supported')
+
             chars += str(token)
 
     def _parse_ext_glob(self, token):
-- 
2.43.0


From 63f90e589d04bb52ac3f1b1facdca56d5a353325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:21 +0000
Subject: [PATCH 38/44] fix: pattern: quote all special characters in zsh
 patterns

---
 crazy_complete/pattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index 1dc00f8..0a35736 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -45,7 +45,7 @@ class Literal(PatternBase):
         string = ''
 
         for c in self.string:
-            if c in ('[', ']', '?', '*', '"', ' ', '\\'):
+            if c in '[]?*" \\()|<>#~^':
                 string += f"'{c}'"
             elif c == "'":
                 string += f'"{c}"'
@@ -99,8 +99,10 @@ class CharClass(PatternBase):
         chars = ''
 
         for c in self.chars:
-            if c in ('[', ']', '!'):
+            if c in '[]!^" \\':
                 chars += f"'{c}'"
+            elif c == "'":
+                chars += f'"{c}"'
             else:
                 chars += c
 
-- 
2.43.0


From a98ece62e1f44593ab0c1c52551695805e312ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:18 +0000
Subject: [PATCH 39/44] fix: shell.quote: quote text so that fish and zsh read
 it back unchanged

---
 crazy_complete/shell.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index 9ac5c2d..ea6d095 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -35,7 +35,8 @@ def make_identifier(string):
 def needs_quote(string):
     '''Return if string needs quoting.'''
 
-    return not re.fullmatch('[a-zA-Z0-9_@%+=:,./-]+', string)
+    # A leading '=' is expanded by Zsh, a leading '%' (%self) by Fish.
+    return not re.fullmatch('[a-zA-Z0-9_@+:,./-][a-zA-Z0-9_@%+=:,./-]*', string)
 
 
 def quote(string, quote_empty_string=True):
@@ -59,14 +60,17 @@ def quote(string, quote_empty_string=True):
     if not needs_quote(string):
         return string
 
-    if "'" not in string:
+    # Backslashes are literal in single quotes, except in Fish.
+    if "'" not in string and '\\' not in string:
         return f"'{string}'"
 
-    if '"' not in string:
+    if '"' not in string or '\\' in string:
         s = string
         s = s.replace('\\', '\\\\')
         s = s.replace('$', '\\$')
-        s = s.replace('`', '\\`')
+        s = s.replace('"', '\\"')
+        # Backticks can't be escaped in Fish's double quotes.
+        s = s.replace('`', '"\'`\'"')
         return f'"{s}"'
 
     s = string.replace("'", '\'"\'"\'')
-- 
2.43.0


From b5bcb303f91fd812820f791a0209ee6f2b57870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:18 +0000
Subject: [PATCH 40/44] fix: zsh: keep backslash escapes when escaping colons
 in double quotes

---
 crazy_complete/zsh_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 7d9a273..a949e39 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -39,7 +39,9 @@ def escape_colon_in_quoted_string(s):
             sub = ss.parse_shell_single_quote(in_quotes=True)
             result += "'%s'" % sub.replace(':', r'\:')
         elif c == '"':
-            sub = ss.parse_shell_double_quote(in_quotes=True)
+            sub = ''
+            while (c := ss.get()) != '"':
+                sub += c + ss.get() if c == '\\' else c
             result += '"%s"' % sub.replace(':', r'\\:')
         elif c == ':':
             result += r'\\:'
-- 
2.43.0


From c3d84beadac166eefa5f111eb0753fb0c527c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:18 +0000
Subject: [PATCH 41/44] fix: fish: don't escape backticks in double quoted
 conditions

---
 crazy_complete/fish_conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_conditions.py b/crazy_complete/fish_conditions.py
index 0376095..657b73f 100644
--- a/crazy_complete/fish_conditions.py
+++ b/crazy_complete/fish_conditions.py
@@ -15,7 +15,7 @@ from .type_utils import is_list_type
 def escape_in_double(string):
     '''Escape special characters in a double quoted string.'''
 
-    return re.sub(r'(["$`\\])', r'\\\1', string)
+    return re.sub(r'(["$\\])', r'\\\1', string)
 
 
 def make_condition_command(prefix, args):
-- 
2.43.0


From 23420792bb7098131ec3fe934b82f7c4be52ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:45 +0000
Subject: [PATCH 42/44] fix: quote the name of the wrapped command

---
 crazy_complete/bash.py        | 2 +-
 crazy_complete/fish.py        | 3 ++-
 crazy_complete/zsh_wrapper.py | 7 ++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index b3c2471..d011b34 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -171,7 +171,7 @@ def _generate_wrapper(ctxt, commandline):
     if not commandline.wraps:
         return (completion_funcname, None)
 
-    r  = '%s %s\n' % (bash_versions.completion_loader(ctxt), commandline.wraps)
+    r  = '%s %s\n' % (bash_versions.completion_loader(ctxt), shell.quote(commandline.wraps))
     r += '\n'
     r += '%s() {\n' % wrapper_funcname
     r += '  local WRAPS=%s\n' % shell.quote(commandline.wraps)
diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index 76e623d..f40ea98 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -10,6 +10,7 @@ from . import fish_prepare
 from . import fish_complete
 from . import fish_helpers
 from . import generation
+from . import shell
 from .output import Output
 from .fish_utils import FishCompleteCommand, VariableManager
 from .fish_conditions import (
@@ -324,7 +325,7 @@ def generate_completion(commandline, config=None):
     if result.commandline.wraps:
         with output.add_as_block() as block:
             block.add('# Wrap command')
-            block.add('complete -c $prog -w %s' % result.commandline.wraps)
+            block.add('complete -c $prog -w %s' % shell.quote(result.commandline.wraps))
 
     for generator in result.get_all():
         if generator.lines:
diff --git a/crazy_complete/zsh_wrapper.py b/crazy_complete/zsh_wrapper.py
index 1ea2b2b..2ca0453 100644
--- a/crazy_complete/zsh_wrapper.py
+++ b/crazy_complete/zsh_wrapper.py
@@ -6,6 +6,7 @@
 from . import cli
 from . import algo
 from . import preprocessor
+from . import shell
 from .str_utils import replace_many
 
 _CODE = r'''
@@ -63,9 +64,9 @@ _CODE = r'''
   done
 
   words=("${new_words[@]}")
-  words[1]='%WRAPS%'
+  words[1]=%WRAPS%
   service=%WRAPS%
-  (( $+_comps[%WRAPS%] )) && $_comps[%WRAPS%]
+  (( $+_comps[$service] )) && $_comps[$service]
 }
 '''
 
@@ -164,7 +165,7 @@ def generate_wrapper(ctxt, commandline):
          wrapper_funcname),
 
         ('%WRAPS%',
-         commandline.wraps),
+         shell.quote(commandline.wraps)),
 
         ('%LONG_OPTS_FLAG_PATTERN%',
          _make_long_opts_pattern(long_opts_flag, None)),
-- 
2.43.0


From 1e0553c6cb79b74923875a6cb8d521b5fceb2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:45 +0000
Subject: [PATCH 43/44] fix: Zsh: quote keys and escape colons in the names of
 _values

---
 crazy_complete/zsh_complete.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index 6911205..21820de 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -240,9 +240,9 @@ class ZshKeyValueList(ZshComplFunc):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % (definition.key)
+                condition = '$c %s && ' % shell.quote(definition.key)
 
-            key = escape_colon(definition.key)
+            key = shell.quote(escape_square_brackets(escape_colon(definition.key)))
             if not definition.completer:
                 spec.append(f'{condition}a+=({excludes}{repeatable}{key}{desc})')
             elif definition.completer[0] == 'none':
@@ -289,7 +289,7 @@ class ZshKeyValuePair(ZshComplFunc):
             if condition_func is not None:
                 condition = '$c %s && ' % shell.quote(key)
 
-            key = escape_colon(key)
+            key = shell.quote(escape_square_brackets(escape_colon(key)))
             if not complete:
                 spec.append(f'{condition}a+=({key}{desc})')
             elif complete[0] == 'none':
@@ -479,9 +479,9 @@ class ZshCompleter(shell.ShellCompleter):
 
         if is_dict_type(values):
             esc = escape_square_brackets
-            values = ['%s[%s]' % (esc(item), esc(desc)) for item, desc in values.items()]
+            values = ['%s[%s]' % (esc(escape_colon(item)), esc(desc)) for item, desc in values.items()]
         else:
-            values = [escape_square_brackets(i) for i in values]
+            values = [escape_square_brackets(escape_colon(i)) for i in values]
 
         if not duplicates:
             return ZshComplFunc(ctxt, ['_values', '-s', separator, desc] + values)
-- 
2.43.0


From 135474b2b83a0cca2b079dd6916ce3e1e42ca3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:58 +0000
Subject: [PATCH 44/44] fix: bash: make ranges in patterns of single digits
 only

---
 crazy_complete/bash_patterns.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/bash_patterns.py b/crazy_complete/bash_patterns.py
index 2cd3dcf..32975c6 100644
--- a/crazy_complete/bash_patterns.py
+++ b/crazy_complete/bash_patterns.py
@@ -30,12 +30,11 @@ def _build_pattern(parts):
     if len(parts) == 1:
         return parts[0]
 
-    try:
+    # A range in brackets matches a single character
+    if all(len(part) == 1 and part in '0123456789' for part in parts):
         ints = sorted(map(int, parts))
         if numbers_are_contiguous(ints):
             return f'[{ints[0]}-{ints[-1]}]'
-    except ValueError:
-        pass
 
     return "@(" + "|".join(sorted(parts)) + ")"
 
-- 
2.43.0

