# Stand-in for the standard argparse module that the analysis interprets in
# place of the real one.  It follows the data model and the parsing rules of
# argparse for the features that declare and parse options.
import sys as _sys

SUPPRESS = '==SUPPRESS=='
OPTIONAL = '?'
ZERO_OR_MORE = '*'
ONE_OR_MORE = '+'
PARSER = 'A...'
REMAINDER = '...'


class ArgumentError(Exception):
    def __init__(self, argument, message):
        self.argument_name = None
        self.message = message


class ArgumentTypeError(Exception):
    pass


class Namespace:
    pass


class HelpFormatter:
    pass


class RawDescriptionHelpFormatter(HelpFormatter):
    pass


class RawTextHelpFormatter(HelpFormatter):
    pass


class Action:
    def __init__(self, option_strings, dest, nargs=None, const=None, default=None, type=None, choices=None,
                 required=False, help=None, metavar=None, deprecated=False):
        self.option_strings = option_strings
        self.dest = dest
        self.nargs = nargs
        self.const = const
        self.default = default
        self.type = type
        self.choices = choices
        self.required = required
        self.help = help
        self.metavar = metavar
        self.deprecated = deprecated


class BooleanOptionalAction(Action):
    def __init__(self, option_strings, dest, default=None, type=None, choices=None, required=False, help=None,
                 metavar=None):
        strings = []
        for o in option_strings:
            strings.append(o)
            if o.startswith('--'):
                strings.append('--no-' + o[2:])
        Action.__init__(self, strings, dest, 0, None, default, type, choices, required, help, metavar)


class _StoreAction(Action):
    def __init__(self, option_strings, dest, nargs=None, const=None, default=None, type=None, choices=None,
                 required=False, help=None, metavar=None):
        Action.__init__(self, option_strings, dest, nargs, const, default, type, choices, required, help, metavar)

    def __call__(self, parser, namespace, values, option_string=None):
        setattr(namespace, self.dest, values)


class _StoreConstAction(Action):
    def __init__(self, option_strings, dest, const=None, default=None, required=False, help=None, metavar=None):
        Action.__init__(self, option_strings, dest, 0, const, default, None, None, required, help, None)

    def __call__(self, parser, namespace, values, option_string=None):
        setattr(namespace, self.dest, self.const)


class _StoreTrueAction(_StoreConstAction):
    def __init__(self, option_strings, dest, default=False, required=False, help=None):
        _StoreConstAction.__init__(self, option_strings, dest, True, default, required, help)


class _StoreFalseAction(_StoreConstAction):
    def __init__(self, option_strings, dest, default=True, required=False, help=None):
        _StoreConstAction.__init__(self, option_strings, dest, False, default, required, help)


class _AppendAction(Action):
    def __init__(self, option_strings, dest, nargs=None, const=None, default=None, type=None, choices=None,
                 required=False, help=None, metavar=None):
        Action.__init__(self, option_strings, dest, nargs, const, default, type, choices, required, help, metavar)

    def __call__(self, parser, namespace, values, option_string=None):
        items = getattr(namespace, self.dest, None)
        items = list(items) if items is not None else []
        items.append(values)
        setattr(namespace, self.dest, items)


class _AppendConstAction(Action):
    def __init__(self, option_strings, dest, const=None, default=None, required=False, help=None, metavar=None):
        Action.__init__(self, option_strings, dest, 0, const, default, None, None, required, help, metavar)

    def __call__(self, parser, namespace, values, option_string=None):
        items = getattr(namespace, self.dest, None)
        items = list(items) if items is not None else []
        items.append(self.const)
        setattr(namespace, self.dest, items)


class _CountAction(Action):
    def __init__(self, option_strings, dest, default=None, required=False, help=None):
        Action.__init__(self, option_strings, dest, 0, None, default, None, None, required, help, None)

    def __call__(self, parser, namespace, values, option_string=None):
        n = getattr(namespace, self.dest, None)
        setattr(namespace, self.dest, (n if n is not None else 0) + 1)


class _HelpAction(Action):
    def __init__(self, option_strings, dest=SUPPRESS, default=SUPPRESS, help=None):
        Action.__init__(self, option_strings, dest, 0, None, default, None, None, False, help, None)

    def __call__(self, parser, namespace, values, option_string=None):
        _sys.exit(0)


class _VersionAction(Action):
    def __init__(self, option_strings, version=None, dest=SUPPRESS, default=SUPPRESS, help=None):
        Action.__init__(self, option_strings, dest, 0, None, default, None, None, False, help, None)
        self.version = version

    def __call__(self, parser, namespace, values, option_string=None):
        _sys.exit(0)


class _ExtendAction(_AppendAction):
    def __call__(self, parser, namespace, values, option_string=None):
        items = getattr(namespace, self.dest, None)
        items = list(items) if items is not None else []
        items.extend(values)
        setattr(namespace, self.dest, items)


class _ChoicesPseudoAction(Action):
    def __init__(self, name, aliases, help):
        metavar = name
        if aliases:
            metavar = metavar + ' (%s)' % ', '.join(aliases)
        Action.__init__(self, [], name, None, None, None, None, None, False, help, metavar)


class _SubParsersAction(Action):
    def __init__(self, option_strings, prog, parser_class, dest=SUPPRESS, required=False, help=None, metavar=None):
        self._prog_prefix = prog
        self._parser_class = parser_class
        self._name_parser_map = {}
        self._choices_actions = []
        Action.__init__(self, option_strings, dest, PARSER, None, None, None, self._name_parser_map, required, help,
                        metavar)

    def add_parser(self, name, **kwargs):
        if kwargs.get('prog') is None:
            kwargs['prog'] = '%s %s' % (self._prog_prefix, name)
        aliases = kwargs.pop('aliases', ())
        if 'help' in kwargs:
            help = kwargs.pop('help')
            self._choices_actions.append(_ChoicesPseudoAction(name, aliases, help))
        parser = self._parser_class(**kwargs)
        self._name_parser_map[name] = parser
        for alias in aliases:
            self._name_parser_map[alias] = parser
        return parser

    def _get_subactions(self):
        return self._choices_actions


_ACTIONS = {
    None: _StoreAction, 'store': _StoreAction, 'store_const': _StoreConstAction, 'store_true': _StoreTrueAction,
    'store_false': _StoreFalseAction, 'append': _AppendAction, 'append_const': _AppendConstAction,
    'count': _CountAction, 'help': _HelpAction, 'version': _VersionAction, 'extend': _ExtendAction,
}


class _ArgumentGroup:
    def __init__(self, container, title=None, description=None):
        self._container = container
        self.title = title
        self.description = description
        self._group_actions = []

    def add_argument(self, *args, **kwargs):
        action = self._container.add_argument(*args, **kwargs)
        self._group_actions.append(action)
        return action

    def add_mutually_exclusive_group(self, required=False):
        return self._container.add_mutually_exclusive_group(required=required)


class _MutuallyExclusiveGroup(_ArgumentGroup):
    def __init__(self, container, required=False):
        _ArgumentGroup.__init__(self, container)
        self.required = required


class ArgumentParser:
    def __init__(self, prog=None, usage=None, description=None, epilog=None, parents=(), formatter_class=None,
                 prefix_chars='-', fromfile_prefix_chars=None, argument_default=None, conflict_handler='error',
                 add_help=True, allow_abbrev=True, exit_on_error=True):
        self.prog = prog if prog is not None else 'script'
        self.usage = usage
        self.description = description
        self.epilog = epilog
        self.add_help = add_help
        self.exit_on_error = exit_on_error
        self._actions = []
        self._option_string_actions = {}
        self._mutually_exclusive_groups = []
        self._action_groups = []
        self._defaults = {}
        self._subparsers = None
        if add_help:
            self.add_argument('-h', '--help', action='help', default=SUPPRESS,
                              help='show this help message and exit')

    def add_argument(self, *args, **kwargs):
        kw = dict(kwargs)
        action = kw.pop('action', None)
        cls = _ACTIONS[action] if action is None or isinstance(action, str) else action
        if not args or (len(args) == 1 and not args[0].startswith('-')):
            if args:
                dest = args[0]
                if 'dest' in kw:
                    raise ValueError('dest supplied twice for positional argument')
            else:
                dest = kw.pop('dest', None)
            if kw.get('nargs') not in (OPTIONAL, ZERO_OR_MORE):
                if cls is _StoreAction or cls is _AppendAction or cls is _ExtendAction:
                    kw['required'] = True
            obj = cls([], dest, **kw)
        else:
            dest = kw.pop('dest', None)
            if dest is None:
                for o in args:
                    if o.startswith('--') and dest is None:
                        dest = o
                if dest is None:
                    dest = args[0]
                dest = dest.lstrip('-').replace('-', '_')
            obj = cls(list(args), dest=dest, **kw)
        self._actions.append(obj)
        for o in obj.option_strings:
            self._option_string_actions[o] = obj
        return obj

    def add_argument_group(self, title=None, description=None, **kw):
        g = _ArgumentGroup(self, title, description)
        self._action_groups.append(g)
        return g

    def add_mutually_exclusive_group(self, required=False):
        g = _MutuallyExclusiveGroup(self, required)
        self._mutually_exclusive_groups.append(g)
        return g

    def add_subparsers(self, title=None, description=None, prog=None, parser_class=None, action=None, dest=SUPPRESS,
                       required=False, help=None, metavar=None):
        a = _SubParsersAction([], prog if prog is not None else self.prog,
                              parser_class if parser_class is not None else ArgumentParser, dest, required, help,
                              metavar)
        self._actions.append(a)
        return a

    def set_defaults(self, **kwargs):
        self._defaults.update(kwargs)

    def error(self, message):
        if self.exit_on_error:
            self.exit(2)
        raise ArgumentError(None, message)

    def exit(self, status=0, message=None):
        _sys.exit(status)

    def format_help(self):
        return ''

    def format_usage(self):
        return ''

    def print_help(self, file=None):
        pass

    def print_usage(self, file=None):
        pass

    def parse_args(self, args=None, namespace=None):
        ns, rest = self.parse_known_args(args, namespace)
        if rest:
            self._fail('unrecognized arguments: %s' % ' '.join(rest))
        return ns

    def _fail(self, message):
        if self.exit_on_error:
            self.error(message)
        raise ArgumentError(None, message)

    def _value(self, action, text):
        if action.type is not None:
            try:
                value = action.type(text)
            except ArgumentTypeError as e:
                self._fail('argument type')
            except (TypeError, ValueError):
                self._fail('invalid value')
        else:
            value = text
        if action.choices is not None:
            if value not in action.choices:
                self._fail('invalid choice')
        return value

    def parse_known_args(self, args=None, namespace=None):
        ns = namespace if namespace is not None else Namespace()
        for a in self._actions:
            if a.dest != SUPPRESS and a.default != SUPPRESS:
                setattr(ns, a.dest, a.default)
        for dest, value in self._defaults.items():
            setattr(ns, dest, value)
        rest = []
        positionals = []
        seen = []
        args = list(args)
        i = 0
        while i < len(args):
            arg = args[i]
            i += 1
            if arg == '--':
                positionals.extend(args[i:])
                break
            if not arg.startswith('-') or arg == '-':
                positionals.append(arg)
                continue
            value = None
            if arg.startswith('--') and '=' in arg:
                name, value = arg.split('=', 1)
            else:
                name = arg
            action = self._option_string_actions.get(name)
            if action is None and not name.startswith('--') and len(name) > 2:
                action = self._option_string_actions.get(name[:2])
                if action is not None:
                    value = name[2:]
            if action is None and name.startswith('--'):
                found = [o for o in self._option_string_actions if o.startswith(name)]
                if len(found) == 1:
                    action = self._option_string_actions[found[0]]
                elif len(found) > 1:
                    self._fail('ambiguous option')
            if action is None:
                rest.append(arg)
                continue
            for g in self._mutually_exclusive_groups:
                if action in g._group_actions:
                    for other in seen:
                        if other is not action and other in g._group_actions:
                            self._fail('not allowed with argument')
            seen.append(action)
            if action.nargs == 0:
                if value is not None:
                    self._fail('ignored explicit argument')
                action(self, ns, [], name)
                continue
            if value is None and i < len(args) and not (args[i].startswith('-') and args[i] != '-'):
                value = args[i]
                i += 1
            if value is None:
                if action.nargs == OPTIONAL:
                    action(self, ns, action.const, name)
                    continue
                self._fail('expected one argument')
            action(self, ns, self._value(action, value), name)
        for a in self._actions:
            if a.option_strings:
                continue
            if positionals:
                a(self, ns, self._value(a, positionals.pop(0)), None)
            elif a.required:
                self._fail('the following arguments are required')
        rest.extend(positionals)
        return ns, rest
