"""Model of the standard argparse: options, flags and positionals of one parser."""

ARGV = []
SUPPRESS = '==SUPPRESS=='


class ArgumentError(Exception):
    pass


class Namespace(object):
    pass


class Action(object):
    def __init__(self, flags, kw):
        self.flags = [f for f in flags if f.startswith('-')]
        self.positional = not self.flags
        self.nargs = kw.get('nargs')
        self.type = kw.get('type')
        self.choices = kw.get('choices')
        self.action = kw.get('action', 'store')
        self.const = kw.get('const')
        self.required = kw.get('required', False)
        if self.action in ('store_true', 'store_false'):
            self.default = kw.get('default', self.action == 'store_false')
        else:
            self.default = kw.get('default')
        dest = kw.get('dest')
        if dest is None:
            if self.positional:
                dest = flags[0]
            else:
                longs = [f for f in self.flags if f.startswith('--')]
                dest = (longs or self.flags)[0].lstrip('-').replace('-', '_')
        self.dest = dest

    def one(self, text):
        value = self.type(text) if self.type is not None else text
        if self.choices is not None and value not in list(self.choices):
            raise SystemExit(2)
        return value


class ArgumentParser(object):
    def __init__(self, prog=None, usage=None, description=None, epilog=None, **kw):
        self.actions = []
        self.prog = prog
        self.description = description

    def add_argument(self, *flags, **kw):
        action = Action(flags, kw)
        self.actions.append(action)
        return action

    def add_argument_group(self, *args, **kw):
        return self

    def add_mutually_exclusive_group(self, **kw):
        return self

    def set_defaults(self, **kw):
        for a in self.actions:
            if a.dest in kw:
                a.default = kw[a.dest]

    def error(self, message):
        raise SystemExit(2)

    def find(self, flag):
        for a in self.actions:
            if flag in a.flags:
                return a
        hits = [a for a in self.actions if flag.startswith('--') and [f for f in a.flags if f.startswith(flag)]]
        if len(hits) != 1:
            raise SystemExit(2)
        return hits[0]

    def parse_args(self, args=None, namespace=None):
        argv = list(ARGV if args is None else args)
        ns = namespace or Namespace()
        for a in self.actions:
            value = a.default
            if isinstance(value, str) and a.type is not None:
                value = a.type(value)
            setattr(ns, a.dest, value)
        rest = []
        seen = []
        k = 0
        while k < len(argv):
            word = argv[k]
            k += 1
            if word == '--':
                rest.extend(argv[k:])
                break
            if not word.startswith('-') or word == '-':
                rest.append(word)
                continue
            value = None
            flag = word
            if word.startswith('--'):
                if '=' in word:
                    flag, value = word.split('=', 1)
            elif len(word) > 2:
                flag, value = word[:2], word[2:]
            a = self.find(flag)
            seen.append(a.dest)
            if a.action == 'store_true':
                setattr(ns, a.dest, True)
                continue
            if a.action == 'store_false':
                setattr(ns, a.dest, False)
                continue
            if a.action == 'store_const':
                setattr(ns, a.dest, a.const)
                continue
            if value is None and k < len(argv) and not argv[k].startswith('-'):
                value = argv[k]
                k += 1
            if value is None:
                if a.nargs == '?':
                    setattr(ns, a.dest, a.const)
                    continue
                raise SystemExit(2)
            setattr(ns, a.dest, a.one(value))
        for a in self.actions:
            if not a.positional:
                if a.required and a.dest not in seen:
                    raise SystemExit(2)
                continue
            if a.nargs in ('+', '*'):
                if a.nargs == '+' and not rest:
                    raise SystemExit(2)
                if rest:
                    setattr(ns, a.dest, [a.one(x) for x in rest])
                else:
                    setattr(ns, a.dest, a.default if a.default is not None else [])
                rest = []
            elif a.nargs == '?':
                if rest:
                    setattr(ns, a.dest, a.one(rest.pop(0)))
            elif rest:
                setattr(ns, a.dest, a.one(rest.pop(0)))
            else:
                raise SystemExit(2)
        if rest:
            raise SystemExit(2)
        return ns
