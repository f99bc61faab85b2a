"""Stateless bounded-exhaustive explorer.

A *program* is a Python function ``f(ctx)`` that drives the real code and takes
every non-deterministic decision (input symbol, operation, schedule step, fault,
answer of a random generator...) with ``ctx.pick``.  The explorer re-executes the
program once per leaf of the resulting choice tree, in depth-first (odometer)
order, until the whole tree has been covered: there is no sampling.

Counters of an exploration
  executions   complete paths of the tree, each of them compared with the oracle
  transitions  edges of the tree that were executed for the first time (each new
               decision), plus implementation operations announced by ``ctx.op``
  states       distinct canonical observations announced by ``ctx.state``
"""
import hashlib
import signal
import traceback


class Violation(Exception):
    """the property is broken on this execution"""


class Hang(BaseException):
    pass


class _PrefixEnd(BaseException):
    pass


class Prune(BaseException):
    """the execution left the space the program means to explore"""


def digest(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'backslashreplace'), digest_size=8).digest(), 'big')


class Ctx(object):
    def __init__(self, path, limit=None, thorough=False, known=()):
        self._path = path          # forced choices
        self.choices = []          # [(index, count)]
        self.labels = []
        self._limit = limit
        self.ops = 0
        self.thorough = thorough
        self.states = []
        self.findings = []
        self.known = known
        self.sample = None
        self.cleanups = []

    # ---------------------------------------------------------------- choices
    def pick(self, options, label=None):
        if isinstance(options, int):
            options = range(options)
        n = len(options)
        if n == 0:
            raise Prune()
        if n == 1:
            return options[0]
        depth = len(self.choices)
        if depth < len(self._path):
            index = self._path[depth]
            if index >= n:
                raise RuntimeError('replay diverged: choice {} of {} at depth {}'.format(index, n, depth))
        else:
            index = 0
        self.choices.append((index, n))
        if self._limit is not None and len(self.choices) >= self._limit:
            raise _PrefixEnd()
        if label is not None:
            self.labels.append((label, repr(options[index])[:200]))
        return options[index]

    def flag(self, label=None):
        return self.pick((False, True), label)

    def pick_subset(self, items, label=None):
        return [item for item in items if self.flag(label)]

    def pick_perm(self, items, label=None):
        items = list(items)
        result = []
        while items:
            i = self.pick(len(items), label)
            result.append(items.pop(i))
        return result

    def pick_seq(self, alphabet, min_len, max_len, label=None):
        n = self.pick(range(min_len, max_len + 1), label)
        return [self.pick(alphabet, label) for _ in range(n)]

    def prune(self):
        raise Prune()

    # ----------------------------------------------------------- observations
    def op(self, n=1):
        self.ops += n

    def state(self, *obs):
        self.states.append(digest(obs))
        if self.sample is None:
            self.sample = obs

    # ---------------------------------------------------------------- verdicts
    def fail(self, message):
        raise Violation(message)

    def check(self, condition, message, *args):
        if not condition:
            raise Violation(message.format(*args) if args else message)

    def equal(self, got, want, what):
        if got != want or type(got) is not type(want) and (got is None or want is None):
            raise Violation('{}: got {!r}, expected {!r}'.format(what, got, want))

    def rejects(self, what, function, *args, exc=Exception, **kwargs):
        """the call must raise (an Exception of the given type)"""
        self.op()
        try:
            value = function(*args, **kwargs)
        except exc:
            return
        except Exception as e:
            raise Violation('{}: must be rejected with {}, raised {!r}'.format(what, getattr(exc, '__name__', exc), e))
        raise Violation('{}: must be rejected, but was accepted: {!r}'.format(what, value)[:1500])

    def accepts(self, what, function, *args, **kwargs):
        """the call must not raise"""
        self.op()
        try:
            return function(*args, **kwargs)
        except Exception as e:
            raise Violation('{}: must be accepted, but raised {!r}\n{}'.format(what, e, traceback.format_exc()))

    def finding(self, key, message):
        """a defect identified by key: reported as known finding if listed, else a violation"""
        if key in self.known:
            self.findings.append((key, message))
            return
        raise Violation(message)


class Result(object):
    def __init__(self):
        self.executions = 0
        self.pruned = 0
        self.transitions = 0
        self.states = set()
        self.samples = []
        self.findings = {}
        self.violation = None     # (choices, labels, message)
        self.max_depth = 0


def _alarm(signum, frame):
    raise Hang()


def execute(program, ctx, timeout):
    """run one execution; returns None or a violation message"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        program(ctx)
        return None
    except Violation as e:
        return str(e)
    except (Prune, _PrefixEnd):
        raise
    except Hang:
        return 'execution did not terminate within {} s'.format(timeout)
    except (KeyboardInterrupt,):
        raise
    except BaseException as e:
        return 'unexpected {}: {}\n{}'.format(type(e).__name__, e, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        for cleanup in reversed(ctx.cleanups):
            try:
                cleanup()
            except Exception:
                pass


def _next(choices, floor):
    """odometer step; None when everything below the prefix of length `floor` is done"""
    path = [c for c in choices]
    while len(path) > floor:
        index, n = path[-1]
        if index + 1 < n:
            return [c[0] for c in path[:-1]] + [index + 1]
        path.pop()
    return None


def prefixes(program, limit, make_ctx, timeout=60, prefix=()):
    """all choice prefixes of at most `limit` decisions that start with `prefix`"""
    result = []
    path = list(prefix)
    while path is not None:
        ctx = make_ctx(path, limit)
        try:
            execute(program, ctx, timeout)
        except (_PrefixEnd, Prune):
            pass
        result.append([c[0] for c in ctx.choices])
        path = _next(ctx.choices, len(prefix))
    return result


def explore(program, prefix, make_ctx, timeout=60, max_samples=2, stop=lambda: False):
    result = Result()
    path = list(prefix)
    shared = len(prefix)
    while path is not None:
        ctx = make_ctx(path, None)
        try:
            message = execute(program, ctx, timeout)
            result.executions += 1
        except Prune:
            message = None
            result.pruned += 1
        result.transitions += ctx.ops + max(0, len(ctx.choices) - shared)
        result.max_depth = max(result.max_depth, len(ctx.choices))
        result.states.update(ctx.states)
        for key, text in ctx.findings:
            result.findings.setdefault(key, [0, text])[0] += 1
        if ctx.sample is not None and len(result.samples) < max_samples:
            result.samples.append({'choices': [c[0] for c in ctx.choices], 'observed': repr(ctx.sample)[:600]})
        if message is not None:
            result.violation = ([c[0] for c in ctx.choices], ctx.labels, message)
            return result
        if stop():
            return result
        before = path
        path = _next(ctx.choices, len(prefix))
        if path is not None:
            shared = len(path) - 1
    return result
