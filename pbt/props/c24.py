"""C24: each call gives the same whatever was called before or meanwhile."""
import contextlib
import copy
import io
import os
import pickle
import shutil
import socket
import sys
import threading
import warnings

from .. import htmlcmp as H
from .. import mdgen as G
from ..core import CaseTimeout, Suite, captured, equal, fail
from ..translation import plan
from ..util import (
    RUNS,
    make_po,
    markdown_pofile_to_html,
    markdown_to_pofile,
    markdown_to_pofile_to_markdown,
    pofile_to_markdown,
    read,
    write,
)
from .c06 import chooser
from .c23 import snapshot

PROPERTY = 'C24'
RULE = ('cases are histories of calls of the functions of the API and runs of '
        'the programs, some of them failing, over the same files, with edits '
        'of these between them and the arguments of the first calls used '
        'again; each one must give the result, output and files that it '
        'gives in a new process, and leave arguments, environment and '
        'working directory as they were. Other cases make calls in threads. '
        'Non-trivial: four calls or more, with two different functions.')

DOCS = ('a.md', 'b.md')
POS = ('x.po', 'y.po')


# files of events, some of them wrong or with state
EVENTS = (
    'def on_msgid(self, msgid, *args):\n    return None\n',
    'def on_msgid(self, msgid, *args):\n    return "a" not in msgid\n',
    'seen = []\n\n\ndef on_msgid(self, msgid, *args):\n'
    '    seen.append(msgid)\n    return len(seen) % 2 == 1\n',
    'def on_msgid(self:\n',
    'def other():\n    pass\n',
    'def on_msgid(self, msgid, *args):\n    return False\n\n\n1 / 0\n',
)


class Calls:
    """The arguments of the calls of a history, built once."""

    def __init__(self, case):
        self.opts = o = {}
        if case['aliases']:
            o['command_aliases'] = {'off': 'mdpo-disable-next-block',
                                    'ctx': 'context'}
        self.events = {'text': [lambda self, block, text: None],
                       'msgid': lambda self, msgid, *a: None}
        if case.get('file_events'):
            self.events['msgid'] = 'ev.py::on_msgid'
        os.environ.pop('_MDPO_RUNNING', None)
        if case.get('environ'):
            os.environ['_MDPO_RUNNING'] = case['environ'] - 1 and 'no' or ''
        self.metadata = {'Language': 'es', 'X-Other': 'one'}
        self.ignore = ['none.md', 'none.po']
        self.msgids = ['alpha']
        self.extensions = ['tables', 'strikethrough', 'latex_math_spans',
                           'underline', 'wikilinks']
        self.files = list(DOCS)
        self.pofiles = list(POS)
        self.langs = ['es', 'fr']

    def state(self):
        return copy.deepcopy({k: v for k, v in vars(self).items()
                              if k != 'events'}), {
            k: list(v) if isinstance(v, list) else v
            for k, v in self.events.items()}

    def api(self, op):
        name, n = op['name'], op['n']
        doc = DOCS[n % 2]
        kw = dict(self.opts if op['alias'] else {})
        if op['events'] and name in ('md2po', 'po2md'):
            kw['events'] = self.events
        if op['debug'] and name != 'mdpo2html':
            kw['debug'] = True
        if name == 'md2po':
            if n % 3 == 0:
                kw['extensions'] = self.extensions
            if n % 5 == 0:
                kw['metadata'] = self.metadata
            if n % 4 == 1:
                kw['ignore_msgids'] = self.msgids
            if n % 3 == 1:
                kw.update(po_filepath=POS[n % 2], save=True)
            if n % 7 == 3:
                kw['include_codeblocks'] = True
            if n % 7 == 4:
                kw['plaintext'] = True
            return str(markdown_to_pofile(
                (self.files, doc, [doc], read(doc))[n % 4],
                ignore=self.ignore, **kw))
        if name == 'po2md':
            return pofile_to_markdown(
                doc, (self.pofiles, '*.po', POS[n % 2])[n % 3],
                ignore=self.ignore, wrapwidth=(80, 0, 20)[n % 3],
                **({'extensions': self.extensions} if n % 5 == 2 else {}),
                save='out.md' if n % 4 == 1 else None, **kw)
        if name == 'mdpo2html':
            return markdown_pofile_to_html(
                doc[0] + '.html', (self.pofiles, '*.po', POS[n % 2])[n % 3],
                ignore=self.ignore, **kw)
        return markdown_to_pofile_to_markdown(
            self.langs, (doc, '*.md')[n % 2], 'l/{lang}', **kw)

    def program(self, op):
        name, n = op['name'], op['n']
        doc = DOCS[n % 2]
        args = []
        for k, v in self.opts.get('command_aliases', {}).items() \
                if op['alias'] else ():
            args += ['--command-alias', f'{k}:{v}']
        if n % 3 == 0:
            args.append('--check')
        if name == 'md2po':
            args += [doc, '-p', POS[n % 2], *['-s'] * (n % 3 == 1),
                     *['-d', 'Language: es'] * (n % 5 == 0)]
        elif name == 'po2md':
            args += [doc, '-p', '*.po']
            args += ['-s', 'out.md'] * (n % 3 == 1)
        elif name == 'mdpo2html':
            args += [doc[0] + '.html', '-p', POS[n % 2]]
        else:
            args += [doc, '-l', *self.langs, '-o', 'l/{lang}']
        return RUNS[name](args)

    def run(self, op):
        """Result, output and error output of a call."""
        if op['fails']:
            op = dict(op, n=op['n'] // 2 * 2)
            with open('a.md', 'rb') as f:
                data = f.read()
            with open('a.md', 'ab') as f:
                f.write((b'\n\n<!-- mdpo-context -->\n', b'\xff\xff')[
                    op['n'] // 2 % 2])
        with captured() as (out, err):
            try:
                res = (self.program if op['cli'] else self.api)(op)
                if op['cli']:
                    res = [str(r) for r in res] if isinstance(res, tuple) \
                        else res
            except CaseTimeout:
                raise
            except BaseException as exc:
                res = [type(exc).__name__, str(exc)]
        if op['fails']:
            with open('a.md', 'wb') as f:
                f.write(data)
        shown = '\n'.join(line.split('::', 2)[-1]
                          for line in out.getvalue().split('\n'))
        return res, shown, err.getvalue()


class Fresh:
    """Makes calls in processes that have not made any other."""

    def __init__(self):
        self.sock, theirs = socket.socketpair()
        if not os.fork():
            try:
                fd = theirs.fileno()
                os.closerange(3, fd)
                os.closerange(fd + 1, 1024)
                self.serve(theirs.makefile('rwb'))
            finally:
                os._exit(0)
        theirs.close()
        self.file = self.sock.makefile('rwb')

    @staticmethod
    def serve(stream):
        while True:
            try:
                where, case, op = pickle.load(stream)
            except EOFError:
                return
            pid = os.fork()
            if not pid:
                try:
                    os.chdir(where)
                    res = Calls(case).run(op)
                    pickle.dump(res, stream)
                    stream.flush()
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def call(self, where, case, op):
        pickle.dump((where, case, op), self.file)
        self.file.flush()
        return pickle.load(self.file)


_fresh = {}


def fresh():
    if os.getpid() not in _fresh:
        _fresh.clear()
        _fresh[os.getpid()] = Fresh()
    return _fresh[os.getpid()]


def surroundings():
    return (dict(os.environ), os.getcwd(), list(sys.path),
            list(warnings.filters), sys.getrecursionlimit())


def prepare(case):
    write_events(0)
    for name, po, doc in zip(DOCS, POS, case['docs']):
        edit(case, name, po, doc)


def edit(case, name, po, doc):
    src = G.source(doc)
    if case['aliases']:
        src = src.replace('<!-- mdpo-disable-next-block ', '<!-- off ')
    write(name, src)
    write(name[0] + '.html', H.render(src))
    entries, _ = plan(doc, chooser(case['bits']))
    make_po(po, entries)


def write_events(n):
    # not taken from the compiled file of the previous version
    shutil.rmtree('__pycache__', ignore_errors=True)
    write('ev.py', EVENTS[n % len(EVENTS)])


def swap_case(path):
    """Another version of a PO file, as long as the previous one."""
    text = read(path)
    head, sep, body = text.partition('\n\n')
    lines = body.split('\n')
    for n, line in enumerate(lines):
        if line.startswith('msgstr "'):
            lines[n] = 'msgstr "' + line[8:].swapcase()
    write(path, head + sep + '\n'.join(lines))


def check(case, ctx):
    new = fresh()
    calls = Calls(case)
    names = {op['name'] for op in case['ops'] if op['op'] == 'call'}
    n_calls = sum(op['op'] == 'call' for op in case['ops'])
    ctx.nontrivial(n_calls >= 4 and len(names) > 1)
    with ctx.tmpdir():
        os.mkdir('w')
        os.chdir('w')
        try:
            prepare(case)
            for step, op in enumerate(case['ops']):
                if op['op'] == 'edit':
                    n = op['n'] % 2
                    edit(case, DOCS[n], POS[n], case['docs'][op['n'] % 3])
                    continue
                if op['op'] == 'events':
                    write_events(op['n'])
                    continue
                if op['op'] == 'swap':
                    swap_case(POS[op['n'] % 2])
                    continue
                ctx.label(op['name'] + (' program' if op['cli'] else ' API')
                          + (', failing' if op['fails'] else ''))
                shutil.copytree('.', '../ref')
                want = new.call(os.path.abspath('../ref'), case, op)
                before, around = calls.state(), surroundings()
                got = calls.run(op)
                info = {'step': step, 'call': op}
                equal(surroundings(), around, 'what is around the process '
                      'has changed', **info)
                equal(calls.state(), before, 'arguments changed', **info)
                equal(got, want, 'result of a call that depends on the '
                      'previous ones', **info)
                equal(snapshot('.'), snapshot('../ref'), 'files written by a '
                      'call that depends on the previous ones', **info)
                shutil.rmtree('../ref')
        finally:
            os.chdir('..')


def in_threads(jobs):
    """Results of running all the jobs at the same time."""
    got = [None] * len(jobs)
    start = threading.Barrier(len(jobs))

    def run(n, job):
        start.wait()
        try:
            got[n] = job()
        except BaseException as exc:
            got[n] = repr(exc)
    threads = [threading.Thread(target=run, args=x) for x in enumerate(jobs)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return got


def check_threads(case, ctx):
    calls = Calls(case)
    ops = [dict(op, debug=False, cli=False, fails=False)
           for op in case['ops'] if op['op'] == 'call']
    # no two of them write the same file
    for k, op in enumerate(ops):
        while (op['name'] == 'md2po' and op['n'] % 3 == 1) or (
                op['name'] == 'po2md' and op['n'] % 4 == 1):
            op['n'] += 1
        if op['name'] == 'md2po2md':
            op['name'] = 'po2md' if k % 2 else 'mdpo2html'
            op['n'] = k * 4
    ctx.nontrivial(len(ops) >= 4 and len({op['name'] for op in ops}) > 1)
    with ctx.tmpdir():
        prepare(case)
        want = [calls.api(op) for op in ops]
        if not ops:
            return
        before = snapshot('.')
        for _ in range(2):
            with contextlib.redirect_stdout(io.StringIO()):
                got = in_threads([lambda op=op: calls.api(op) for op in ops])
            for op, a, b in zip(ops, got, want):
                if a != b:
                    fail('result of a call that depends on those made in '
                         'other threads', call=op, got=a, expected=b)
        equal(snapshot('.'), before, 'files')


def strategy():
    from hypothesis import strategies as st
    prof = G.Profile(cmds=G.COMMANDS, max_blocks=3, max_toks=3)
    b = st.booleans()
    op = st.fixed_dictionaries({
        'op': st.sampled_from(('call',) * 7 + ('edit', 'swap', 'events')),
        'name': st.sampled_from(('md2po', 'po2md', 'mdpo2html', 'md2po2md')),
        'cli': b, 'alias': b, 'events': b, 'debug': st.sampled_from((False, False, True)),
        'fails': st.sampled_from((False, False, False, True)),
        'n': st.integers(0, 200)})
    return st.fixed_dictionaries({
        'docs': st.lists(G.docs(prof), min_size=3, max_size=3),
        'ops': st.lists(op, min_size=1, max_size=8), 'aliases': b,
        'file_events': b, 'environ': st.integers(0, 3),
        'bits': st.lists(b, min_size=1, max_size=3)})


SUITES = [Suite('histories', strategy, check, quick=5000),
          Suite('threads', strategy, check_threads, quick=2500)]
