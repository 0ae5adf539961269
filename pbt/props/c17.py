"""C17: the programs do what the API does with the same options."""
import contextlib
import os
import re
import subprocess
import sys

from .. import htmlcmp as H
from .. import mdgen as G
from ..core import Suite, call, captured, cli, equal
from ..translation import plan
from ..util import (
    RUNS,
    extract,
    make_po,
    markdown_pofile_to_html,
    markdown_to_pofile_to_markdown,
    padded,
    translate,
    write,
)
from .c06 import chooser

PROPERTY = 'C17'
RULE = ('cases are documents, PO files and sets of options run through a '
        'program and through the function of the API that it documents, in '
        'twin directories: results, output and every file must be equal. '
        'Non-trivial: at least three options are used.')

EVENTS = '''
def no_alpha(self, block, text):
    return 'alpha' not in text

def no_headings(self, block, details):
    return block.name != 'H'

def upper(self, msgid, *args):
    return len(msgid) % 2 == 0

class Events:
    @staticmethod
    def no_beta(self, block, text):
        return 'beta' not in text
'''
EVENT = (('text', 'ev.py::no_alpha'), ('enter_block', 'ev.py::no_headings'),
         ('text', 'ev.py::Events.no_beta'), ('msgid', 'ev.py::upper'))
EXTENSIONS = (['tables'], ['collapse_whitespace', 'tables'],
              ['strikethrough', 'latex_math_spans', 'wikilinks', 'tables'],
              ['permissive_autolinks', 'no_indented_code_blocks'])
METADATA = ({'Language': 'es'}, {'Language': 'ca', 'X-A': 'b: c'})


def snapshot():
    found = {}
    for where, _, files in os.walk('.'):
        for f in files:
            if '__pycache__' in where:
                continue
            path = os.path.join(where, f)
            with open(path, 'rb') as fh:
                found[path] = fh.read()
    return found


def common(o):
    """Options of every program."""
    args, kw = [], {}
    if o.get('aliases'):
        args += ['--command-alias', 'mdpo-off:mdpo-disable-next-block']
        kw['command_aliases'] = {'mdpo-off': 'disable-next-block'}
    if o.get('po_encoding'):
        args += ['--po-encoding', 'utf-8']
        kw['po_encoding'] = 'utf-8'
    if o.get('check'):
        args.append('--check')
    return args, kw


def parsing(o, args, kw, events=True):
    if events and o.get('events'):
        name, path = EVENT[o['events'] - 1]
        args += ['-e', f'{name}: {path}']
        kw['events'] = {name: path}
    if o.get('debug'):
        args.append('-D')
        kw['debug'] = True
    if o.get('md_encoding'):
        args += ['--md-encoding', 'utf-8']
        kw['md_encoding'] = 'utf-8'


def extraction(o, args, kw):
    if o.get('no_location'):
        args.append('--no-location')
        kw['location'] = False
    if o.get('include_codeblocks'):
        args.append('-c')
        kw['include_codeblocks'] = True
    if o.get('extensions'):
        kw['extensions'] = EXTENSIONS[o['extensions'] - 1]
        for x in kw['extensions']:
            args += ['-x', x]


def md2po(case, o):
    args, kw = common(o)
    parsing(o, args, kw)
    extraction(o, args, kw)
    for name, option in (('plaintext', '--plaintext'), ('xheader', '-a'),
                         ('save', '-s')):
        if o.get(name):
            args.append(option)
            kw[name] = True
    if o.get('mode') in ('merge', 'remove'):
        args.append('-m')
        kw['mark_not_found_as_obsolete'] = False
    if o.get('mode') == 'remove':
        args.append('-r')
        kw['preserve_not_found'] = False
    if o.get('po') or o.get('save'):
        args += ['-p', 'es.po' if o.get('po') else 'new.po']
        kw['po_filepath'] = args[-1]
    if o.get('mo'):
        args += ['--mo-filepath', 'es.mo']
        kw['mo_filepath'] = 'es.mo'
    if o.get('ignore_msgids'):
        args += ['--ignore-msgids', 'ignore.txt']
        kw['ignore_msgids'] = ['alpha', 'men of war', 'beta', 'of\x85two lines']
    if o.get('metadata'):
        kw['metadata'] = METADATA[o['metadata'] - 1]
        for k, v in kw['metadata'].items():
            args += ['-d', f'{k}: {v}']
    if o.get('wrapwidth') is not None:
        args += ['--wrapwidth', o['wrapwidth']]
        kw['wrapwidth'] = o['wrapwidth']
    if o.get('ignore'):
        args += ['-i', 'b.md', '-i', 'c.md']
        kw['ignore'] = ['b.md', 'c.md']
    inp = {'file': ['a.md'], 'glob': ['*.md'], 'list': ['b.md', 'a.md'],
           'text': ['see **alpha** beta'], 'stdin': []}[case['input']]
    stdin = 'stdin *alpha*' if case['input'] == 'stdin' else None
    value = stdin or (inp[0] if len(inp) == 1 else inp)
    return inp + args, stdin, lambda: str(extract(value, **kw)), kw


def out_program(case, o, name):
    args, kw = common(o)
    if name == 'po2md':
        parsing(o, args, kw)
        if o.get('wrapwidth') is not None:
            args += ['-w', o['wrapwidth']]
            kw['wrapwidth'] = o['wrapwidth']
        fn = translate
    else:
        def fn(*a, **k):
            return call(markdown_pofile_to_html, *a, **k)
    if o.get('save'):
        args += ['-s', 'out/x' if o['save'] == 'dir' else 'x']
        kw['save'] = args[-1]
    if o.get('ignore'):
        args += ['-i', 'other.po']
        kw['ignore'] = ['other.po']
    ext = 'html' if name == 'mdpo2html' else 'md'
    inp = {'text': ['<p>alpha</p>' if ext == 'html' else 'alpha'],
           'stdin': []}.get(case['input'], ['a.' + ext])
    stdin = None
    if case['input'] == 'stdin':
        stdin = '<p>alpha</p>' if ext == 'html' else '*alpha*'
    pos = ['es.po', 'other.po'] if case['input'] == 'list' else ['*.po']
    for p in pos:
        args += ['-p', p]
    value = stdin or inp[0]
    return inp + args, stdin, lambda: fn(value, pos, **kw), kw


def md2po2md(case, o):
    args, kw = common(o)
    parsing(o, args, kw, events=False)
    extraction(o, args, kw)
    if o.get('wrapwidth') is not None:
        args += ['--md-wrapwidth', o['wrapwidth']]
        kw['md_wrapwidth'] = o['wrapwidth']
    if o.get('mode') == 'merge':
        args += ['--po-wrapwidth', '0']
        kw['po_wrapwidth'] = 0
    langs = ['es', 'fr'] if o.get('metadata') else ['es']
    args += ['-l', *langs, '-o', 'l/{lang}']
    inp = '*.md' if case['input'] == 'glob' else 'a.md'
    return [inp] + args, None, lambda: call(
        markdown_to_pofile_to_markdown, langs, inp, 'l/{lang}',
        **kw) and None, kw


def prepare(case):
    for name, doc in zip('abc', case['docs']):
        src = G.source(doc).replace('<!-- mdpo-disable-next-line ',
                                    '<!-- mdpo-off ')
        src += '\n\nmen of war\n\nmen\n\nof\x85two lines\n'
        write(name + '.md', src)
        write(name + '.html', H.render(src))
    entries, _ = plan(case['docs'][0], chooser([True, False]))
    make_po('es.po', [*entries, (None, 'old message', 'viejo')])
    make_po('other.po', [(None, 'alpha', 'omega'), (None, 'gone', '')])
    write('ev.py', EVENTS)
    write('ignore.txt', 'alpha\nmen of war\nbeta\nof\x85two lines\n')
    os.mkdir('out')


@contextlib.contextmanager
def inside(name):
    os.mkdir(name)
    with contextlib.chdir(name):
        yield


def undated(text):
    return re.sub(r'::\d+-\d+-\d+ \d+:\d+:\d+\.\d+::', '::DATE::', text)


@padded
def check(case, ctx):
    prog, o = case['program'], case['opts']
    args, stdin, api, kw = {
        'md2po': md2po, 'md2po2md': md2po2md}.get(
            prog, lambda c, o: out_program(c, o, prog))(case, o)
    if o.get('quiet'):
        args.append('-q')
    ctx.nontrivial(len(kw) >= 3)
    ctx.label(prog)
    for k in kw:
        ctx.label('option ' + k)
    with ctx.tmpdir():
        with inside('api'):
            prepare(case)
            before = snapshot()
            with captured() as (out, err):
                want = api()
            made = snapshot()
            shown = undated(out.getvalue())
        with inside('cli'):
            prepare(case)
            res = cli(RUNS[prog], args, stdin=stdin)
            equal(snapshot(), made, 'files after running the program',
                  args=args, kwargs=kw)
        if prog == 'md2po2md':
            text = ''
        else:
            equal(str(res.value), want, 'result of the program', args=args,
                  kwargs=kw)
            text = want + '\n'
            if o.get('quiet') or (prog != 'md2po' and o.get('save')):
                text = ''
        if not (o.get('quiet') and o.get('debug')):
            equal(undated(res.out), shown + text, 'standard output', args=args)
        code = 2 if o.get('check') and made != before and (
            prog == 'md2po2md' or o.get('save')) else 0
        if not (o.get('mo') and prog == 'md2po'):
            equal(res.code, code, 'exit code', args=args)


def check_process(case, ctx):
    """Real processes give the same as the functions they run."""
    prog, doc = case['program'], case['docs'][0]
    ctx.nontrivial(len(G.kinds(doc)) >= 3)
    ctx.label(prog)
    entries, _ = plan(doc, chooser([True, False]))
    with ctx.tmpdir():
        src = G.source(doc) + '\n\nñandú €\n'
        write('a.md', src)
        write('a.html', H.render(src))
        make_po('es.po', entries)
        write('ignore.txt', 'alpha\nñandú €\n')
        args = {'md2po': ['a.md', '-p', 'new.po', '-s', '--check',
                          '--ignore-msgids', 'ignore.txt'],
                'api': ['-c', 'from mdpo import *; '
                        'markdown_to_pofile_to_markdown'
                        '(["es"], "a.md", "l/{lang}")'],
                'po2md': ['a.md', '-p', 'es.po'],
                'mdpo2html': ['a.html', '-p', 'es.po'],
                'md2po2md': ['a.md', '-l', 'es', '-o', 'l/{lang}',
                             '--check']}[prog]
        env = dict(os.environ, PYTHONIOENCODING='utf-8', LANG='C', LC_ALL='C',
                   PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        if case['ascii']:  # a locale without UTF-8
            env.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        stdin = None
        if case['stdin'] and prog in ('po2md', 'mdpo2html'):
            with open(args.pop(0), 'rb') as f:
                stdin = f.read()
        res = subprocess.run(
            [sys.executable, *([] if prog == 'api' else
                               ['-m', f'mdpo.{prog}']), *args], env=env,
            input=stdin if stdin is not None else b'', capture_output=True)
        mine = snapshot()
        for path in mine:
            if path not in ('./a.md', './a.html', './es.po', './ignore.txt'):
                os.remove(path)
        if prog == 'api':
            prog, args = 'md2po2md', ['a.md', '-l', 'es', '-o', 'l/{lang}']
        same = cli(RUNS[prog], args, stdin=(stdin or b'').decode())
        equal((res.returncode, res.stdout.decode(), res.stderr.decode()),
              (same.code, same.out, same.err), 'result of the process',
              args=args)
        equal(mine, snapshot(), 'files written by the process', args=args)


def strategy():
    from hypothesis import strategies as st
    cmds = G.COMMANDS + ('mdpo-disable-next-line',) * 3
    prof = G.Profile(cmds=cmds, max_blocks=4, max_toks=3)
    b = st.booleans()
    opts = st.fixed_dictionaries({}, optional={
        **{k: b for k in ('aliases', 'po_encoding', 'check', 'debug',
                          'md_encoding', 'no_location', 'include_codeblocks',
                          'plaintext', 'xheader', 'save', 'po', 'mo',
                          'ignore_msgids', 'ignore', 'quiet')},
        'events': st.integers(0, len(EVENT)),
        'extensions': st.integers(0, len(EXTENSIONS)),
        'metadata': st.integers(0, len(METADATA)),
        'mode': st.sampled_from(('mark', 'merge', 'remove')),
        'wrapwidth': st.sampled_from(('0', '78', '30', 'inf', '-1'))})
    return st.fixed_dictionaries({
        'docs': st.lists(G.docs(prof), min_size=1, max_size=3).map(
            lambda d: (d * 3)[:3]),
        'opts': opts,
        'input': st.sampled_from(('file', 'file', 'glob', 'list', 'text',
                                  'stdin')),
        'program': st.sampled_from(('md2po', 'md2po', 'po2md', 'md2po2md',
                                    'mdpo2html'))})


def strategy_process():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'docs': st.lists(G.docs(G.Profile(cmds=G.COMMANDS)), min_size=1,
                         max_size=1),
        'stdin': st.booleans(), 'ascii': st.booleans(),
        'program': st.sampled_from(('md2po', 'po2md', 'md2po2md',
                                    'mdpo2html', 'api'))})


SUITES = [Suite('options', strategy, check, quick=12500),
          Suite('processes', strategy_process, check_process, quick=1000)]
