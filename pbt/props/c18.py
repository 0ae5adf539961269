"""C18: events see the whole parsing and skip what they are told to."""
import contextlib
import os
import re
import tempfile

import md4c

from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS

from .. import htmlcmp as H
from .. import mdgen as G
from ..core import Suite, call, captured, cli, equal, fail
from ..translation import plan
from ..util import (
    LINK_KINDS,
    RUNS,
    expected_entries,
    extract,
    keys,
    make_po,
    padded,
    translate,
    write,
)
from .c05 import same_meaning
from .c06 import chooser

PROPERTY = 'C18'
RULE = ('cases are generated documents parsed with observing and skipping '
        'event functions, given as functions, lists and file paths; calls '
        'must follow the stream of md4c, the commands, messages and link '
        'references of the document; skipped parts must be missing and '
        'observers must not change anything. Non-trivial: at least three '
        'blocks and a span, or a function that skips something.')

NAMES = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text',
         'command', 'msgid', 'link_reference')
PARSING = NAMES[:5]
FALSY = (None, 0, '', True, 1, [])


def md4c_stream(src, extensions=DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS):
    out = []

    def at(name):
        return lambda a, b: out.append(
            (name, a.name, b if name == 'text' else repr(b)))
    md4c.GenericParser(0, **dict.fromkeys(extensions, True)).parse(
        src, *map(at, PARSING))
    return out


def recorder(name, log, answer=None):
    def event(self, *args):
        if name == 'text':
            args = (args[0].name, args[1])
        elif name in PARSING:
            args = (args[0].name, repr(args[1]))
        elif name == 'msgid':
            args = (*args[:4], list(args[4]))
        log.append((name, *args))
        return answer
    return event


def commands_of(stream, aliases):
    """Comments found in HTML blocks, as command events."""
    out, html = [], False
    for name, kind, arg in stream:
        if name in ('enter_block', 'leave_block') and kind == 'HTML':
            html = name == 'enter_block'
        elif name == 'text' and html:
            m = re.search(r'<!--\s*(\S+?)(?:\s+(.*?))?\s*-->', arg, re.DOTALL)
            if m:
                out.append(('command', aliases.get(m[1], m[1]),
                            m[2] or None, m[1]))
    return out


@padded
def check_stream(case, ctx):
    doc, prog = case['doc'], case['program']
    src = G.source(doc)
    kinds = G.kinds(doc)
    ctx.nontrivial(len(doc['blocks']) >= 3 and any(
        k in kinds for k in ('inl:b', 'inl:i', 'inl:c', 'inl:a', 'inl:s')))
    log, second = [], []
    answer = FALSY[case['answer']]
    events = {}
    for n in NAMES:
        one, two = recorder(n, log, answer), recorder(n, second, answer)
        events[n] = [one, two] if case['two'] else one
    opts = {}
    if case['debug']:
        opts['debug'] = True
    if case['codeblocks'] and prog != 'po2md':
        opts['include_codeblocks'] = True
    aliases = {'note': 'mdpo-translator'} if case['alias'] else {}
    if aliases:
        opts['command_aliases'] = {'note': 'translator'}
        src = src.replace('<!-- mdpo-translator ', '<!-- note ')
    plaintext = prog == 'plaintext'
    if plaintext:
        opts['plaintext'] = True
    entries, _ = plan(doc, chooser(case['bits']),
                      include_codeblocks=False)
    with ctx.tmpdir(), captured() as (out, _err):
        make_po('es.po', entries)
        if prog == 'po2md':
            plain = translate(src, 'es.po',
                              **{**opts, 'debug': False})
            got = translate(src, 'es.po', events=events, **opts)
        else:
            plain = str(extract(src, **{**opts, 'debug': False}))
            got = str(extract(src, events=events, **opts))
        shown = out.getvalue()
    equal(got, plain, 'observers change the result', source=src, opts=opts)
    if case['two']:
        equal(second, log, 'the second function of each event gets other '
              'calls', source=src)
    want = md4c_stream(src)
    equal([e for e in log if e[0] in PARSING], want, 'parsing events',
          source=src)
    # comments that are not commands may be reported or not
    equal([e for e in log if e[0] == 'command' and e[1][:5] == 'mdpo-'],
          [c for c in commands_of(want, aliases) if c[1][:5] == 'mdpo-'],
          'command events', source=src)
    if case['debug']:
        found = re.findall(r'^\w+\[DEBUG\]::[^:]*:\d+:\d+[.\d]*::(\w+):: ', shown,
                           re.MULTILINE)
        equal(found, [e[0] for e in log], 'debugging messages', source=src)
    elif shown:
        fail('something printed', shown=shown)
    if prog == 'po2md' and not G.Walker(doc).code_after_command:
        units = [u for u in G.units(doc) if u.kind != 'include']
        # indented code may be reported or not
        equal([e for e in log if e[0] == 'msgid' and e[1].rstrip('\n')
               and not e[1].endswith('\n')],
              [('msgid', u.msgid, None, u.ctx, u.tcomment, [])
               for u in units], 'message events of po2md', source=src)
    if prog == 'md2po':
        units = G.units(doc, include_codeblocks=case['codeblocks'])
        want = [('msgid', u.msgid, '', u.ctx, u.tcomment, []) for u in units]
        refs = doc['refs'] if kinds & LINK_KINDS else []
        want += [('msgid', r, r, None, None, ['fuzzy'])
                 for r in map(G.ref_msgid, refs)]
        equal([e for e in log if e[0] == 'msgid' and e[1]], want,
              'message events', source=src)
        equal([e[1:] for e in log if e[0] == 'link_reference'],
              [tuple(r) for r in refs], 'link reference events', source=src)


def unwrap(inl, kind):
    out = []
    for t in inl:
        if t[0] in ('b', 'i', 's', 'a', 'r'):
            t = [t[0], unwrap(t[1], kind), *t[2:]]
        if t[0] == kind:
            out.extend(t[1])
        else:
            out.append(t)
    return out


SPANS = {'b': md4c.SpanType.STRONG, 'i': md4c.SpanType.EM,
         's': md4c.SpanType.DEL}


def pick(case):
    """A predicate over strings that depends only on the string."""
    salt, mod = case['salt'], case['mod']
    return lambda s: (sum(map(ord, s)) + salt) % mod == 0


@padded
def check_skip(case, ctx):
    doc, what, chosen = case['doc'], case['what'], pick(case)
    src = G.source(doc)
    ctx.label('skipping ' + what)
    skipped = []

    def skip(cond, name):
        if cond:
            skipped.append(name)
            return False
        return None

    if what == 'msgid':
        events = {what: lambda self, m, *a: skip(m and chosen(m), m)}
        want = [e[:3] for e in expected_entries(
            doc, include_codeblocks=False) if not chosen(e[1])]
    elif what == 'command':
        events = {what: lambda self, c, *a: skip(chosen(c), c)}
        new = dict(doc, blocks=[b for b in doc['blocks'] if b[0] != 'cmd'
                                or not chosen(b[1])])
        want = [e[:3] for e in expected_entries(
            new, include_codeblocks=False)]
    elif what == 'link_reference':
        events = {what: lambda self, t, *a: skip(chosen(t), t)}
        want = [e[:3] for e in expected_entries(
            doc, refs=False, include_codeblocks=False)]
        seen = {e[:2] for e in want}
        if G.kinds(doc) & LINK_KINDS:
            for r in doc['refs']:
                key = (None, G.ref_msgid(r))
                if not chosen(r[0]) and key not in seen:
                    want.append((*key, None))
                    seen.add(key)
    elif what == 'text':
        # nothing is left to extract
        events = {what: lambda self, *a: skip(True, '')}
        want = []
        if G.kinds(doc) - {'inl:t', 'inl:p', 'inl:n',
                           'blk:p', 'blk:h', 'blk:hr', 'blk:cmd', 'blk:html',
                           'blk:q', 'inl:nested'}:
            return
    else:
        def span(self, kind, details):
            return skip(kind is SPANS[what], what)
        events = {'enter_span': span, 'leave_span': span}
        doc = G.map_units(doc, lambda u, inl: unwrap(inl, what),
                          lambda u, lines: None)
        want = [e[:3] for e in expected_entries(
            doc, include_codeblocks=False)]
    if case['beside']:
        # another function of the same event that does not skip
        name = next(iter(events))
        first, last = [], []
        events[name] = [lambda *a: first.append(1), events[name],
                        lambda *a: last.append(1)]
    got = extract(src, events=events)
    if case['beside']:
        equal(len(last), len(first), 'calls of the function after the one '
              'that skips', source=src, skipped=skipped)
    ctx.nontrivial(bool(skipped))
    equal([(e.msgctxt, e.msgid, e.comment or None) for e in got], want, 'messages extracted skipping events of '
          + what, source=src, skipped=skipped)


def check_skip_spans(case, ctx):
    """The marks of skipped spans are not part of messages nor written."""
    doc, what = case['doc'], case['what']
    src = G.source(doc)
    bare = G.map_units(doc, lambda u, inl: unwrap(inl, what),
                       lambda u, lines: None)
    entries, new = plan(bare, chooser([True, True, False]),
                        include_codeblocks=False)
    seen = []

    def span(self, kind, details):
        seen.append(kind)
        return kind is not SPANS[what]
    with ctx.tmpdir():
        make_po('es.po', entries)
        out = translate(src, 'es.po', wrapwidth=0, events={
            'enter_span': span, 'leave_span': [span, span][case['beside']:]
            or span})
    ctx.label('skipping ' + what)
    ctx.nontrivial(SPANS[what] in seen)
    same_meaning(G.source(new), out, 'translation skipping spans', original=src)
    for kw in ({}, {'location': False}):
        # they are not part of plain texts
        one, two = extract(src, plaintext=True, **kw), extract(
            src, plaintext=True, events={'enter_span': span}, **kw)
        equal([(e.msgctxt, e.msgid) for e in two],
              [(e.msgctxt, e.msgid) for e in one],
              'plain texts skipping spans', source=src)


@padded
def check_skip_po2md(case, ctx):
    """Skipped messages are not written; skipped commands do nothing."""
    doc, what, chosen = case['doc'], case['what'], pick(case)
    src = G.source(doc)
    entries, _ = plan(doc, chooser([True, True, False]),
                      include_codeblocks=False)
    new = dict(doc, blocks=[b for b in doc['blocks'] if b[0] != 'cmd'])
    skipped = []
    if what in SPANS:
        check_skip_spans(case, ctx)
        return

    def event(self, value, *a):
        if what == 'command' or chosen(value):
            skipped.append(value)
            return False
        return None

    with ctx.tmpdir():
        make_po('es.po', entries)
        events, first, last = event, [], []
        if case['beside']:
            events = [lambda *a: first.append(1), event,
                      lambda *a: last.append(1)]
        out = translate(src, 'es.po', wrapwidth=0, events={what: events})
        equal(len(last), len(first), 'calls of the function after the one '
              'that skips', source=src, skipped=skipped)
        if what == 'command':
            want = translate(G.source(new), 'es.po', wrapwidth=0)
        else:
            want = translate(src, 'es.po', wrapwidth=0)
    ctx.label('skipping ' + what)
    ctx.nontrivial(bool(skipped))
    if what == 'command':
        a, b = H.meaning(out), H.meaning(want)
        equal([t for t in a if t[0] != 'k'], [t for t in b if t[0] != 'k'],
              'translation skipping every command', source=src)
    elif what == 'link_reference':
        equal([line for line in out.split('\n') if line],
              [line for line in want.split('\n') if line and not any(
                  line.startswith(f'[{r[0]}]: ') for r in doc['refs']
                  if chosen(r[0]))],
              'translation skipping link references', source=src,
              skipped=skipped)
    else:
        trs = {(c, m): s for c, m, s in (e[:3] for e in entries)}
        left = [u for u in G.units(doc) if not chosen(u.msgid)]
        want = [trs.get(u.key(), u.msgid) if u.enabled else u.msgid
                for u in left]
        got = [b.lstrip('# ') for b in re.split(r'\n{2,}', out.strip('\n'))
               if b.strip('# ') and not b.startswith('***')]
        refs = ['[' + r[0] + ']: ' for r in doc['refs']]
        got = [x for x in got if not any(x.startswith(r) for r in refs)]
        equal([x for x in got if not x.startswith('<!--')], want,
              'translation skipping messages', source=src, skipped=skipped)


FILE = '''
import os
calls = []

def keep(self, *args):
    calls.append(args[0])

def skip(self, *args):
    return not str(args[0]).startswith({word!r})

class Owner:
    @staticmethod
    def skip(self, *args):
        return not str(args[0]).startswith({word!r})
'''


@padded
def check_files(case, ctx):
    doc, word = case['doc'], case['word']
    src = G.source(doc)
    ctx.label('file ' + case['file'])
    # modules are loaded once, as with import: other directory each time
    with ctx.tmpdir(), tempfile.TemporaryDirectory(dir='.') as unique, \
            contextlib.chdir(unique):
        path = case['file']
        write(path, FILE.format(word=word))
        if case['absolute']:
            path = os.path.abspath(path)
        where = f'{path}::' + ('Owner.skip' if case['method'] else 'skip')

        def direct(self, *args):
            return not str(args[0]).startswith(word)
        funcs = {'string': where, 'list': [where],
                 'mixed': [f'{path}::keep', where, lambda *a: None],
                 }[case['form']]
        with_file = extract(src, events={'msgid': funcs})
        want = extract(src, events={'msgid': direct})
        ctx.nontrivial(str(want) != str(extract(src)))
        equal(str(with_file), str(want), 'events in a file differ from '
              'functions', path=path, source=src)
        # the same through the programs, with two functions of the event
        write('doc.md', src)
        given = [f'{path}::keep', where][::case['order']]
        args = ['doc.md']
        for x in given:
            args += ['-e', f'msgid:{" " * case["spaces"]}{x}']
        args += ['-e', f'command: {path}::keep']
        res = cli(RUNS['md2po'], [*args, '--no-location'])
        equal((res.code, str(res.value)), (0, str(extract(
            'doc.md', events={'msgid': direct}, location=False))),
            'events given to md2po', args=args, source=src)
        make_po('x.po', [(None, e.msgid, e.msgid + '!') for e in extract(src)])
        res = cli(RUNS['po2md'], [*args, '-p', 'x.po'])
        equal((res.code, res.value), (0, translate(
            'doc.md', 'x.po', events={'msgid': direct})),
            'events given to po2md', args=args, source=src)
        bad = 'msgid ' + where.replace(':', '')
        res = cli(RUNS['md2po' if case['method'] else 'po2md'],
                  ['doc.md', '-p', 'x.po', '-e', bad])
        equal((res.code, bad in res.err, res.out), (1, True, ''),
              'event without a colon', err=res.err)
        # errors
        for wrong, exc, words in (
                (path, ValueError, (path, 'msgid')),
                (f'{path}::missing', ValueError, (path, 'msgid', 'missing')),
                (f'{path}::Missing.f', ValueError, (path, 'Missing')),
                (f'{path}::Owner.missing', ValueError, (path, 'missing')),
                ('no-' + path.replace('/', '-') + '::f', FileNotFoundError,
                 ('not found',))):
            try:
                call_it = extract if case['method'] else translate
                args = (src,) if case['method'] else (src, [])
                call_raw(call_it, *args, events={'msgid': wrong})
            except exc as e:
                for w in words:
                    if w not in str(e):
                        fail('error without details', error=str(e), missing=w)
            else:
                fail('wrong event accepted', event=wrong)


def call_raw(fn, *args, **kw):
    from mdpo import markdown_to_pofile, pofile_to_markdown
    fn = markdown_to_pofile if fn is extract else pofile_to_markdown
    return fn(*args, **kw)


def strategy_stream():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(cmds=G.COMMANDS + ('mdpo-include',),
                                no=('raw',))),
        'program': st.sampled_from(('md2po', 'md2po', 'po2md', 'plaintext')),
        'answer': st.integers(0, len(FALSY) - 1), 'two': st.booleans(),
        'debug': st.sampled_from((False, False, True)),
        'codeblocks': st.booleans(),
        'alias': st.booleans(),
        'bits': st.lists(st.booleans(), min_size=1, max_size=4)})


def skip_strategy(whats, **prof):
    def strategy():
        from hypothesis import strategies as st
        return st.fixed_dictionaries({
            'doc': G.docs(G.Profile(**prof)),
            'what': st.sampled_from(whats),
            'salt': st.integers(0, 5), 'mod': st.integers(1, 4),
            'beside': st.integers(0, 2)})
    return strategy


def strategy_files():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(blk='h hr q'.split(), inl='b i c'.split(),
                                max_blocks=4)),
        'word': st.sampled_from(('alpha', 'B', 'c', 'the', '')),
        'file': st.sampled_from(('ev.py', 'ev.py', 'json.py', 'a/ev.py',
                                 'os.py', 'mdpo/text.py', 'dir.d/my.ev.py'
                                 )),
        'absolute': st.booleans(), 'method': st.booleans(),
        'order': st.sampled_from((1, -1)), 'spaces': st.integers(0, 2),
        'form': st.sampled_from(('string', 'list', 'mixed'))})


CONTEXT = ('mdpo-context', 'mdpo-translator')
SUITES = [
    Suite('stream', strategy_stream, check_stream, quick=10000),
    Suite('skip', skip_strategy(
        ('msgid', 'msgid', 'link_reference', 'text', 'b', 'i', 's'),
        no=('alt',),
        cmds=CONTEXT), check_skip, quick=10000),
    Suite('skip-commands', skip_strategy(
        ('command',), cmds=G.COMMANDS + ('mdpo-include',)), check_skip,
        quick=4000),
    Suite('skip-po2md', skip_strategy(
        ('command', 'msgid', 'msgid', 'link_reference', 'b', 'i', 's'),
        cmds=CONTEXT, inl='b i c s a r p'.split(), blk='h hr refs'.split()),
        check_skip_po2md, quick=6000),
    Suite('files', strategy_files, check_files, quick=4000),
]
