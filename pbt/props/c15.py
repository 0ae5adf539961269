"""C15: lint options report exactly the entries that they look for."""
import polib

from mdpo.po import (
    check_empty_msgstrs_in_filepaths,
    check_fuzzy_entries_in_filepaths,
    check_obsolete_entries_in_filepaths,
)

from ..core import Suite, call, cli, equal
from ..util import RUNS, read, write

PROPERTY = 'C15'
RULE = ('cases are generated PO files (translated, empty, fuzzy, obsolete and '
        'long entries, in several layouts) checked with generated sets of '
        'lint options through the four programs; reported lines and exit '
        'codes are those of a writer that knows the line of each entry. '
        'Non-trivial: a PO file has entries to report and entries not to.')

KINDS = ('obsolete', 'fuzzy', 'empty')
MANY = {'obsolete': 'obsolete entries', 'fuzzy': 'fuzzy entries',
        'empty': 'empty msgstrs'}
ONE = {'obsolete': 'obsolete entry', 'fuzzy': 'fuzzy entry',
       'empty': 'empty msgstr'}
OPTION = {'obsolete': '--no-obsolete', 'fuzzy': '--no-fuzzy',
          'empty': '--no-empty-msgstr'}
CODE = {'obsolete': 3, 'fuzzy': 4, 'empty': 5}
FUNC = {'obsolete': check_obsolete_entries_in_filepaths,
        'fuzzy': check_fuzzy_entries_in_filepaths,
        'empty': check_empty_msgstrs_in_filepaths}


FIELD = '"Content-Type: text/plain; charset=utf-8\\n"'
HEADERS = (
    '',
    f'#\nmsgid ""\nmsgstr ""\n{FIELD}',
    f'msgid ""\nmsgstr ""\n{FIELD}',
    'msgid ""\nmsgstr ""',
    '#\nmsgid ""\nmsgstr ""',
    '# Team\n# of translators\n#\nmsgid ""\nmsgstr ""',
    '\n\n# Title\n\nmsgid ""\nmsgstr ""',
    f'# Team\n#\n#. note\n#\nmsgid ""\nmsgstr ""\n{FIELD}\n{FIELD}',
    f'# Team\nmsgid ""\nmsgstr {FIELD}',
)


def layout(po):
    """Text of a PO file, and the lines to report of each kind."""
    lines = HEADERS[po['header']].split('\n') if po['header'] else []
    found = {k: [] for k in KINDS}
    for e in po['entries']:
        if lines and (not po['compact'] or po['blank'] > 1):
            lines += [''] * po['blank']
        entry = polib.POEntry(
            msgid=e['msgid'], msgstr=e['msgstr'], msgctxt=e['msgctxt'],
            obsolete=e['obsolete'], flags=list(e['flags']),
            tcomment=e['tcomment'])
        if not e['obsolete']:
            entry.occurrences = [('doc.md', '')] * e['where']
        text = entry.__unicode__(wrapwidth=po['width']).rstrip('\n')
        new = text.split('\n')
        n = len(lines) + 1
        if e['obsolete']:
            found['obsolete'].append(n + next(
                k for k, ln in enumerate(new) if ln.startswith('#~')))
        if 'fuzzy' in e['flags']:
            found['fuzzy'].append(n + next(
                k for k, ln in enumerate(new) if ln.startswith('#,')))
        if not e['msgstr']:
            found['empty'].append(n + len(new) - 1)
        lines += new
    return (po['eol'].join(lines) + po['eol'] * po['end']), found


def check(case, ctx):
    unique = [dict(po, entries=list({
        (e['msgctxt'], e['msgid']): e for e in po['entries']}.values()))
        for po in case['pos']]
    prog, kinds = case['program'], case['kinds']
    if prog == 'md2po':
        unique = unique[:1]
    texts = [layout(po) for po in unique]
    names = [f'{n}.po' for n in range(len(texts))]
    want = {k: [f'{n}:{ln}' for n, (_, found) in zip(names, texts)
                for ln in found[k]] for k in KINDS}
    total = sum(len(po['entries']) for po in unique)
    ctx.nontrivial(any(0 < len(want[k]) < total for k in kinds))
    ctx.label(prog)
    with ctx.tmpdir():
        for name, (text, _) in zip(names, texts):
            write(name, text)
            # the writer above makes valid files
            polib.pofile(name)
        for k in KINDS:
            equal(list(call(FUNC[k], names)), want[k],
                  f'{k} entries found', texts=texts)
        opts = [OPTION[k] for k in kinds]
        if prog == 'md2po':
            args = ['text', '-p', names[0], '-q', *opts]
            if case['ignore']:
                res = cli(RUNS[prog], ['text', '-q', *opts])
                equal((res.code, res.err), (0, ''),
                      'exit code and report without a file', args=opts)
        elif prog == 'po2md':
            args = ['text', '-p', *names, '-q', *opts]
        else:
            args = ['<p>text</p>', '-p', *names, '-q', *opts]
        if prog != 'md2po' and case['ignore']:
            args += ['-i', names[-1]]
            want = {k: [w for w in v if not w.startswith(names[-1])]
                    for k, v in want.items()}
        code = case['check'] and 2
        if case['check']:
            args += ['--check']
            if prog == 'md2po':
                code = 0
            else:
                args += ['-s', 'out']
        res = cli(RUNS[prog], args)
        equal((res.code, res.err), report(want, kinds, int(code)),
              'exit code and report',
              program=prog, args=args, texts=texts)
        for name, (text, _) in zip(names, texts):
            equal(read(name), text, 'a lint option changes the file')


def report(want, kinds, code):
    err = ''
    for k in KINDS:
        if k in kinds and want[k]:
            code = CODE[k]
            if len(want[k]) > 2:
                err += f'Found {len(want[k])} {MANY[k]}:\n' + ''.join(
                    w + '\n' for w in want[k])
            else:
                err += ''.join(f'Found {ONE[k]} at {w}\n' for w in want[k])
    return code, err


def check_written(case, ctx):
    """Programs that write the PO file check what they have written."""
    kinds = case['kinds']
    opts = [OPTION[k] for k in kinds]
    text, _ = layout(dict(case['po'], entries=list({
        (e['msgctxt'], e['msgid']): e
        for e in case['po']['entries']}.values())))
    write_md = '\n\n'.join(['text', *case['md']]) + '\n'
    with ctx.tmpdir():
        path = 'es/doc.md.po'
        write(path, text)
        write('doc.md', write_md)
        if case['program'] == 'md2po2md':
            args = ['doc.md', '-l', 'es', '-o', '{lang}', *opts]
        else:
            args = ['doc.md', '-p', path, '-s', '-q', *opts]
        if case['check']:
            args.append('--check')
        before = read(path)
        res = cli(RUNS[case['program']], args)
        changed = case['program'] == 'md2po2md' or read(path) != before
        want = {k: list(FUNC[k]([path])) for k in KINDS}
        entries = list(polib.pofile(path))
        equal({k: len(v) for k, v in want.items()}, {
            'obsolete': sum(bool(e.obsolete) for e in entries),
            'fuzzy': sum('fuzzy' in e.flags for e in entries),
            'empty': sum(not e.msgstr for e in entries)},
            'number of entries found', text=read(path))
        equal((res.code, res.err),
              report(want, kinds, 2 if case['check'] and changed else 0),
              'exit code and report', args=args, text=read(path))
    ctx.nontrivial(any(0 < len(want[k]) < len(entries) for k in kinds))


def strategy_written():
    from hypothesis import strategies as st
    s = strategy().map(lambda c: {
        # polib takes comments at the start of a file without header as its own
        'po': dict(c['pos'][0], header=c['pos'][0]['header'] or 1),
        'kinds': c['kinds'], 'check': c['check']})
    return st.tuples(s, st.sampled_from(('md2po', 'md2po2md')), st.lists(
        st.sampled_from(('Hello', 'fuzzy', 'new', '#~ x')), unique=True)).map(
            lambda t: dict(t[0], program=t[1], md=t[2]))


def strategy():
    from hypothesis import strategies as st
    entry = st.fixed_dictionaries({
        'msgid': st.one_of(
            st.sampled_from(('Hello', 'fuzzy', 'msgstr ""', '#~ x',
                             'a long message that is wrapped by the writer '
                             'when it is more than the width', '"', '\n',
                             'two\nlines\n')),
            st.text('ab "\\\n#,~', min_size=1, max_size=12)),
        'msgstr': st.sampled_from(('', '', 'x', 'fuzzy', '"', 'msgstr ""',
                                   'several words that are long enough to be '
                                   'wrapped', '\nafter', 'two\nlines')),
        'msgctxt': st.sampled_from((None, None, 'menu', 'fuzzy')),
        'obsolete': st.booleans(),
        'flags': st.sampled_from(([], [], ['fuzzy'], ['python-format'],
                                  ['python-format', 'fuzzy'])),
        'tcomment': st.sampled_from(('', '', 'note', 'fuzzy', ', fuzzy ',
                                     'msgstr ""')),
        'where': st.integers(0, 1)})
    po = st.fixed_dictionaries({
        'entries': st.lists(entry, max_size=6), 'width': st.sampled_from(
            (78, 30, 1000)), 'blank': st.sampled_from((1, 1, 2)),
        'header': st.integers(0, len(HEADERS) - 1),
        'compact': st.booleans(), 'end': st.sampled_from((1, 1, 0, 2)),
        'eol': st.sampled_from(('\n', '\n', '\r\n'))})
    return st.fixed_dictionaries({
        'pos': st.lists(po, min_size=1, max_size=3),
        'program': st.sampled_from(('md2po', 'po2md', 'mdpo2html')),
        'kinds': st.lists(st.sampled_from(KINDS), unique=True, max_size=3),
        'check': st.booleans(), 'ignore': st.booleans()})


SUITES = [Suite('lint', strategy, check, quick=32000),
          Suite('written', strategy_written, check_written, quick=12000)]
