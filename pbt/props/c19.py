"""C19: programs work on exactly the files selected and not ignored."""
import fnmatch
import os

from mdpo.io import filter_paths

from ..core import Suite, call, cli, equal
from ..util import (
    RUNS,
    extract,
    make_po,
    markdown_pofile_to_html,
    md2po_run,
    read,
    translate,
    write,
)

PROPERTY = 'C19'
RULE = ('cases are trees of files selected by generated paths and globs, with '
        'generated lists of files, file names and directories to ignore; a '
        'model written apart tells the files that each program must use. '
        'Non-trivial: some of the files are selected and others not, and '
        'something is ignored.')

DIRS = ('', '', 'a', 'b', 'a/b', 'd d')
NAMES = ('x', 'y', 'i', 'z[1]', 'ñ', '[id]', 'x.y', 'a', 'x*', '?')
PATTERNS = ('*.{e}', '*/*.{e}', 'a/*.{e}', '**/*.{e}', 'x.*', '[xy].{e}',
            './*.{e}', 'a/b/*.{e}', '?.{e}', '*/*/*.{e}', 'nothing*.{e}',
            'b/../*.{e}', 'x.{e}', 'a/x.{e}')


def glob_like(pattern, paths):
    """Paths matched by a glob, with the spelling that it gives them."""
    out = []
    for p in paths:
        parts, pats = p.split('/'), pattern.split('/')
        prefix = ''
        if pats[0] == '.':
            prefix, pats = './', pats[1:]
        elif pats[:2] == ['b', '..']:
            if not any(q.startswith('b/') for q in paths):
                continue
            prefix, pats = 'b/../', pats[2:]
        if len(parts) == len(pats) and all(
                fnmatch.fnmatchcase(a, b) for a, b in zip(parts, pats)):
            out.append(prefix + p)
    return out


def select(patterns, paths, ignore):
    chosen = []
    for pattern in patterns:
        for p in [pattern] if pattern in paths else glob_like(pattern, paths):
            head, _, tail = p.rpartition('/')
            ignored = {p, tail, head, head.rpartition('/')[2]}
            if not ignored & set(ignore):
                chosen.append(p)
    return sorted(chosen)


def patterns_of(case, paths, ext):
    out = []
    for kind, n in case['patterns']:
        if kind == 'path' and paths:
            out.append(paths[n % len(paths)])
        else:
            out.append(PATTERNS[n % len(PATTERNS)].format(e=ext))
    return out


def ignored_of(case, paths, base=''):
    out = []
    for kind, n in case['ignore']:
        p = paths[n % len(paths)]
        head, _, tail = p.rpartition('/')
        value = {'path': p, 'name': tail, 'dir': head.rpartition('/')[2],
                 'dirpath': head, 'none': 'no-' + p,
                 'part': tail[:1], 'parent': head.partition('/')[0]}[kind]
        if value:
            if base and kind in ('path', 'dirpath', 'parent'):
                value = base + '/' + value
            out.append(value)
    return out


def tree(case, ext):
    return list(dict.fromkeys(
        (DIRS[d % len(DIRS)] + '/' if DIRS[d % len(DIRS)] else '')
        + f'{NAMES[n % len(NAMES)]}.{ext}' for d, n in case['files']))


def check_markdown(case, ctx):
    with ctx.tmpdir() as here:
        paths = tree(case, 'md')
        for p in paths:
            write(p, f'from {p}\n\nshared text\n')
        pats = patterns_of(case, paths, 'md')
        ignore = ignored_of(case, paths, here if case['absolute'] else '')
        known = paths
        if case['absolute']:
            if any('b/..' in p or p[0] == '.' for p in pats):
                return
            pats = [os.path.join(here, p) for p in pats]
            known = [os.path.join(here, p) for p in paths]
        want = select(pats, known, ignore)
        messages = list(dict.fromkeys(os.path.relpath(p, here) for p in want))
        ctx.nontrivial(0 < len(messages) < len(paths) and bool(ignore))
        value = pats[0] if case['single'] and len(pats) == 1 else pats
        if isinstance(value, str) and not select([value], known, []):
            return  # taken as content
        equal(call(filter_paths, list(want), ignore), want, 'filtered again')
        po = extract(value, ignore=ignore)
        got = [e.msgid for e in po if e.msgid.startswith('from')]
        equal(got, [f'from {m}' for m in messages], 'files extracted',
              files=paths, patterns=value, ignore=ignore)
        if want:
            where = [e.occurrences[0][0] for e in po][:len(set(want)) + 1]
            equal(where[:1], [want[0]],
                  'location of the first message', patterns=value)
            if not os.path.exists(want[0]):
                raise AssertionError('wrong model')
        args = list(pats)
        for x in ignore:
            args += ['-i', x]
        res = cli(md2po_run, [*args, '-q'])
        equal([e.msgid for e in res.value if e.msgid.startswith('from')]
              if res.value is not None else [], got,
              'files extracted by the CLI', files=paths, args=args)


def check_po(case, ctx):
    with ctx.tmpdir() as here:
        paths = tree(case, 'po')
        for p in paths:
            os.makedirs(os.path.dirname(p) or '.', exist_ok=True)
            make_po(p, [(None, f'from {p}', f'seen {p}'),
                        (None, 'last', f'last {p}')])
        pats = patterns_of(case, paths, 'po')
        if case['absolute'] and any('b/..' in p or p[0] == '.' for p in pats):
            return
        ignore = ignored_of(case, paths, here if case['absolute'] else '')
        known = paths
        if case['absolute']:
            pats = [os.path.join(here, p) for p in pats]
            known = [os.path.join(here, p) for p in paths]
        used = {os.path.relpath(p, here) for p in select(pats, known, ignore)}
        if not used:
            ctx.label('nothing selected')
        ctx.nontrivial(0 < len(used) < len(paths) and bool(ignore))
        lines = [('seen ' if p in used else 'from ') + p for p in paths]
        value = pats[0] if case['single'] and len(pats) == 1 else pats
        args = []
        for x in pats:
            args += ['-p', x]
        for x in ignore:
            args += ['-i', x]
        if case['html']:
            src = ''.join(f'<p>from {p}</p>\n' for p in paths)
            want = ''.join(f'<p>{line}</p>\n' for line in lines)
            got = call(markdown_pofile_to_html, src, value, ignore=ignore)
            prog = 'mdpo2html'
        else:
            src = '\n\n'.join(f'`from {p}`' for p in paths) + '\n'
            src = src.replace('`', '')
            src = '\n\n'.join('# ' + line for line in src.split('\n\n'))
            want = '\n\n'.join('# ' + line for line in lines) + '\n'
            want = want.replace('[', '[')
            got = translate(src, value, ignore=ignore)
            prog = 'po2md'
        info = dict(files=paths, patterns=pats, ignore=ignore)
        equal(got.rstrip('\n'), want.rstrip('\n'), 'PO files used', **info)
        res = cli(RUNS[prog], [src, *args, '-q'])
        equal(res.value.rstrip('\n'), want.rstrip('\n'),
              'PO files used by the CLI', **info)
        same = translate('last', value, ignore=ignore).strip()
        if not used:
            equal(same, 'last', 'translated without PO files', **info)
        elif same[5:] not in used:
            equal(same, 'last of one of the files', 'shared message', **info)


def check_md2po2md(case, ctx):
    """Outputs are made for the files of the glob, and only for them."""
    with ctx.tmpdir():
        paths = tree(case, 'md')
        for p in paths:
            write(p, f'from {p}\n')
        pat = patterns_of(case, paths, 'md')[0]
        want = select([pat], paths, [])
        if not want:
            return
        names = {os.path.basename(p) for p in want}
        ctx.nontrivial(0 < len(want) < len(paths))
        res = cli(RUNS['md2po2md'], [pat, '-l', 'es', '-o', 'OUT/{lang}'])
        equal(res.code, 0, 'exit code')
        made = sorted(os.listdir('OUT/es'))
        equal(made, sorted([*names, *(n + '.po' for n in names)]),
              'files written', files=paths, pattern=pat)
        for n in names:
            sources = [f'from {p}\n' for p in paths
                       if os.path.basename(p) == n]
            if read('OUT/es/' + n) not in sources:
                equal(read('OUT/es/' + n), sources, 'content of ' + n)


def strategy():
    from hypothesis import strategies as st
    n = st.integers(0, 40)
    return st.fixed_dictionaries({
        'files': st.lists(st.tuples(n, n), min_size=1, max_size=7),
        'patterns': st.lists(st.tuples(st.sampled_from(
            ('glob', 'glob', 'path')), n), min_size=1, max_size=3),
        'ignore': st.lists(st.tuples(st.sampled_from(
            ('path', 'name', 'dir', 'dirpath', 'none', 'part', 'parent')), n),
            max_size=3),
        'single': st.booleans(),
        'absolute': st.sampled_from((False, False, True)),
        'html': st.booleans()})


SUITES = [Suite('markdown', strategy, check_markdown, quick=18000),
          Suite('po', strategy, check_po, quick=15000),
          Suite('md2po2md', strategy, check_md2po2md, quick=6000)]
