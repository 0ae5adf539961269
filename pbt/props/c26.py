"""C26: the way in which a document is written does not matter."""
import re

import polib

from .. import htmlcmp as H
from .. import mdgen as G
from ..core import Suite, cli, equal
from ..translation import plan
from ..util import RUNS, extract, make_po, padded, read_bytes, translate, write
from .c01 import nontrivial
from .c05 import same_meaning
from .c06 import chooser

PROPERTY = 'C26'
RULE = ('cases are generated documents and other ways to write them: marks of '
        'lists, emphasis, headings, fences and breaks, lines of paragraphs '
        'broken or joined, link references moved, indentation, blank lines, '
        'trailing spaces and newline characters. An edit counts only if '
        'md4c gives the same HTML for it. The messages, contexts and comments '
        'extracted must be the same, a PO file of one must be up to date '
        'for the other, and the translations must mean the same. '
        'Non-trivial: two blocks, two kinds of markup and two edits.')

UL = {'-': '*', '*': '+', '+': '-'}
EMPHASIS = {'*': '_', '_': '*'}


# --------------------------------------------------------------------------
# edits of the model

def new_inl(inl, how):
    if how.get('join'):
        inl = [t for t in inl if t[0] != 'n']
    out = []
    for n, tok in enumerate(inl):
        tok = list(tok)
        if n and how.get('break') and tok[0] == 't' \
                and tok[1][:1].isalpha() and tok[1].isalnum() \
                and out[-1][0] != 'n':
            out.append(['n'])
        if tok[0] in 'bi' and how.get('emphasis'):
            tok[2] = EMPHASIS.get(tok[2], tok[2])
        if tok[0] == 's' and how.get('emphasis'):
            tok[2] = 3 - tok[2]
        if tok[0] == 'c' and how.get('ticks'):
            tok[2] += 1
        if tok[0] in ('b', 'i', 's', 'a', 'r', 'U'):
            # not links: their texts can be equal to their targets
            tok[1] = new_inl(tok[1], how if tok[0] in 'bis' else dict(
                how, **{'break': False, 'join': False}))
        out.append(tok)
    return out


def new_block(b, how):
    kind = b[0]
    lines = dict(how, **{'break': False, 'join': False})
    if kind == 'h' and b[3] == '=':
        lines = dict(how)
    if kind == 'p':
        return [kind, new_inl(b[1], how), *b[2:]]
    if kind == 'h':
        style = b[3]
        if how.get('heading'):
            style = {'=': '#', '#': '##', '##': '#'}[style]
        if style != '=':
            lines['join'] = True
        return [kind, b[1], new_inl(b[2], lines), style]
    if kind in ('ul', 'ol'):
        mark = b[1]
        if how.get('lists'):
            mark = UL.get(mark) or {'.': ')', ')': '.'}[mark]
        return [kind, mark, [dict(
            item, inl=new_inl(item['inl'], how),
            sub=new_blocks(item['sub'], how)) for item in b[2]], b[3]]
    if kind == 'q':
        return [kind, new_blocks(b[1], how), *b[2:]]
    if kind == 'fence' and how.get('fence') and '`' not in b[3]:
        return [kind, {'`': '~', '~': '`'}[b[1]], b[2] + 1, *b[3:]]
    if kind == 'hr' and how.get('hr'):
        return [kind, {'*': '___', '_': '* * *'}.get(b[1][0], '***')]
    if kind == 'table':
        return [kind, b[1], [new_inl(c, lines) for c in b[2]],
                [[new_inl(c, lines) for c in row] for row in b[3]]]
    return b


def new_blocks(blocks, how):
    return [new_block(b, how) for b in blocks]


def new_doc(doc, how):
    out = dict(doc, blocks=new_blocks(doc['blocks'], how))
    if how.get('refs'):
        out['refs_first'] = not doc.get('refs_first')
    if how.get('styles'):
        out['styles'] = how['styles']
    return out


# --------------------------------------------------------------------------
# edits of the text

def edit(lines, kind, where):
    lines = list(lines)
    n = where % len(lines)
    line = lines[n]
    if kind == 'blank':
        if line.strip():
            return None
        lines.insert(n, line)
    elif kind == 'indent':
        lines[n] = ' ' * (where % 3 + 1) + line
        if re.match(r' {4,}[<\[]', lines[n]):
            return None         # code once the command before is removed
    elif kind == 'dedent':
        if not line.startswith(' '):
            return None
        lines[n] = line[1:]
    elif kind == 'trail':
        if not line or line[-1] in ' \\':
            return None
        lines[n] = line + ' '
    elif kind == 'tab':
        # indentation, after the mark of an item or a heading
        spots = [m.span() for m in re.finditer(
            r'^ {4}|(?<=^    ) {4}|(?<=^[-*+#]) |(?<=^\d[.)]) ', line)]
        if not spots:
            return None
        a, b = spots[where // len(lines) % len(spots)]
        lines[n] = line[:a] + '\t' + line[b:]
    elif kind == 'wrap':
        spots = [m.start() for m in re.finditer(' ', line)]
        if not spots or '<!--' in line or ']:' in line:
            return None
        spot = spots[where // len(lines) % len(spots)]
        if re.search(r'\[[ x]\]$', line[:spot]):
            return None         # mark of a task
        lines[n:n + 1] = [line[:spot], line[spot + 1:]]
    elif kind == 'join':
        if n + 1 == len(lines) or not line or line[-1] == ' ' \
                or '<!--' in line + lines[n + 1]:
            return None
        lines[n:n + 2] = [line + ' ' + lines[n + 1].lstrip(' ')]
    elif kind == 'command':
        if not line.strip().startswith('<!-- mdpo'):
            return None
        lines[n] = line.replace('<!-- ', '<!--').replace(' -->', '-->') \
            if where % 2 else line.replace('<!-- ', '<!--   ').replace(
                ' -->', '  -->')
    elif kind == 'pipes':
        if not re.fullmatch(r'\|.*[^\\]\|', line):
            return None
        lines[n] = line[1:-1].strip() if where % 2 else line + ' '
    elif kind == 'number':
        found = re.match(r'([ >]*)(\d+)([.)] .*)', line)
        if not found:
            return None
        a, number, b = found.groups()
        lines[n] = f'{a}{(int(number) + where) % 10}{b}'
    elif kind == 'closing':
        if not line.startswith('#'):
            return None
        lines[n] = line + ' ' + '#' * (where % 7)
    return lines


EDITS = ('blank', 'indent', 'dedent', 'trail', 'wrap', 'join', 'command',
         'pipes', 'number', 'closing', 'tab')


def rewrite(doc, case, ctx):
    """Another text that means the same."""
    src = G.source(doc)
    want = H.meaning(src)
    done = []
    for name, value in sorted(case['how'].items()):
        if not value:
            continue
        new = new_doc(doc, {name: value})
        if G.source(new) != G.source(doc) \
                and H.meaning(G.source(new)) == want:
            doc = new
            done.append(name)
    lines = G.source(doc).rstrip('\n').split('\n')
    for kind, where in case['edits']:
        if kind == 'trail' and (
                '$$' in src or 'wrap' in done and '`' in src):
            continue            # spaces of formulas and code are kept
        # in the first line where it can be done
        news = (edit(lines, kind, where + k) for k in range(len(lines)))
        new = next(filter(None, news), None)
        if new and H.meaning('\n'.join(new) + '\n') == want:
            lines = new
            done.append(kind)
    for name in done:
        ctx.label('edit:' + name)
    new = '\n'.join(lines)
    plain = '\n' * case['above'] + new + '\n' * case['below']
    other = plain.replace('\n', case['newline'])
    # md4c parses some of them otherwise depending on the offsets of the lines
    if H.meaning(plain) == H.meaning(other) == want:
        new = other
    return src, new, done


def messages(text, **kw):
    return [(e.msgctxt, e.msgid, e.comment, e.tcomment)
            for e in extract(text, **kw)]


@padded
def check(case, ctx):
    doc = case['doc']
    src, new, done = rewrite(doc, case, ctx)
    if len(done) > 1:
        nontrivial(doc, ctx)
    options = {'include_codeblocks': case['codeblocks']}
    with ctx.tmpdir():
        write('a.md', src)
        with open('b.md', 'wb') as f:
            f.write(new.encode('utf-8'))
        first = messages(src, **options)
        equal(messages(new, **options), first, 'the same document written '
              'in another way has other messages', source=src, written=new)
        equal(messages('b.md', **options), first, 'the file of the same '
              'document written in another way has other messages',
              source=src, written=new)
        chosen = chooser(case['bits'])
        entries, _ = plan(doc, chosen=chosen, include_codeblocks=case[
            'codeblocks'])
        make_po('x.po', [(*e[:2], e[2]) for e in entries])
        a = translate('a.md', 'x.po', wrapwidth=case['width'])
        b = translate('b.md', 'x.po', wrapwidth=case['width'])
        c = translate(new, 'x.po', wrapwidth=case['width'])
        same_meaning(a, b, 'the same document written in another way is '
                     'translated otherwise', original=src, written=new)
        same_meaning(a, c, 'the same document written in another way is '
                     'translated otherwise from a text', original=src,
                     written=new)


@padded
def check_update(case, ctx):
    """The PO file and the translation of a document are up to date for it."""
    doc = case['doc']
    src, new, done = rewrite(doc, case, ctx)
    if len(done) > 1:
        nontrivial(doc, ctx)
    options = ['--include-codeblocks'] * case['codeblocks']
    entries, _ = plan(doc, chooser(case['bits']), include_codeblocks=case[
        'codeblocks'])
    table = {e[:2]: e[2] for e in entries}
    with ctx.tmpdir():
        write('a.md', src)
        cli(RUNS['md2po'], ['a.md', '-p', 'x.po', '-s', '-q', *options])
        po = polib.pofile('x.po')
        for e in po:
            e.msgstr = table.get((e.msgctxt, e.msgid), '')
        po.save()
        # in its normal form
        cli(RUNS['md2po'], ['a.md', '-p', 'x.po', '-s', '-q', *options])
        before = read_bytes('x.po')
        args = ['-p', 'x.po', '-q', '-s', 'out.md', '-w', str(case['width'])]
        cli(RUNS['po2md'], ['a.md', *args])
        first = read_bytes('out.md')
        with open('a.md', 'wb') as f:
            f.write(new.encode('utf-8'))
        run = cli(RUNS['md2po'], [
            'a.md', '-p', 'x.po', '-s', '-q', '--check', *options])
        equal((run.code, run.err), (0, ''), 'PO file out of date by the way in which '
              'a document is written', source=src, written=new)
        equal(read_bytes('x.po'), before, 'PO file changed by the way in '
              'which a document is written', source=src, written=new)
        cli(RUNS['po2md'], ['a.md', *args])
        same_meaning(first.decode(), read_bytes('out.md').decode(),
                     'the same document written in another way is translated '
                     'otherwise', original=src, written=new)


def strategy(prof=None):
    from hypothesis import strategies as st
    flag = st.booleans()
    return st.fixed_dictionaries({
        'doc': G.docs(prof or G.Profile(cmds=G.COMMANDS)),
        'how': st.fixed_dictionaries({
            'join': flag, 'break': flag, 'emphasis': flag, 'ticks': flag,
            'heading': flag, 'lists': flag, 'fence': flag, 'hr': flag,
            'refs': flag, 'styles': st.lists(st.integers(0, 5), max_size=3)}),
        'edits': st.lists(st.tuples(st.sampled_from(EDITS),
                                    st.integers(0, 400)), max_size=8),
        'newline': st.sampled_from(('\n', '\n', '\r\n', '\r')),
        'above': st.integers(0, 2), 'below': st.integers(0, 2),
        'codeblocks': flag, 'width': st.sampled_from((0, 'inf', 40)),
        'bits': st.lists(flag, min_size=1, max_size=6)})


SUITES = [Suite('rewritten', strategy, check, quick=8000),
          Suite('update', strategy, check_update, quick=4000),
          Suite('deep', lambda: strategy(G.deep(cmds=G.COMMANDS)), check,
                quick=5000)]
