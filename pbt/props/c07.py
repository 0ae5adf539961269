"""C07: the wrap width changes where lines break, and nothing else."""
from .. import htmlcmp as H
import re

from .. import mdgen as G
from ..core import Suite, equal, expect
from ..translation import plan
from ..util import make_po, padded, translate
from .c05 import same_meaning

PROPERTY = 'C07'
RULE = ('cases are generated documents of words, emphasis, simple links and '
        'code spans, translated or not and written by po2md with a generated '
        'width; the output must mean the same as the unwrapped one, have the '
        'same text once line breaks are undone, and have no line over the '
        'width where a break was possible. Non-trivial: the width broke at '
        'least one line.')

WORDS = ('alpha', 'bravo', 'charlie', 'delta', 'echo', 'ñandú', 'of', 'the',
         'supercalifragilistic', 'Größe', 'message', 'I', 'Привет',
         'well-known', 'and', 'abcdefghijklmnopqrstuvwxyz')


def prof(**kw):
    from hypothesis import strategies as st
    return G.Profile(
        inl=('b', 'i', 's', 'c', 'n', 'p'), words=st.sampled_from(WORDS),
        code=st.sampled_from(('code', 'x', 'two words', 'snake_case')), **kw)


BLK = ('h ul ol q fence icode html hr table nested task q-multi loose '
       'list-p list-fence list-q q-h q-fence setext ul2 ol-in-ul list-after'
       ).split()


def unwrap(text):
    """Undo breaks inside paragraphs of the written document."""
    return re.sub(r'[ \t\n]+', ' ', re.sub(r'(?m)^> ', '', text)).strip()


@padded
def check(case, ctx):
    doc, width = case['doc'], case['width']
    src = G.source(doc)
    with ctx.tmpdir():
        if case['translate']:
            entries, new = plan(doc)
        else:
            entries, new = [(None, 'nothing', 'x')], doc
        make_po('tr.po', entries)
        flat = translate(src, 'tr.po', wrapwidth=0)
        out = translate(src, 'tr.po', wrapwidth=width)
        again = translate(src, 'tr.po', wrapwidth=str(width))
    equal(again, out, 'a width given as text is read differently', width=width)
    # lines can be broken inside titles
    out = re.sub(r'(?<=[\n ])"(?:\\.|[^"\\])*"(?=[)])', lambda m: m[0].replace(
        '\n', ' '), out)
    # tabs are written as spaces
    same_meaning(G.source(new).replace('\t', ' '), out.replace('\t', ' '), 'wrapped output does not mean the same',
                 width=width)
    equal(unwrap(out), unwrap(flat), 'wrapping changed more than line breaks',
          width=width)
    ctx.nontrivial(out.count('\n') > flat.count('\n'))


@padded
def check_lines(case, ctx):
    """Paragraphs of words: every line is full and none is too long."""
    doc, width = case['doc'], case['width']
    src = G.source(doc)
    with ctx.tmpdir():
        make_po('tr.po', [(None, 'nothing', 'x')])
        out = translate(src, 'tr.po', wrapwidth=width)
    lines = [ln for ln in out.split('\n') if ln.strip()]
    for block in doc['blocks']:
        if block[0] in ('ul', 'ol'):
            check_items(lines, block, width, 0, ctx)
        elif block[0] == 'q':
            take(lines, block[1][0][1], '> ', width, ctx, 0, '> ')
        else:
            take(lines, block[1], '', width, ctx)
    equal(lines, [], 'unexpected lines', output=out)


def take(lines, inl, mark, width, ctx, extra=0, quote=''):
    """Consume the lines of one message."""
    want = G.src_inl(inl).split(' ')
    got, used, body = [], [], []
    while len(got) < len(want):
        expect(bool(lines), 'lines are missing')
        used.append(lines.pop(0))
        text = used[-1]
        if len(used) == 1:
            expect(text.startswith(mark), 'unexpected start of line',
                   line=text, expected=mark)
            text = text[len(mark):]
        elif quote:
            text = text.removeprefix(quote)
        body.append(text)
        got.extend(text.split(' '))
    check_paragraph(used, body, len(mark), inl, width,
                    len(mark) + 1 if mark else 0, ctx, extra)


def check_items(lines, block, width, depth, ctx):
    """Consume the lines of a list, whose continuation lines are lazy."""
    for item in block[2]:
        mark = '   ' * depth + ('- ' if block[0] == 'ul' else '1. ')
        if item['task'] is not None:
            mark += f'[{item["task"]}] '
        take(lines, item['inl'], mark, width, ctx, 3 * depth)
        for sub in item['sub']:
            check_items(lines, sub, width, depth + 1, ctx)


def check_paragraph(lines, body, first, inl, width, slack, ctx, extra=0):
    equal(' '.join(body).split(' '), G.src_inl(inl).split(' '),
          'wrapping changed the words')
    if len(lines) > 1:
        ctx.nontrivial()
    for n, line in enumerate(lines):
        text = line[first:] if n == 0 else line
        # the wrapping library lets the first and the last line of a
        # paragraph be one column longer; the indentation of nested lists is
        # not part of the width
        over = (n == 0) + (n == len(lines) - 1) + (extra if n == 0 else 0)
        expect(len(line) <= width + over or ' ' not in text.strip(),
               'line over the width that could have been broken',
               line=line, width=width)
        expect(line == line.rstrip(), 'trailing spaces', line=line)
        if n + 1 < len(lines):
            nxt = body[n + 1].split(' ')[0]
            expect(len(line) + 1 + len(nxt) > width - (
                       slack if n else max(0, slack - first)),
                   'line broken long before the width', line=line,
                   next=lines[n + 1], width=width)


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(prof(blk=BLK, max_toks=14)),
        'translate': st.booleans(),
        'width': st.one_of(st.integers(12, 100), st.sampled_from((80, 78)))})


def strategy_lines():
    from hypothesis import strategies as st
    inl = st.lists(st.sampled_from([w for w in WORDS if '-' not in w]).map(
        lambda w: ['t', w]), min_size=1, max_size=40)
    task = st.sampled_from((None, None, ' ', 'x'))

    def lists(depth):
        @st.composite
        def build(draw):
            kind = draw(st.sampled_from(('ul', 'ol')))
            items = []
            for _ in range(draw(st.integers(1, 3))):
                sub = []
                if depth < 2 and draw(st.integers(0, 3)) == 0:
                    sub = [draw(lists(depth + 1))]
                items.append({'inl': draw(inl), 'sub': sub,
                              'task': draw(task) if kind == 'ul' else None})
            return [kind, '-' if kind == 'ul' else '.', items, False]
        return build()
    block = st.one_of(
        inl.map(lambda i: ['p', i]), lists(0),
        inl.map(lambda i: ['q', [['p', i]]]))

    def ok(blocks):
        return all(a[0] == 'p' or a[0] != b[0]
                   for a, b in zip(blocks, blocks[1:]))
    return st.fixed_dictionaries({
        'doc': st.lists(block, min_size=1, max_size=3).filter(ok).map(
            lambda b: {'blocks': b, 'refs': []}),
        'width': st.integers(8, 100)})


def strategy_links():
    """Everything in which a line cannot be broken anywhere."""
    from hypothesis import strategies as st
    p = G.Profile(
        words=st.sampled_from(WORDS + (
            'why?no', 'a}b', 'so!ok', 'a|b', 'x—y', '50%', '(ok)', 'C:/dir/x?y',
            '...', '&amp;')),
        max_toks=12, code=st.sampled_from(('code', 'a?b c!d', 'two words')),
        blk='h ul q refs nested'.split())
    p.hrefs = [*p.hrefs, 'https://example.com/a?b=c&d=e', 'a?b!c}d|e']
    p.srcs = [*p.srcs, 'pic.png?size=200|x', '日本語.png']
    return st.fixed_dictionaries({
        'doc': G.docs(p), 'translate': st.booleans(),
        'width': st.integers(8, 60)})


SUITES = [Suite('links', strategy_links, check, quick=10000),
          Suite('meaning', strategy, check, quick=15000),
          Suite('lines', strategy_lines, check_lines, quick=15000)]
