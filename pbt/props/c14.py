"""C14: mdpo2html translates the HTML of a document like its Markdown."""
import re

from .. import htmlcmp as H
from .. import mdgen as G
from ..core import Suite, call, cli, equal, fail
from ..translation import plan
from ..util import (
    LINK_KINDS,
    make_po,
    markdown_pofile_to_html,
    mdpo2html_run,
    padded,
    read,
    write,
)
from .c06 import chooser

PROPERTY = 'C14'
KINDS = {'set': frozenset, 'list': list, 'tuple': tuple}
RULE = ('cases are generated documents, rendered to HTML by md4c, with '
        'commands and a generated subset of messages translated; mdpo2html '
        'must give the HTML of the model document with exactly those '
        'messages translated. Non-trivial: some messages are translated and '
        'others are not, with inline markup in a translated one.')


def supported(data):
    """Replace what mdpo2html does not support.

    References without text are not solved, and raw HTML paragraphs
    can not be told apart from those of Markdown.
    """
    if isinstance(data, dict):
        return {k: supported(v) for k, v in data.items()}
    if not isinstance(data, list):
        return data
    if data[:1] == ['html'] and '<p' in data[1][0]:
        return ['html', ['<div>', 'raw &amp; html', '</div>']]
    if data[:1] == ['r'] and len(data) == 4:      # nor shortcuts
        data = data[:3]
        if isinstance(data[1], list):
            data[1] = [['t', 'word']]
    return [supported(d) for d in data]


def retag(page, tag, other):
    return re.sub(rf'<(/?){tag}(?=[\s>])', rf'<\1{other}', page)


@padded
def check(case, ctx):
    doc = case['doc']
    def page_of(source):
        html = H.render(source)
        if case['dress'] is not None:
            html = H.dress(html, case['dress'], case['whole'])
        return html

    page = page_of(G.source(doc))
    if case['dress'] is not None:
        ctx.label('dressed page')
    entries, new = plan(doc, chooser(case['bits']), refs=False,
                        include_codeblocks=False)
    # link references like they are extracted
    entries += [(None, G.ref_msgid(r), G.ref_msgid(r)) for r in doc['refs']]
    units = G.units(doc)
    done = {e[:2] for e in entries}
    ctx.nontrivial(
        bool(done) and any(u.key() not in done for u in units)
        and any(m in e[1] for e in entries for m in '*`['))
    if any(not u.enabled for u in units):
        ctx.label('disabled units')
    if any(u.ctx is not None and u.key() in done for u in units):
        ctx.label('translated in context')
    noise = [(None, 'unrelated', 'UNRELATED')]
    every = {u.key() for u in units}
    for u in units:
        noise.append(('another context', u.msgid, 'WRONG CONTEXT'))
        if (None, u.msgid) not in every:
            noise.append((None, u.msgid, 'NO CONTEXT'))
        if u.key() not in done:
            noise.append((u.ctx, u.msgid, ''))
    with ctx.tmpdir():
        files = [entries[::2] + noise, entries[1::2]] if case['whole'] \
            else [noise + entries[1::2], entries[::2]]
        for n, part in enumerate(files):
            make_po(f'{n}.po', part)
        write('page.html', page)
        how = case['how']
        if how == 'content':
            out = call(markdown_pofile_to_html, page, '*.po')
        elif how == 'file':
            out = call(markdown_pofile_to_html, 'page.html', ['0.po', '1.po'],
                       save='out.html')
            equal(read('out.html'), out, 'saved and returned differ')
        else:
            res = cli(mdpo2html_run, ['page.html', '-p', '0.po', '1.po',
                                      '-s', 'out.html'])
            equal(res.code, 0, 'exit code')
            out = read('out.html')
        merged = call(markdown_pofile_to_html, page, '*.po',
                      merge_adjacent_markups=True)
    want_merged = out
    for tags in ('b|strong', 'em|i'):
        want_merged = re.sub(rf'</({tags})>\s*<({tags})>', ' ', want_merged)
    if want_merged != out:
        ctx.label('adjacent markup')
    equal(merged, want_merged, 'adjacent markup merged', html=page)
    if case['tags']:
        # the same page with other tags for the same markup
        other, options = page, {}
        for option, tag in (('code_tags', 'code'), ('bold_tags', 'strong'),
                            ('italic_tags', 'em')):
            custom = case['tags'] + tag[0]
            other = retag(other, tag, custom)
            options[option] = KINDS[case['form']]([
                custom, 'unused'])
        with ctx.tmpdir():
            make_po('a.po', [e for part in files for e in part])
            got = call(markdown_pofile_to_html, other, 'a.po', **options)
            want = call(markdown_pofile_to_html, page, 'a.po')
        # (what is not translated keeps its tags)
        for tag in ('code', 'strong', 'em'):
            got = retag(got, case['tags'] + tag[0], tag)
        ctx.label('custom tags')
        equal(got, want, 'translation with other tags', html=other)
    want = H.tokens(page_of(G.source(new)))
    got = H.tokens(out)
    if want != got:
        fail('output is not the HTML of the translated document',
             difference=H.first_diff(want, got), html=page, output=out,
             expected=page_of(G.source(new)))


def strategy(prof=None):
    from hypothesis import strategies as st
    prof = prof or G.Profile(
        inl='b i c a n p img u r'.split(),
        no=('list-after', 'math', 'task'),
        cmds=G.COMMANDS, max_blocks=5, max_toks=4,
        code=st.one_of(G.code_text(), st.sampled_from(
            ('x', 'x = 1', 'f(x)', '&amp;', '<b>', '*a*', 'a  b', '`'))))
    return st.fixed_dictionaries({
        'doc': G.docs(prof).map(supported),
        'bits': st.lists(st.booleans(), min_size=1, max_size=6),
        'dress': st.one_of(st.none(), st.integers(0, 10 ** 6)),
        'whole': st.booleans(),
        'tags': st.sampled_from((None, None, 'x-', 'k')),
        'form': st.sampled_from(('set', 'list', 'tuple')),
        'how': st.sampled_from(('content', 'file', 'cli'))})


def strategy_dense():
    return strategy(G.dense(G.COMMANDS))


SUITES = [Suite('html', strategy, check, quick=15000),
          Suite('dense', strategy_dense, check, quick=7500),
          Suite('wide', lambda: strategy(G.wide(
              cmds=G.COMMANDS, no=('list-after', 'math', 'task'))), check,
              quick=1200)]
