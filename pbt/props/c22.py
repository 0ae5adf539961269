"""C22: the md4c extensions decide the syntax, and both directions follow it."""
import os

import polib

from .. import htmlcmp as H
from .. import mdgen as G
from ..core import Suite, call, cli, equal, expect, fail
from ..translation import plan
from ..util import (
    RUNS,
    expected_entries,
    make_po,
    markdown_to_pofile,
    markdown_to_pofile_to_markdown,
    padded,
    pofile_to_markdown,
    read,
    write,
)
from .c01 import nontrivial

PROPERTY = 'C22'
RULE = ('cases are generated documents with a generated set of md4c '
        'extensions, given to the API or with -x. Suite subset: documents of '
        'the enabled syntax, with underline, against the model of messages '
        'and translations; suite flags: any document and flags, against '
        'md4c with the same flags. Non-trivial: the extensions are not those '
        'by default and change the HTML of the document, or the document has '
        'syntax of one of them.')

FEATURES = {'tables': ('table', 'list-table', 'q-table'), 'strikethrough': 's',
            'tasklists': ('task',), 'latex_math_spans': ('m', 'math'),
            'wikilinks': ('w',), 'underline': (), 'collapse_whitespace': ()}
FLAGS = ('no_indented_code_blocks', 'no_html_blocks', 'no_html_spans',
         'no_html', 'permissive_atx_headers', 'permissive_url_autolinks',
         'permissive_www_autolinks', 'permissive_email_autolinks',
         'permissive_autolinks')


def underline(data, inside=False):
    """The tokens of a document if `_` means underline."""
    if isinstance(data, dict):
        return {k: underline(v) for k, v in data.items()}
    if not isinstance(data, list):
        return data
    if len(data) == 3 and data[0] in ('i', 'b') and data[2] == '_':
        return ['U', [underline(t, True) for t in data[1]],
                1 if data[0] == 'i' else 2, inside]
    if len(data) > 2 and isinstance(data[1], list) and data[0] in (
            'i', 'b', 's', 'a', 'r', 'img'):
        return [data[0], [underline(t, inside) for t in data[1]], *data[2:]]
    return [underline(d, inside) for d in data]


def plain_links(data, inside=False):
    """A document without other links in the text of its links.

    With permissive links, md4c gives the spans of nested links in an order
    that is not theirs.
    """
    if isinstance(data, dict):
        return {k: plain_links(v) for k, v in data.items()}
    if not isinstance(data, list):
        return data
    if inside and data[:1] == ['t'] and any(
            part in data[1] for part in ('://', '@', 'www.')):
        return ['t', 'word']
    if data[:1] == ['icode']:
        # it may be a paragraph
        return ['icode', ['plain words']]
    inside = inside or (data[:1] in (['a'], ['r'], ['img'])
                        and len(data) > 2)
    return [plain_links(d, inside) for d in data]


def tokens(html):
    """Tokens of HTML where underlined text is not underlined again."""
    out, deep = [], 0
    for tok in H.tokens(html):
        if tok[:2] == ('s', 'u'):
            deep += 1
            if deep > 1:
                continue
        elif tok[:2] == ('e', 'u'):
            deep -= 1
            if deep:
                continue
        if tok[0] == 't' and out and out[-1][0] == 't':
            tok = ('t', out.pop()[1] + tok[1])
        out.append(tok)
    return out


def same(want, got, ext, **details):
    a, b = tokens(H.render(want, ext)), tokens(H.render(got, ext))
    if a != b:
        fail('the document does not mean what is expected with the '
             'extensions', difference=H.first_diff(a, b), extensions=ext,
             output=got, **details)


@padded
def check_subset(case, ctx):
    ext = case['ext']
    doc = case['doc']
    nontrivial(doc, ctx)
    for name in ext:
        ctx.label(name)
    if 'underline' in ext:
        doc = underline(doc)
    src = G.source(doc)
    entries, new = plan(doc)
    wanted = [e[:2] for e in expected_entries(doc, include_codeblocks=True)]
    args = [a for e in ext for a in ('-x', e)]
    how = case['how']
    with ctx.tmpdir():
        write('in.md', src)
        make_po('tr.po', entries)
        if how == 'cli' and ext:
            res = cli(RUNS['md2po'], ['in.md', '-p', 'x.po', '-s', '-q',
                                      '-c', *args])
            equal(res.code, 0, 'exit code')
            po = call(polib.pofile, 'x.po') if wanted else []
            out = call(pofile_to_markdown, 'in.md', 'tr.po', wrapwidth=0,
                       extensions=ext)
        elif how == 'md2po2md':
            po = call(markdown_to_pofile, 'in.md', extensions=ext,
                      include_codeblocks=True)
            os.mkdir('es')
            make_po('es/in.md.po', entries)
            call(markdown_to_pofile_to_markdown, ['es'], 'in.md', '{lang}',
                 extensions=ext, include_codeblocks=True, md_wrapwidth=0)
            out = read('es/in.md')
        else:
            po = call(markdown_to_pofile, src, extensions=ext,
                      include_codeblocks=True)
            out = call(pofile_to_markdown, src, 'tr.po', wrapwidth=0,
                       extensions=ext)
    equal([(e.msgctxt, e.msgid) for e in po], wanted,
          'messages extracted with the extensions', extensions=ext,
          source=src)
    same(G.source(new), out, ext, original=src)


@padded
def check_flags(case, ctx):
    """Any flag: the meaning is kept and both directions agree."""
    ext = case['ext']
    src = G.source(case['doc'])
    ctx.nontrivial(H.render(src, ext) != H.render(src))
    seen = {'md2po': [], 'po2md': []}

    def watch(name):
        def msgid(self, msgid, msgstr, msgctxt, tcomment, flags):
            if msgid and 'fuzzy' not in flags:
                seen[name].append((msgctxt, msgid))
        return {'msgid': msgid}

    with ctx.tmpdir():
        po = call(markdown_to_pofile, src, extensions=ext,
                  include_codeblocks=True, events=watch('md2po'))
        out = call(pofile_to_markdown, src, [], wrapwidth=0, extensions=ext,
                   events=watch('po2md'))
        live = [(e.msgctxt, e.msgid) for e in po if 'fuzzy' not in e.flags]
        marks = {k: f'TR{n}X' for n, k in enumerate(live)}
        make_po('t.po', [(c, m, marks[(c, m)]) for c, m in live])
        translated = call(pofile_to_markdown, src, 't.po', wrapwidth=0,
                          extensions=ext)
    equal(seen['po2md'], seen['md2po'],
          'po2md and md2po find different messages', extensions=ext,
          source=src)
    missing = [k for k in live if marks[k] not in translated]
    expect(not missing, 'messages not translated', missing=missing,
           extensions=ext, source=src, output=translated)
    same(src, out, ext, original=src)


def subset():
    from hypothesis import strategies as st

    def cases(ext):
        off = [f for e, fs in FEATURES.items() if e not in ext for f in fs]
        return st.fixed_dictionaries({
            'ext': st.just(sorted(ext)), 'doc': G.docs(G.Profile(no=off)),
            'how': st.sampled_from(('api', 'api', 'cli', 'md2po2md'))})
    return st.one_of(st.sets(st.sampled_from(sorted(FEATURES))), st.just(
        set(FEATURES))).flatmap(cases)


def flags():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'ext': st.sets(st.sampled_from(FLAGS + tuple(FEATURES)), max_size=8)
        .map(sorted), 'doc': G.docs(G.Profile(max_blocks=4))
        .map(plain_links)})


SUITES = [Suite('subset', subset, check_subset, quick=15000),
          Suite('flags', flags, check_flags, quick=9000)]
