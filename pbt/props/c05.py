"""C05: without translations, po2md reproduces the document."""
from .. import htmlcmp as H
from .. import mdgen as G
from ..core import Suite, fail
from ..util import make_po, padded, read, translate, write
from .c01 import nontrivial

PROPERTY = 'C05'
RULE = ('cases are generated Markdown documents rewritten by po2md with a PO '
        'file that translates nothing; the oracle is md4c\'s own HTML rendering '
        'of both texts, normalised. Non-trivial: at least two blocks and two '
        'kinds of markup.')

OTHER = [(None, 'this message is not in the document', 'x'),
         ('ctx', 'neither is this one', 'y'),
         (None, 'empty translation', '')]


def same_meaning(src, out, what, **details):
    a, b = H.meaning(src), H.meaning(out)
    if a != b:
        fail(what, difference=H.first_diff(a, b), source=src, output=out,
             **details)


@padded
def check(case, ctx):
    doc = case['doc']
    nontrivial(doc, ctx)
    src = G.source(doc)
    with ctx.tmpdir():
        entries = list(OTHER)
        if case.get('known'):
            # entries of the document, still untranslated
            entries += [(u.ctx, u.msgid, '') for u in G.units(
                doc, include_codeblocks=True)]
        make_po('other.po', entries)
        if case.get('file'):
            write('doc.md', src)
            out = translate('doc.md', 'other.po', wrapwidth=case['width'],
                            save='out.md')
            if read('out.md') != out:
                fail('saved file differs from the returned output',
                     saved=read('out.md'), returned=out)
        else:
            out = translate(src, 'other.po', wrapwidth=case['width'])
    same_meaning(src, out, 'untranslated output does not mean the same')


def strategy(prof=None):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(prof or G.Profile()),
        'width': st.sampled_from((0, 'inf', 100000)),
        'known': st.booleans(), 'file': st.booleans()})


SUITES = [Suite('identity', strategy, check, quick=16000),
          Suite('deep', lambda: strategy(G.deep()), check, quick=8000),
          Suite('wide', lambda: strategy(G.wide()), check, quick=1600)]
