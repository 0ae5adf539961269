"""C04: a complete translation ends up in the right places."""
from .. import mdgen as G
from ..core import Suite, expect
from ..translation import plan
from ..util import extract, keys, make_po, padded, translate, write
from .c01 import nontrivial
from .c05 import same_meaning

PROPERTY = 'C04'
RULE = ('cases are generated documents; each message gets a translation by '
        'rotating its letters, written to a PO file from the model; the output '
        'of po2md must render (md4c HTML) like the model document whose texts '
        'were rotated. Non-trivial: at least two blocks and two kinds of '
        'markup.')


@padded
def check(case, ctx):
    doc = case['doc']
    nontrivial(doc, ctx)
    src = G.source(doc)
    entries, new = plan(doc)
    with ctx.tmpdir():
        make_po('tr.po', entries)
        out = translate(src, ['tr.po'], wrapwidth=case['width'])
    same_meaning(G.source(new), out, 'translated output does not mean what '
                 'the translated document means', original=src)


@padded
def check_pipeline(case, ctx):
    """md2po, fill in the translations, po2md: nothing is lost on the way."""
    doc = case['doc']
    nontrivial(doc, ctx)
    src = G.source(doc)
    entries, new = plan(doc)
    table = {(c, m): s for c, m, s in entries}
    with ctx.tmpdir():
        write('in.md', src)
        po = extract('in.md', po_filepath='es.po', save=True,
                     include_codeblocks=True, wrapwidth=case['width'])
        for key in keys(po):
            expect(key in table, 'extracted message is not in the document',
                   message=key, source=src)
        import polib
        po = polib.pofile('es.po')
        for e in po:
            e.msgstr = table[(e.msgctxt, e.msgid)]
        po.save()
        out = translate('in.md', 'es.po', wrapwidth='inf')
    same_meaning(G.source(new), out, 'translated output does not mean what '
                 'the translated document means', original=src)


def strategy(prof=None):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(prof or G.Profile()), 'width': st.sampled_from((0, 'inf'))})


def strategy_pipeline():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile()), 'width': st.sampled_from((0, 78, 10))})


SUITES = [Suite('translate', strategy, check, quick=12000),
          Suite('pipeline', strategy_pipeline, check_pipeline, quick=8000),
          Suite('deep', lambda: strategy(G.deep()), check, quick=8000),
          Suite('wide', lambda: strategy(G.wide()), check, quick=1600)]
