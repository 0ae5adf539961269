"""C01: the extraction finds every message, once, in order, in normal form."""
from .. import mdgen as G
from ..core import Suite, equal
from ..util import LINK_KINDS, expected_entries, extract, padded

PROPERTY = 'C01'
RULE = ('cases are documents of the generated Markdown model (blocks, nested '
        'lists, quotes, tables, code, inline markup, link references), '
        'written out as source text; the expected message list comes from the '
        'model. Non-trivial: at least two blocks and at least two kinds of '
        'markup besides plain words.')


def nontrivial(doc, ctx):
    kinds = G.kinds(doc)
    for k in kinds:
        ctx.label(k)
    rich = [k for k in kinds if k not in ('inl:t', 'blk:p', 'inl:p')]
    ctx.nontrivial(len(doc['blocks']) >= 2 and len(rich) >= 2)


@padded
def check(case, ctx):
    doc, opts = case['doc'], case['opts']
    nontrivial(doc, ctx)
    src = G.source(doc)
    with ctx.tmpdir():
        po = extract(src, **opts)
    want = expected_entries(
        doc, include_codeblocks=opts.get('include_codeblocks', False))
    got = [(e.msgctxt, e.msgid) for e in po]
    equal(got, [w[:2] for w in want], 'extracted messages differ', source=src)
    refs = {G.ref_msgid(r) for r in doc['refs']}
    has_links = G.kinds(doc) & LINK_KINDS
    for e in po:
        if e.msgid in refs and has_links:
            equal((e.msgstr, 'fuzzy' in e.flags), (e.msgid, True),
                  'link reference must be prefilled and fuzzy', source=src)
        else:
            equal((e.msgstr, e.flags), (opts.get('msgstr', ''), []),
                  'new message with unexpected translation', source=src)


def strategy(prof=None):
    from hypothesis import strategies as st
    opts = st.fixed_dictionaries({}, optional={
        'include_codeblocks': st.booleans(),
        'location': st.booleans(),
        'msgstr': st.sampled_from(('', 'default', 'ñ')),
        'wrapwidth': st.sampled_from((0, 5, 78)),
    })
    return st.fixed_dictionaries(
        {'doc': G.docs(prof or G.Profile()), 'opts': opts})


SUITES = [Suite('model', strategy, check, quick=14000),
          Suite('deep', lambda: strategy(G.deep(blk=G.deep().blk | {
              'q-list', 'q-list-nested', 'q-list-loose', 'q-list-q',
              'list-q-tight'})),
              check, quick=10000),
          Suite('mixed', lambda: strategy(G.Profile(
              inl='b', max_toks=2, max_blocks=3, depth=2, blk=(
                  'ul ol q q-list q-list-q q-list-nested q-list-loose list-q list-q-tight '
                  'list-fence nested ol-in-ul loose q-multi q-q q-fence q-h '
                  'list-after').split())), check, quick=10000),
          Suite('wide', lambda: strategy(G.wide()), check, quick=1600)]
