"""C02: plain text mode extracts the visible text of every block."""
from .. import mdgen as G
from ..core import Suite, equal
from ..util import expected_entries, extract, padded
from .c01 import nontrivial

PROPERTY = 'C02'
RULE = ('cases are generated Markdown documents extracted with the plain text '
        'mode on; the expected list (visible text of each block without markup, '
        'plus link and image titles) comes from the model. Non-trivial: at '
        'least two blocks and two kinds of markup.')


@padded
def check(case, ctx):
    doc, opts = case['doc'], case['opts']
    nontrivial(doc, ctx)
    src = G.source(doc)
    with ctx.tmpdir():
        po = extract(src, plaintext=True, **opts)
    want = expected_entries(
        doc, plaintext=True,
        include_codeblocks=opts.get('include_codeblocks', False))
    got = [(e.msgctxt, e.msgid, e.comment or None) for e in po]
    equal(got, want, 'plain text messages differ', source=src)
    for e in po:
        equal((e.msgstr, e.flags), (opts.get('msgstr', ''), []),
              'new message with unexpected translation', source=src)
    xheader = 'X-Generator' in po.metadata
    equal(xheader, bool(opts.get('xheader')), 'X-Generator header')


def strategy():
    from hypothesis import strategies as st
    opts = st.fixed_dictionaries({}, optional={
        'include_codeblocks': st.booleans(),
        'msgstr': st.sampled_from(('', 'default')),
        'xheader': st.booleans(),
    })
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(cmds=(
            'mdpo-disable-next-block', 'mdpo-disable', 'mdpo-enable',
            'mdpo-context', 'mdpo-translator', 'mdpo-enable-next-block'),
            no=('math-lines',))),
        'opts': opts})


SUITES = [Suite('model', strategy, check, quick=28000)]
