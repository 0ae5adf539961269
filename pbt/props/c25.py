"""C25: translated documents are Markdown documents of the same messages."""
import re

from .. import mdgen as G
from ..core import Suite, equal
from ..translation import plan
from ..util import extract, make_po, padded, translate
from .c05 import same_meaning
from .c06 import chooser

PROPERTY = 'C25'
RULE = ('cases are generated documents translated partially with a generated '
        'wrap width; the messages extracted from the output must be the '
        'translations, or the messages without one, in order, and translating '
        'the output with no translations must give the output. Non-trivial: '
        'at least three messages, one of them translated.')


def exact(msgid):
    return msgid


def unspaced(msgid):
    """Lines can be broken inside titles, code and texts without spaces."""
    return ''.join(msgid.split())


def nested_html(blocks, inside=False):
    for b in blocks:
        if b[0] == 'html' and inside:
            return True
        if b[0] == 'quote' and nested_html(b[1], True):
            return True
        if b[0] in ('ul', 'ol') and any(
                nested_html(item['sub'], True) for item in b[2]):
            return True
    return False


@padded
def check(case, ctx):
    doc, width = case['doc'], case['width']
    src = G.source(doc)
    entries, new = plan(doc, chooser(case['bits']), refs=case['refs'])
    units = [u.msgid for u in G.units(new, include_codeblocks=True)]
    ctx.nontrivial(len(set(units)) >= 3 and bool(entries))
    with ctx.tmpdir():
        make_po('es.po', entries)
        out = translate(src, 'es.po', wrapwidth=width)
    clean = unspaced if width else exact
    units = dict.fromkeys(clean(u) for u in units)
    got = dict.fromkeys(
        clean(e.msgid) for e in extract(out, include_codeblocks=True)
        if 'fuzzy' not in e.flags)
    refs = {clean(G.ref_msgid(r)) for r in new['refs']}
    want = [u for u in units if u not in refs]
    equal([g for g in got if g not in refs], want,
          'messages of the translated document', source=src, output=out)
    with ctx.tmpdir():
        again = translate(out, [], wrapwidth=0)
        last = translate(again, [], wrapwidth=0)
    same_meaning(out, again, 'translating the output with no translations '
                 'changes what it means')
    if not nested_html(doc['blocks']):      # one more space each time
        equal(last, again, 'rewriting the document never ends', source=src)


def strategy(prof=None, **kw):
    def make():
        from hypothesis import strategies as st
        return st.fixed_dictionaries({
            'doc': G.docs(prof() if prof else G.Profile(**kw)),
            'bits': st.lists(st.booleans(), min_size=1, max_size=4),
            'refs': st.booleans(),
            'width': st.sampled_from((0, 80, 80, 40, 20))})
    return make


SUITES = [Suite('model', strategy(), check, quick=10000),
          Suite('commands', strategy(cmds=G.COMMANDS), check, quick=7000),
          Suite('deep', strategy(G.deep), check, quick=7000)]
