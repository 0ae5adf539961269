"""C08: messages are located at the top level block of their first occurrence."""
from .. import mdgen as G
from ..core import Suite, equal
from ..util import cli, extract, md2po_run, padded, write

PROPERTY = 'C08'
RULE = ('cases are one to three generated Markdown files with extraction '
        'commands and repeated messages, extracted with locations on or off, '
        'through the API or the CLI; the model numbers the top level blocks '
        'of each file. Non-trivial: at least three messages located in '
        'different blocks, one of them not a paragraph.')

NAMES = ('a.md', 'b.md', 'sub dir/c.md')


@padded
def check(case, ctx):
    docs, names = case['docs'], NAMES[:len(case['docs'])]
    where, seen = [], set()
    for name, doc in zip(names, docs):
        refs = {G.ref_msgid(r) for r in doc['refs']}
        for u in G.units(doc, include_codeblocks=case['code'],
                         plaintext=case['plain']):
            if u.enabled and u.key() not in seen and u.msgid not in refs:
                seen.add(u.key())
                where.append((u.key(), name, u.block, u.block_type))
    ctx.nontrivial(len({w[1:3] for w in where}) >= 3
                   and any(w[3] != 'paragraph' for w in where))
    for w in where:
        ctx.label(w[3])
    with ctx.tmpdir():
        for name, doc in zip(names, docs):
            write(name, G.source(doc))
        opts = {'include_codeblocks': case['code'], 'plaintext': case['plain'],
                'location': case['location']}
        po = extract(list(names), **opts)
        text = extract(G.source(docs[0]), **opts)
        equal([e.occurrences for e in text], [[] for _ in text],
              'content without a file has locations')
        args = [*names, '--wrapwidth', '0']
        if case['code']:
            args.append('--include-codeblocks')
        if case['plain']:
            args.append('--plaintext')
        if not case['location']:
            args.append('--no-location')
        res = cli(md2po_run, args)
        equal(res.code, 0, 'exit code')
        equal(res.out.rstrip('\n'),
              str(extract(list(names), wrapwidth=0, **opts)).rstrip('\n'),
              'the CLI locates messages elsewhere')
    got = {(e.msgctxt, e.msgid): e.occurrences for e in po}
    for key, name, number, kind in where:
        want = [(name, f'block {number} ({kind})')] if case['location'] else []
        equal(got.get(key), want, 'message located elsewhere', message=key,
              files={n: G.source(d) for n, d in zip(names, docs)})


def strategy():
    from hypothesis import strategies as st
    opts = {'cmds': G.COMMANDS + ('mdpo-include',), 'max_blocks': 7,
            'max_toks': 2}
    # messages of plaintext mode keep the spaces around multi-line displays
    plain, rich = G.Profile(no=('math-lines',), **opts), G.Profile(**opts)

    def cases(plaintext):
        return st.fixed_dictionaries({
            'docs': st.lists(G.docs(plain if plaintext else rich),
                             min_size=1, max_size=3),
            'location': st.sampled_from((True, True, True, True, False)),
            'code': st.booleans(), 'plain': st.just(plaintext)})
    return st.sampled_from((False, False, True)).flatmap(cases)


SUITES = [Suite('locations', strategy, check, quick=12500)]
