"""C12: extracting several files is the union of extracting each of them."""
from .. import mdgen as G
from ..core import Suite, cli, equal
from ..util import encodable, extract, md2po_run, padded, write

PROPERTY = 'C12'
RULE = ('cases are two to four generated Markdown files with commands, also '
        'pending or disabling at their ends, link references and shared '
        'messages, given as list, repeated list, globs or CLI arguments; the '
        'entries must be those of the files extracted one by one. '
        'Non-trivial: a file ends with a command in force and a later file '
        'has messages.')

NAMES = ('a.md', 'b.md', 'c/a.md', 'c/b.md')
ALL = G.COMMANDS + G.CODE_COMMANDS + ('mdpo-include',)


def entry(e):
    return (e.msgctxt, e.msgid, e.msgstr, tuple(e.flags), e.comment,
            tuple(e.occurrences))


@padded
def check(case, ctx):
    charset = case['opts'].get('md_encoding', 'utf-8')
    case = encodable(case, charset)
    docs, opts = case['docs'], case['opts']
    names = list(NAMES[:len(docs)])
    ctx.nontrivial(any(d['blocks'][-1][0] == 'cmd' or any(
        b[0] == 'cmd' and b[1] == 'mdpo-disable' for b in d['blocks'])
        for d in docs[:-1]))
    with ctx.tmpdir():
        for name, doc in zip(names, docs):
            write(name, G.source(doc), encoding=charset)
        want, seen = [], set()
        for name in names:
            for e in extract([name], **opts):
                if (e.msgctxt, e.msgid) not in seen:
                    seen.add((e.msgctxt, e.msgid))
                    want.append(entry(e))
        arg = {
            'list': names, 'reversed': names[::-1], 'twice': names + names,
            'globs': ['*.md', 'c/*.md'], 'overlap': ['*.md', 'a.md', 'c/*.md'],
            'tuple': tuple(names), 'recursive': ['?.md', '*/*.md'],
        }[case['how']]
        got = [entry(e) for e in extract(arg, **opts)]
        info = {'files': {n: G.source(d) for n, d in zip(names, docs)}}
        equal(got, want, 'the messages of several files are not those of the '
              'files one by one', how=case['how'], **info)
        args = list(arg) + ['--include-codeblocks'] * bool(
            opts.get('include_codeblocks'))
        args += ['--plaintext'] * bool(opts.get('plaintext'))
        if charset != 'utf-8':
            args += ['--md-encoding', charset]
        if len(arg) > 1:
            res = cli(md2po_run, [*args, '-q'])
            equal(res.code, 0, 'exit code')
            equal([entry(e) for e in res.value], want,
                  'the messages of several files are not those of the files '
                  'one by one, using the CLI', how=case['how'], **info)


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def doc(draw):
        prof = G.Profile(cmds=ALL, max_blocks=4, max_toks=3)
        d = draw(G.docs(prof))
        if draw(st.booleans()):
            d['blocks'].append(draw(G.command(prof))[:3])
        return d
    return st.fixed_dictionaries({
        'docs': st.lists(doc(), min_size=2, max_size=4),
        'how': st.sampled_from(('list', 'reversed', 'twice', 'globs',
                                'overlap', 'tuple', 'recursive')),
        'opts': st.fixed_dictionaries({}, optional={
            'include_codeblocks': st.booleans(),
            'md_encoding': st.sampled_from(('iso-8859-1', 'utf-16')),
            'plaintext': st.booleans()})})


SUITES = [Suite('union', strategy, check, quick=12000)]
