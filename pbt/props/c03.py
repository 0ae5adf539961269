"""C03: extraction commands act on exactly the messages they document."""
from .. import mdgen as G
from ..core import Suite, equal
from ..util import call, expected_entries, extract, padded

PROPERTY = 'C03'
RULE = ('cases are generated documents with extraction commands (disable, '
        'enable, next-block variants, context, translator comment, code block '
        'inclusion, include) before their blocks, optionally renamed through '
        'command aliases; expected entries come from a state machine over the '
        'document model. Non-trivial: a command is followed by a block it '
        'affects (the messages differ from those of the document without '
        'commands).')

ALL = G.COMMANDS + G.CODE_COMMANDS + ('mdpo-include',)


def rename(doc, aliases):
    """Use an alias in place of each command that has one."""
    names = {}
    for alias, command in aliases.items():
        full = command if command.startswith('mdpo-') else 'mdpo-' + command
        names.setdefault(full, alias)
    return {'blocks': [
        [b[0], names.get(b[1], b[1]), *b[2:]] if b[0] == 'cmd' else b
        for b in doc['blocks']], 'refs': doc['refs']}


@padded
def check(case, ctx):
    doc, opts = case['doc'], dict(case['opts'])
    include = opts.get('include_codeblocks', False)
    want = expected_entries(doc, include_codeblocks=include)
    plain = expected_entries(
        G.strip_commands(doc), include_codeblocks=include)
    ctx.nontrivial(want != plain)
    for b in doc['blocks']:
        if b[0] == 'cmd':
            ctx.label(b[1])
    ignored = [u.msgid for n, u in enumerate(G.units(doc))
               if n in case['ignore']]
    if ignored:
        opts['ignore_msgids'] = ignored
        want = [w for w in want if w[1] not in ignored]
    src = G.source(rename(doc, case['aliases']))
    if case['aliases']:
        opts['command_aliases'] = case['aliases']
    with ctx.tmpdir():
        po = extract(src, **opts)
    got = [(e.msgctxt, e.msgid, e.comment or None) for e in po]
    equal(got, want, 'extracted messages differ', source=src, options=opts)


@padded
def check_disabled(case, ctx):
    """What is not extracted is reported as disabled, and nothing else."""
    from mdpo.md2po import Md2Po
    doc = case['doc']
    src = G.source(doc)
    units = G.units(doc, include_codeblocks=True)
    with ctx.tmpdir():
        md2po = call(Md2Po, src, include_codeblocks=True)
        call(md2po.extract)
    ctx.nontrivial(any(not u.enabled for u in units)
                   and any(u.enabled for u in units))
    equal([(e.msgctxt, e.msgid) for e in md2po.disabled_entries],
          [u.key() for u in units if not u.enabled],
          'disabled messages differ', source=src)


@padded
def check_noop(case, ctx):
    """Comments that are no commands change nothing."""
    doc = case['doc']
    blocks = []
    for n, b in enumerate(doc['blocks']):
        if n in case['where']:
            blocks.append(['html', [case['comment']]])
        blocks.append(b)
    src = G.source({'blocks': blocks, 'refs': doc['refs']})
    ctx.nontrivial(len(blocks) > len(doc['blocks']))
    with ctx.tmpdir():
        po = extract(src, location=False)
    equal([(e.msgctxt, e.msgid, e.comment or None) for e in po],
          expected_entries(doc),
          'a comment that is not a command changed the messages', source=src)


def strategy():
    from hypothesis import strategies as st
    opts = st.fixed_dictionaries({}, optional={
        'include_codeblocks': st.booleans(), 'location': st.booleans()})
    target = st.sampled_from(ALL).flatmap(
        lambda c: st.sampled_from([c, c[len('mdpo-'):]]))
    alias = st.sampled_from(('mdpo-on', 'off', 'mdpo-skip', 'ctx', 'note-to',
                             'md:x', 'mdpo-disable-it', 'código'))
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(cmds=ALL, max_blocks=6, max_toks=4)),
        'opts': opts,
        'ignore': st.one_of(st.just([]), st.lists(
            st.integers(0, 6), max_size=2, unique=True)),
        'aliases': st.one_of(st.just({}), st.dictionaries(
            alias, target, max_size=3)),
    })


def strategy_code():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(
            inl=('c',), blk=('fence', 'icode', 'q', 'q-fence', 'ul',
                             'list-fence'), max_toks=2, max_blocks=6,
            cmds=G.CODE_COMMANDS * 2 + G.COMMANDS)),
        'opts': st.fixed_dictionaries({'include_codeblocks': st.booleans()}),
        'ignore': st.just([]), 'aliases': st.just({})})


def strategy_nested():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': st.one_of(
            G.docs(G.Profile(
                blk=G.Profile.ALL_BLK | {'q-cmd', 'list-cmd'}, max_toks=3,
                max_blocks=4, cmds=ALL)),
            G.docs(G.wide(cmds=ALL, max_blocks=8)),
            G.docs(G.dense(ALL, max_blocks=4, commands=(0, 0, 1, 2), blk=(
                'ul', 'ol', 'q', 'q-list', 'q-multi', 'q-q', 'nested', 'loose',
                'q-cmd', 'list-cmd', 'list-cmd-tight', 'list-fence',
                'q-list-nested')))),
        'opts': st.fixed_dictionaries({'include_codeblocks': st.booleans()}),
        'ignore': st.just([]), 'aliases': st.just({})})


def strategy_dense():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': st.one_of(
            G.docs(G.dense(ALL)),
            G.docs(G.dense(ALL, blk=('fence', 'icode', 'h', 'hr')))),
        'opts': st.fixed_dictionaries({'include_codeblocks': st.booleans()}),
        'ignore': st.just([]), 'aliases': st.just({})})


def strategy_disabled():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({'doc': G.docs(G.Profile(
        cmds=G.COMMANDS[:6] + ('mdpo-context',), max_blocks=6, max_toks=3,
        no=('refs',)))})


def strategy_noop():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(max_toks=3)),
        'where': st.lists(st.integers(0, 4), min_size=1, max_size=3),
        'comment': st.sampled_from((
            '<!-- note -->', '<!-- just a comment, nothing else -->',
            '<!-- mdpo disable -->', '<!-- mdpo-unknown thing -->',
            '<!-- disable -->', '<!-- context month -->', '<!---->',
            '<!-- xmdpo-disable -->', '<!-- mdpo-disable-all -->',
            '<!-- MDPO-DISABLE -->', '<!-- mdpo -->', '<!-- mdpo- -->',
            '<!-- TODO: mdpo-disable -->'))})


SUITES = [
    Suite('commands', strategy, check, quick=8000),
    Suite('code', strategy_code, check, quick=6000),
    Suite('nested', strategy_nested, check, quick=6000),
    Suite('dense', strategy_dense, check, quick=8000),
    Suite('disabled', strategy_disabled, check_disabled, quick=4000),
    Suite('no-command', strategy_noop, check_noop, quick=3000),
]
