"""C06: partial translations, contexts, commands and several PO files."""
import os

from .. import mdgen as G
from ..core import Suite, call, equal
from ..translation import plan
from ..util import make_po, padded, translate
from .c05 import same_meaning

PROPERTY = 'C06'
RULE = ('cases are generated documents with extraction commands, a generated '
        'subset of their messages translated (translations differ per context) '
        'and spread over several PO files with unrelated, empty and '
        'wrong-context entries; the output must render like the model document '
        'with exactly the chosen messages translated. Non-trivial: some '
        'messages are translated and others are not.')

CMDS = G.COMMANDS + G.CODE_COMMANDS + ('mdpo-include',)


def chooser(bits):
    """Deterministic choice by order of first appearance."""
    state = {'n': 0}

    def chosen(_unit):
        state['n'] += 1
        return bits[(state['n'] - 1) % len(bits)]
    return chosen


def code_clash(doc, ctx):
    """po2md does not know which code blocks were extracted.

    Known finding: it takes every code block for a message, so a skipped one
    consumes pending commands and is translated if another with the same
    code was extracted.
    """
    walker = G.Walker(doc)
    if walker.code_after_command or walker.skipped_code & {
            u.msgid for u in walker.units}:
        ctx.label('excluded: known finding on skipped code blocks')
        return True
    return False


@padded
def check_all_code(case, ctx):
    check(case, ctx, exclude=False)


@padded
def check(case, ctx, exclude=True):
    doc = case['doc']
    if exclude and code_clash(doc, ctx):
        return
    src = G.source(doc)
    entries, new = plan(doc, chooser(case['bits']), refs=case['refs'],
                        include_codeblocks=False)
    units = [u for u in G.units(doc) if u.enabled]
    translated = {e[:2] for e in entries}
    rest = [u for u in units if u.key() not in translated]
    ctx.nontrivial(bool(translated) and bool(rest))
    for u in units:
        if u.ctx is not None:
            ctx.label('translated in context' if u.key() in translated
                      else 'untranslated in context')
    if any(not u.enabled for u in G.units(doc)):
        ctx.label('disabled units')
    # distractors: other contexts, empty translations, unrelated messages
    noise = [(None, 'unrelated', 'UNRELATED'), ('zzz', 'unrelated', 'CTX')]
    ctxs = dict.fromkeys([None, *(u.ctx for u in units)])
    keys = {u.key() for u in units}
    for c in ctxs:
        noise.append((c, 'another unrelated', 'UNRELATED'))
    for u in units:
        noise.append(('another context', u.msgid, 'WRONG CONTEXT'))
        for c in ctxs:
            if (c, u.msgid) not in keys:
                noise.append((c, u.msgid, 'OTHER CONTEXT'))
        if u.key() not in translated:
            noise.append((u.ctx, u.msgid, ''))
    # the translations of fuzzy and obsolete entries are used too
    flags = case.get('flags') or ['']
    entries = [(*e, {flags[n % len(flags)]: True} if flags[n % len(flags)]
                else {}) for n, e in enumerate(entries)]
    # but not in place of others
    noise.extend((*e[:2], 'OBSOLETE', {'obsolete': True}) for e in entries
                 if 'obsolete' not in e[3])
    files = [[] for _ in range(case['files'])]
    for n, e in enumerate(entries):
        files[case['spread'][n % len(case['spread'])] % len(files)].append(e)
    for n, e in enumerate(noise):  # before or after the translations
        part = files[n % len(files)]
        part.insert(0 if case['bits'][n % len(case['bits'])]
                    else len(part), e)
    with ctx.tmpdir():
        names = []
        for n, part in enumerate(files):
            name = {'list': f'{n}.po', 'glob': f'{n}.po',
                    'dirs': f'd{n}/es.po', 'dirs-glob': f'd{n}/es.po',
                    'same-glob': f'{n}.po'}[case['how']]
            if '/' in name:
                os.mkdir(os.path.dirname(name))
            make_po(name, part)
            names.append(name)
        arg = {'list': names, 'dirs': names, 'glob': '*.po',
               'dirs-glob': 'd*/es.po', 'same-glob': ['*.po', *names]
               }[case['how']]
        out = translate(src, arg, wrapwidth=0)
    same_meaning(G.source(new), out, 'output does not mean the document with '
                 'the chosen messages translated', original=src)


@padded
def check_disabled_in_po(case, ctx):
    """A disabled message stays untranslated even if the PO has it."""
    doc = case['doc']
    src = G.source(doc)
    entries, new = plan(doc, include_codeblocks=False)
    keys = {e[:2] for e in entries}
    form = G.Form(doc['refs'])
    units = G.units(doc)
    extra = [(u.ctx, u.msgid, 'MUST NOT APPEAR') for u in units
             if not u.enabled and u.key() not in keys]
    assert form
    ctx.nontrivial(bool(extra) and bool(entries))
    with ctx.tmpdir():
        make_po('a.po', entries + extra)
        from mdpo.po2md import Po2Md
        po2md = call(Po2Md, 'a.po', wrapwidth=0)
        out = call(po2md.translate, src)
    same_meaning(G.source(new), out, 'output does not mean the document with '
                 'its enabled messages translated', original=src)
    equal(sorted((e.msgctxt or '', e.msgid) for e in po2md.disabled_entries),
          sorted((u.ctx or '', u.msgid) for u in units
                 if not u.enabled and u.kind not in ('include', 'fence',
                                                     'icode')),
          'disabled messages reported by po2md differ', source=src)


def flags():
    from hypothesis import strategies as st
    return st.lists(st.sampled_from(('', '', '', 'fuzzy', 'obsolete')),
                    min_size=1, max_size=4)


def strategy(prof=None):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(prof or G.Profile(cmds=CMDS, max_blocks=6, max_toks=4)),
        'flags': flags(),
        'bits': st.lists(st.booleans(), min_size=1, max_size=6),
        'refs': st.booleans(),
        'files': st.integers(1, 3),
        'spread': st.lists(st.integers(0, 2), min_size=1, max_size=4),
        'how': st.sampled_from(
            ('list', 'glob', 'dirs', 'dirs-glob', 'same-glob'))})


def strategy_nested():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(
            blk=G.Profile.ALL_BLK | {'q-cmd', 'list-cmd'}, cmds=CMDS,
            max_blocks=4, max_toks=4)),
        'flags': flags(),
        'bits': st.lists(st.booleans(), min_size=1, max_size=6),
        'refs': st.booleans(), 'files': st.just(1), 'spread': st.just([0]),
        'how': st.just('list')})


def strategy_dense():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(G.dense(CMDS)),
        'flags': flags(),
        'bits': st.lists(st.sampled_from((True, True, True, False)),
                         min_size=1, max_size=6),
        'refs': st.booleans(), 'files': st.just(1), 'spread': st.just([0]),
        'how': st.just('list')})


def strategy_disabled():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(cmds=G.COMMANDS, max_blocks=6, max_toks=4,
                                no=('math', 'fence', 'icode', 'q-fence',
                                    'list-fence')))})


SUITES = [Suite('partial', strategy, check, quick=12000),
          Suite('disabled', strategy_disabled, check_disabled_in_po,
                quick=7500),
          Suite('nested', strategy_nested, check, quick=7500),
          Suite('dense', strategy_dense, check, quick=9000),
          Suite('wide', lambda: strategy(G.wide(cmds=CMDS)), check,
                quick=1200),
          # only replays the known findings
          Suite('partial-all', strategy, check_all_code, quick=0)]
