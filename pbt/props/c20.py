"""C20: any text can be extracted, translated and extracted again."""
import glob
import os
import random
import re

import polib

from .. import mdgen as G
from ..core import Suite, call, cli, equal, expect
from ..util import (
    RUNS,
    make_po,
    markdown_pofile_to_html,
    markdown_to_pofile,
    pofile_to_markdown,
    read,
    write,
)
from ..htmlcmp import render

PROPERTY = 'C20'
RULE = ('cases are arbitrary texts: random sequences of fragments and lines of '
        'Markdown, HTML and mdpo commands, documents of the model damaged by '
        'random edits, and random Unicode. Non-trivial: there are at least '
        'two messages and some markup.')

FRAGMENTS = (
    'a', 'b c', 'word', '\n', '\n', '\n\n', '\n\n', '    ', '  ', '   ', ' ',
    '- ', '* ', '+ ', '1. ', '2) ', '> ', '>', '# ', '## ', '#', '===', '---',
    '***', '**', '*', '_', '__', '~~', '~', '`', '``', '```', '```\n', '~~~',
    '[', '](', '](/u)', ')', '![', '][', '[r]', '[r]: /u', '[r]: <u v> "t"',
    '"t"', "'", '<', '>', '<div>', '</div>', '<br>', '<b>', '</b>', '<!--',
    '-->', '<!-- mdpo-disable-next-line -->', '<!-- mdpo-disable -->',
    '<!-- mdpo-enable -->', '<!-- mdpo-context x -->',
    '<!-- mdpo-translator t -->', '<!-- mdpo-enable-next-block -->', '$', '$$',
    '[[', '|', ']]', '| a | b |\n|---|---|\n| c | d |', '&amp;', '&',
    '&nbsp;', '\\', '\\*', '\t', 'ñ', '日本', '\xa0', '\r\n', '\x0b', '\x0c',
    '\u2028', '\x00', '[x] ', '[ ] ', '{.python}', '!', '?', 'é', '"',
    'http://x.y', 'www.x.y', 'mdpo', 'mdpo-', '<!-- mdpo-', '\x85', '\x1c',
    '\u200b', '\ufeff', '😀', '%', '{', '}', '%s', '\\n', '\\t')
LINES = (
    'a', 'b c', '', '', '- x', '* y', '1. z', '2) w', '> q', '> - r', '# H',
    'S\n===', '```', '~~~', '    code', '| a | b |', '|---|---|', '| c | d |',
    '[r]: /u "t"', '[z]: <v w>', '<div>', '</div>',
    '<!-- mdpo-disable-next-line -->', '<!-- mdpo-disable -->',
    '<!-- mdpo-enable -->', '<!-- mdpo-context x -->',
    '<!-- mdpo-translator t -->', '<!-- note -->', '***',
    '[r] and [t](/u "i")', '![i](s)', '$$x$$', '`c` *e* **s**', '\\', 'a  ',
    '<http://a.b>', '[[w|x]]', '[ ] t', '- [x] t', '&amp; < "', 'e\\',
    '<span>h</span>', '$i$')
STARTS = ('', '', '', '', '  ', '   ', '    ', '\t', '> ', '- ', '1. ', '>')
EDITS = ('delete', 'repeat', 'insert', 'swap', 'indent', 'cut')


def damage(text, seed, n):
    """Random edits of a text."""
    rng = random.Random(seed)
    for _ in range(n):
        if not text:
            break
        i, j = sorted(rng.randrange(len(text) + 1) for _ in range(2))
        j = min(j, i + rng.choice((1, 2, 5, 20)))
        kind = rng.choice(EDITS)
        if kind == 'delete':
            text = text[:i] + text[j:]
        elif kind == 'repeat':
            text = text[:j] + text[i:j] + text[j:]
        elif kind == 'insert':
            text = text[:i] + rng.choice(FRAGMENTS) + text[i:]
        elif kind == 'swap':
            lines = text.split('\n')
            a, b = rng.randrange(len(lines)), rng.randrange(len(lines))
            lines[a], lines[b] = lines[b], lines[a]
            text = '\n'.join(lines)
        elif kind == 'indent':
            lines = text.split('\n')
            a = rng.randrange(len(lines))
            lines[a] = rng.choice(STARTS) + lines[a]
            text = '\n'.join(lines)
        else:
            text = text[:j]
    return text


def source(case):
    if 'doc' in case:
        text = damage(G.source(case['doc']), case['seed'], case['edits'])
    else:
        text = case['text']
    text = 'T\n\n' * case['head'] + text
    # commands for code blocks are not for po2md, that translates all of them
    text = re.sub('mdpo-(in|ex|dis)?(clude|able)?[a-z-]*codeblocks?', 'x', text)
    # the lines of PO comments end at any of these
    text = re.sub('mdpo-?translator.*', lambda m: re.sub(
        '[\x0b\x0c\x1c-\x1e\x85\u2028\u2029]', '', m.group()), text,
        flags=re.S)
    # md4c gives the spans of an automatic link next to a bracket in
    # another order
    return re.sub(r'<http://a\.b>(?=[^\n]*\])|(?<=\[)([^\n]*)<http://a\.b>',
                  r'\1', text)


def is_content(text):
    """Not the name of a file nor a glob that selects something."""
    try:
        return not (os.path.exists(text) or glob.glob(text))
    except Exception:
        return True


def extract_or_none(src, **kwargs):
    try:
        return markdown_to_pofile(src, **kwargs)
    except ValueError as exc:
        # commands without the value that they need are rejected
        if (str(exc).startswith('You need to specify a string for the')
                and re.search(r'mdpo-?(context|translator)', src)):
            return None
        raise


def check(case, ctx):
    src = source(case)
    with ctx.tmpdir():
        for name in ('m.po', 't.po', 's.md'):
            write(name, '')
        content = is_content(src)
        for name in ('m.po', 't.po', 's.md'):
            os.remove(name)
        if not content:
            return
        seen_by = {'md2po': [], 'po2md': []}

        def watch(name):
            def msgid(self, msgid, msgstr, msgctxt, tcomment, flags):
                if msgid and 'fuzzy' not in flags:
                    seen_by[name].append((msgctxt, msgid))
            return {'msgid': msgid}

        po = call(extract_or_none, src, include_codeblocks=True,
                  events=watch('md2po'))
        if po is None:
            ctx.label('command without value')
            return
        keys = [(e.msgctxt, e.msgid) for e in po]
        expect(all(e.msgid for e in po), 'entry without msgid', source=src)
        equal(sorted(set(keys), key=str), sorted(keys, key=str),
              'repeated entries', source=src)
        live = [k for k, e in zip(keys, po) if 'fuzzy' not in e.flags]
        ctx.nontrivial(len(live) > 1 and re.search(r'[`*_>#\[<|-]', src))
        ctx.label('entries:%d' % min(len(live), 5))
        equal(sorted(set(live), key=str),
              sorted(set(live) & set(seen_by['md2po']), key=str),
              'entries without msgid event', source=src)

        # the file holds the entries, and extracting again changes nothing
        opts = {'include_codeblocks': True, 'po_filepath': 'm.po'}
        call(markdown_to_pofile, src, save=True, wrapwidth=case['width'],
             **opts)
        saved = [(e.msgctxt, e.msgid) for e in call(polib.pofile, 'm.po')] \
            if os.path.exists('m.po') else []
        equal(saved, keys, 'the PO file holds other entries', source=src)
        if keys:
            before = read('m.po')
            # link references keep their translation when they are fuzzy
            again = call(markdown_to_pofile, src, save=True,
                         wrapwidth=case['width'], **opts)
            equal([(e.msgctxt, e.msgid) for e in again], keys,
                  'extracting again changes the entries', source=src)
            equal(read('m.po'), before, 'extracting again changes the file',
                  source=src)

        # every message has its translation in the document
        marks = {k: f'TR{n}X' for n, k in enumerate(live)}
        make_po('t.po', [(c, m, marks[(c, m)]) for c, m in live])
        out = call(pofile_to_markdown, src, 't.po', wrapwidth=0,
                   events=watch('po2md'))
        equal(seen_by['po2md'], seen_by['md2po'],
              'po2md and md2po find different messages', source=src)
        missing = [k for k in live if marks[k] not in out]
        expect(not missing, 'messages not translated', missing=missing,
               source=src, output=out)
        wrapped = call(pofile_to_markdown, src, 't.po',
                       wrapwidth=max(case['width'], 3))
        missing = [k for k in live if marks[k] not in wrapped]
        expect(not missing, 'messages not translated if wrapped',
               missing=missing, source=src, output=wrapped)

        # nothing else fails
        call(pofile_to_markdown, src, [])
        call(markdown_to_pofile, src)
        plain = call(markdown_to_pofile, src, plaintext=True)
        expect(all(e.msgid for e in plain), 'entry without msgid', source=src)
        page = render(src)
        if is_content(page):
            call(markdown_pofile_to_html, page, 't.po')
            call(markdown_pofile_to_html, page, [])
        if case['cli']:
            write('s.md', src)
            for run, args in (('md2po', ['s.md']), ('po2md', ['s.md', '-p', 't.po'])):
                result = cli(RUNS[run], args)
                equal(result.code, 0, f'{run} fails', source=src)


def texts():
    from hypothesis import strategies as st
    frag = st.lists(st.sampled_from(FRAGMENTS), min_size=1,
                    max_size=14).map(''.join)
    line = st.tuples(st.sampled_from(STARTS), st.one_of(
        st.sampled_from(LINES), st.sampled_from(LINES), frag)).map(''.join)
    return st.one_of(frag, st.lists(line, min_size=1, max_size=9)
                     .map('\n'.join))


def with_options(**fields):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'head': st.sampled_from((1, 1, 1, 0)),
        'width': st.sampled_from((0, 78, 78, 20, 5)),
        'cli': st.sampled_from((False, False, True)), **fields})


def fragments():
    return with_options(text=texts())


def damaged():
    from hypothesis import strategies as st
    prof = G.Profile(cmds=tuple(
        c for c in G.COMMANDS if 'codeblock' not in c), max_blocks=5)
    return with_options(
        doc=G.docs(prof), seed=st.integers(0, 10 ** 9),
        edits=st.integers(1, 6))


def unicode_texts():
    from hypothesis import strategies as st
    char = st.one_of(
        st.characters(blacklist_categories=('Cs',)),
        st.characters(max_codepoint=0x7f),
        st.sampled_from('\n\n -*_`<>[]()#|$!\\"&'))
    return with_options(text=st.text(char, max_size=60))


SUITES = [
    Suite('fragments', fragments, check, quick=12000),
    Suite('damaged', damaged, check, quick=9000),
    Suite('unicode', unicode_texts, check, quick=6000),
]
