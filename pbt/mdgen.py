"""Markdown document model: generators, renderer, expected messages.

A document is JSON data, so cases can be stored and shrunk:

    doc   = {"blocks": [block, ...], "refs": [[target, href, title|null], ...]}
    block = ["p", inl]                     paragraph
          | ["h", level, inl, style]       heading; style: "#", "##" (closed), "="
          | ["ul", mark, [item, ...], loose]
          | ["ol", delim, [item, ...], loose]
          | ["q", [block, ...]]            block quote
          | ["fence", char, n, info, [line, ...]]
          | ["icode", [line, ...]]         indented code
          | ["html", [line, ...]]          HTML block
          | ["hr", text]
          | ["table", [align, ...], [cell_inl, ...], [[cell_inl, ...], ...]]
          | ["cmd", name, arg|null]        mdpo command comment
          | ["math", text, lines]          $$display$$ paragraph, in lines
    item  = {"task": null|" "|"x", "inl": inl, "sub": [block, ...]}
    inl   = [tok, ...]   tokens are separated by one space, except where noted
    tok   = ["t", word] | ["b", inl, style] | ["i", inl, style] | ["s", inl, n]
          | ["c", code, ticks] | ["a", inl, href, title|null] | ["u", url]
          | ["r", inl, target] | ["img", alt, src, title|null] | ["m", tex, n]
          | ["w", target, text|null] | ["e", char] | ["raw", html]
          | ["l", url]  autolink inside the text of a link
          | ["n"]  soft line break instead of the space
          | ["p", punct]  glued to the previous token, no space
"""
import re

from hypothesis import strategies as st

# --------------------------------------------------------------------------
# inline rendering


def _ticks_needed(code):
    """Length of the shortest backtick run that does not occur in `code`."""
    runs, cur = set(), 0
    for ch in code + '\0':
        if ch == '`':
            cur += 1
        else:
            if cur:
                runs.add(cur)
            cur = 0
    n = 1
    while n in runs:
        n += 1
    return n


def _pad(code):
    return f' {code} ' if code.startswith('`') or code.endswith('`') else code


def src_tok(tok):
    kind = tok[0]
    if kind == 't':
        return tok[1]
    if kind == 'b':
        d = tok[2] * 2
        return d + src_inl(tok[1]) + d
    if kind == 'i':
        return tok[2] + src_inl(tok[1]) + tok[2]
    if kind == 'U':
        return '_' * tok[2] + src_inl(tok[1]) + '_' * tok[2]
    if kind == 's':
        return '~' * tok[2] + src_inl(tok[1]) + '~' * tok[2]
    if kind == 'c':
        ticks = '`' * (_ticks_needed(tok[1]) + tok[2])
        while len(ticks) in _runs(tok[1]):
            ticks += '`'
        return ticks + _pad(tok[1]) + ticks
    if kind == 'a':
        return f'[{src_inl(tok[1])}]({dest(tok[2])}{_title(tok[3])})'
    if kind == 'r':
        text = src_inl(tok[1])
        if tok[3:]:                 # collapsed and shortcut references
            return f'[{text}]{tok[3]}'
        return f'[{text}][{tok[2]}]'
    if kind in ('u', 'l'):
        return f'<{tok[1]}>'
    if kind == 'img':
        return f'![{alt(tok[1], src_inl)}]({dest(tok[2])}{_title(tok[3])})'
    if kind == 'm':
        dollars = '$' * tok[2]
        return f'{dollars}{tok[1]}{dollars}'
    if kind == 'w':
        return f'[[{tok[1]}|{tok[2]}]]' if tok[2] is not None \
            else f'[[{tok[1]}]]'
    if kind == 'e':
        return '\\' + tok[1]
    if kind in ('raw', 'p'):
        return tok[1]
    raise ValueError(tok)


def dest(href):
    return f'<{href}>' if href in ANGLE else href


def alt(value, render):
    """Alternative text of an image: plain, or with inline markup."""
    return value if isinstance(value, str) else render(value)


def _runs(code):
    runs, cur = set(), 0
    for ch in code + '\0':
        if ch == '`':
            cur += 1
        else:
            if cur:
                runs.add(cur)
            cur = 0
    return runs


def _title(title):
    if title is None:
        return ''
    return ' "' + title.replace('\\', '\\\\').replace('"', '\\"') + '"'


def flat(title):
    return re.sub(r'\s*\n\s*', ' ', title)


def _join(inl, render):
    out = ''
    sep = ''
    for tok in inl:
        if tok[0] == 'n':
            sep = '\n'
            continue
        if tok[0] == 'p':
            out += tok[1]
        else:
            out += sep + render(tok)
        sep = ' '
    return out


def src_inl(inl):
    return _join(inl, src_tok)


# --------------------------------------------------------------------------
# expected message of an inline sequence (mdpo's documented normal form)

class Form:
    """What the extraction is expected to write for inline markup."""

    def __init__(self, refs=(), plaintext=False):
        self.refs = refs
        self.plaintext = plaintext

    def inl(self, inl):
        return _join_msg(inl, self.tok)

    def ref(self, target):
        return next(r for r in self.refs if r[0] == target)

    def target_of(self, href, title):
        for t, h, ti in self.refs:
            if h == href and (ti or None) == (title or None):
                return t
        return None

    def tok(self, tok):
        if self.plaintext:
            return self.plain_tok(tok)
        kind = tok[0]
        if kind == 't':
            return tok[1]
        if kind == 'b':
            return '**' + self.inl(tok[1]) + '**'
        if kind == 'i':
            return '*' + self.inl(tok[1]) + '*'
        if kind == 'U':
            text = self.inl(tok[1])
            return text if tok[3] else f'__{text}__'
        if kind == 's':
            return '~~' + self.inl(tok[1]) + '~~'
        if kind == 'c':
            t = '`' * _ticks_needed(tok[1])
            return t + _pad(tok[1]) + t
        if kind == 'a':
            text = self.inl(tok[1])
            ref = self.target_of(tok[2], tok[3])
            if ref is not None:
                return f'[{text}]' if ref == text else f'[{text}][{ref}]'
            title = '' if not tok[3] else _title(flat(tok[3]))
            if text == tok[2] and ':' in text:
                return f'<{text}{title}>'
            return f'[{text}]({dest(tok[2])}{title})'
        if kind == 'r':
            text = self.inl(tok[1])
            t, h, ti = next(r for r in self.refs if r[0] == tok[2])
            ref = self.target_of(h, ti)
            return f'[{text}]' if ref == text else f'[{text}][{ref}]'
        if kind == 'u':
            ref = self.target_of(tok[1], None)
            if ref is not None:
                return f'[{tok[1]}][{ref}]'
            return f'<{tok[1]}>'
        if kind == 'l':
            return f'<{tok[1]}>'
        if kind == 'img':
            ref = self.target_of(tok[2], tok[3])
            text = alt(tok[1], self.inl)
            if ref is not None:
                return f'![{text}][{ref}]'
            title = '' if not tok[3] else _title(flat(tok[3]))
            return f'![{text}]({dest(tok[2])}{title})'
        if kind == 'm':
            dollars = '$' * tok[2]
            return f'{dollars}{tok[1]}{dollars}'
        if kind == 'w':
            return f'[[{tok[1]}|{tok[2]}]]' if tok[2] is not None \
                else f'[[{tok[1]}]]'
        if kind == 'e':
            return '\\' + tok[1]
        return tok[1]

    def plain_tok(self, tok):
        kind = tok[0]
        if kind in ('b', 'i', 's', 'a', 'r'):
            return self.inl(tok[1])
        if kind == 'img':
            return alt(tok[1], self.inl)
        if kind == 'w':
            return tok[2] if tok[2] is not None else tok[1]
        return tok[1]


def _join_msg(inl, render):
    out, sep = '', ''
    for tok in inl:
        if tok[0] == 'n':
            continue
        if tok[0] == 'p':
            out += tok[1]
        else:
            out += sep + render(tok)
        sep = ' '
    return out


# --------------------------------------------------------------------------
# block rendering

def src_lines_inl(inl):
    return src_inl(inl).split('\n')


ALIGN = {'': '---', 'l': ':--', 'c': ':-:', 'r': '--:'}


def block_lines(block):
    kind = block[0]
    if kind == 'p':
        return src_lines_inl(block[1])
    if kind == 'h':
        _, level, inl, style = block
        text = src_inl(inl)
        if style == '=':
            return [*text.split('\n'),
                    ('=' if level == 1 else '-') * max(3, min(len(text), 20))]
        mark = '#' * level
        return [f'{mark} {text} {mark}' if style == '##' else f'{mark} {text}']
    if kind in ('ul', 'ol'):
        out = []
        for n, item in enumerate(block[2]):
            mark = block[1] if kind == 'ul' else f'{n + 1}{block[1]}'
            indent = ' ' * (len(mark) + 1)
            lines = []
            task = '' if item['task'] is None else f'[{item["task"]}] '
            first = src_lines_inl(item['inl'])
            lines.extend([task + first[0]] + first[1:])
            for n_sub, sub in enumerate(item['sub']):
                if block[3] or not (
                        sub[0] in ('ul', 'ol', 'fence', 'cmd')
                        or sub[0] == 'q' and sub[2:]
                        or n_sub and item['sub'][n_sub - 1][0] == 'cmd'
                        or n_sub and item['sub'][n_sub - 1][0] == 'fence'):
                    lines.append('')
                lines.extend(block_lines(sub))
            if out and block[3]:
                out.append('')
            out.append(f'{mark} {lines[0]}')
            out.extend(indent + ln if ln else '' for ln in lines[1:])
        return out
    if kind == 'q':
        inner = blocks_lines(block[1])
        return [f'> {ln}' if ln else '>' for ln in inner]
    if kind == 'fence':
        _, char, n, info, lines = block
        while any(ln.lstrip().startswith(char * n) for ln in lines):
            n += 1
        return [char * n + info, *lines, char * n]
    if kind == 'icode':
        return ['    ' + ln if ln else '' for ln in block[1]]
    if kind == 'html':
        return list(block[1])
    if kind == 'hr':
        return [block[1]]
    if kind == 'table':
        _, aligns, head, rows = block
        row = lambda cells: '| ' + ' | '.join(src_inl(c) for c in cells) + ' |'
        return [row(head), '| ' + ' | '.join(ALIGN[a] for a in aligns) + ' |',
                *[row(r) for r in rows]]
    if kind == 'cmd':
        arg = f' {block[2]}' if block[2] is not None else ''
        return [f'<!-- {block[1]}{arg} -->']
    if kind == 'math':
        return f'$$\n{block[1]}\n$$'.split('\n') if block[2] \
            else f'$${block[1]}$$'.split('\n')
    raise ValueError(block)


def blocks_lines(blocks):
    out = []
    prev = None
    for b in blocks:
        if prev is not None and not (
                prev[0] == 'cmd' and len(prev) > 3 and prev[3] == 'tight'
                and b[0] != 'icode'):
            out.append('')
        out.extend(block_lines(b))
        prev = b
    return out


def ref_line(ref, style=0):
    """Definition of a link reference, with any quotes."""
    target, href, title = ref
    if style > 3:
        href = f'<{href}>'
    if title:
        quotes = ('""', "''", '()')[style % 3]
        for char in '\\' + ''.join(sorted(set(quotes))):
            title = title.replace(char, '\\' + char)
        title = f' {quotes[0]}{title}{quotes[1]}'
    return f'[{target}]: {href}{title or ""}'


def source(doc):
    lines = blocks_lines(doc['blocks'])
    if doc.get('refs'):
        styles = doc.get('styles') or [0]
        refs = [ref_line(r, styles[n % len(styles)])
                for n, r in enumerate(doc['refs'])]
        lines = [*refs, '', *lines] if doc.get('refs_first') \
            else [*lines, '', *refs]
    return '\n'.join(lines) + '\n'


# --------------------------------------------------------------------------
# expected messages

BLOCK_NAME = {'p': 'paragraph', 'h': 'header', 'ul': 'unordered list',
              'ol': 'ordered list', 'q': 'quote', 'fence': 'code',
              'icode': 'code', 'html': 'html', 'table': 'table',
              'cmd': 'html', 'math': 'paragraph'}


class Unit:
    """One translatable message of the document, in document order."""
    __slots__ = ('msgid', 'ctx', 'tcomment', 'enabled', 'kind', 'block',
                 'block_type', 'path')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def key(self):
        return (self.ctx, self.msgid)

    def __repr__(self):
        return (f'Unit({self.msgid!r}, ctx={self.ctx!r}, tc={self.tcomment!r},'
                f' enabled={self.enabled}, {self.kind}, block {self.block} '
                f'({self.block_type}))')


class Walker:
    """Documented extraction semantics over the document model."""

    def __init__(self, doc, plaintext=False, include_codeblocks=False,
                 aliases=None):
        self.form = Form(doc.get('refs') or (), plaintext)
        self.plaintext = plaintext
        self.refs = {r[0]: r for r in doc.get('refs') or ()}
        self.units = []
        self.disable = False
        self.disable_next = False
        self.enable_next = False
        self.ctx = None
        self.tcomment = None
        self.include_cb = include_codeblocks
        self.include_next_cb = False
        self.disable_next_cb = False
        self.block_no = 0
        self.block_type = None
        # code blocks that are no messages: their texts, and whether one was
        # found while a command was waiting for a message
        self.skipped_code = set()
        self.code_after_command = False
        self.aliases = aliases or {}
        self.blocks(doc['blocks'], (), top=True)

    def emit(self, msgid, kind, path):
        if msgid:
            self.units.append(Unit(
                msgid=msgid, ctx=self.ctx, tcomment=self.tcomment,
                enabled=(not self.disable and not self.disable_next)
                or self.enable_next,
                kind=kind, block=self.block_no, block_type=self.block_type,
                path=path))
            self.consume()

    def titles(self, inl):
        # plain text mode: titles are messages on their own
        for tok in inl:
            title = None
            if tok[0] in ('a', 'img'):
                title = tok[3]
            elif tok[0] == 'r':
                title = self.refs[tok[2]][2]
            if title:
                self.units.append(Unit(
                    msgid=title, ctx=None, tcomment=None, kind='title',
                    enabled=(not self.disable and not self.disable_next)
                    or self.enable_next, block=self.block_no,
                    block_type=self.block_type, path=None))
            if tok[0] in ('b', 'i', 's', 'a', 'r', 'U'):
                self.titles(tok[1])

    def text(self, inl, kind, path):
        if self.plaintext:
            self.titles(inl)
        self.emit(self.form.inl(inl), kind, path)

    def consume(self):
        self.ctx = self.tcomment = None
        self.disable_next = self.enable_next = False

    def blocks(self, blocks, path, top=False):
        for n, b in enumerate(blocks):
            prev = blocks[n - 1] if n else ('p',)
            # md4c joins HTML blocks without blank lines between them
            joined = prev[0] == 'cmd' and prev[3:] and b[0] in ('cmd', 'html')
            if top and b[0] != 'hr' and not joined:
                self.block_no += 1
                self.block_type = BLOCK_NAME[b[0]]
            self.block(b, (*path, n))

    def block(self, b, path):
        kind = b[0]
        if kind in ('p', 'h'):
            inl = b[1] if kind == 'p' else b[2]
            self.text(inl, kind, path)
        elif kind in ('ul', 'ol'):
            for n, item in enumerate(b[2]):
                self.text(item['inl'], 'li', (*path, n))
                self.blocks(item['sub'], (*path, n, 'sub'))
        elif kind == 'q':
            if len(path) > 1 and 'q' not in path:
                # quotes inside lists are located as blocks of their own
                self.block_no += 1
                self.block_type = 'quote'
            self.blocks(b[1], (*path, 'q'))
        elif kind in ('fence', 'icode'):
            lines = b[4] if kind == 'fence' else b[1]
            if not self.disable_next_cb and (
                    self.include_cb or self.include_next_cb):
                self.emit(''.join(ln + '\n' for ln in lines), kind, path)
            else:
                self.skipped_code.add(''.join(ln + '\n' for ln in lines))
                if self.ctx or self.tcomment or self.disable_next \
                        or self.enable_next:
                    self.code_after_command = True
            self.include_next_cb = self.disable_next_cb = False
        elif kind == 'table':
            for n, c in enumerate(b[2]):
                self.text(c, 'th', (*path, 'h', n))
            for r, row in enumerate(b[3]):
                for n, c in enumerate(row):
                    self.text(c, 'td', (*path, r, n))
        elif kind == 'math':
            self.emit(b[1].replace('\n', ' '), 'math', path)
        elif kind == 'cmd':
            self.command(b, path)

    def command(self, b, path):
        name = self.aliases.get(b[1], b[1])
        arg = b[2]
        if name in ('mdpo-disable-next-block', 'mdpo-disable-next-line'):
            self.disable_next = True
        elif name in ('mdpo-enable-next-block', 'mdpo-enable-next-line'):
            self.enable_next = True
        elif name == 'mdpo-disable':
            self.disable = True
        elif name == 'mdpo-enable':
            self.disable = False
        elif name == 'mdpo-include-codeblock':
            self.include_next_cb = True
        elif name == 'mdpo-disable-codeblock':
            self.disable_next_cb = True
        elif name == 'mdpo-include-codeblocks':
            self.include_cb = True
        elif name == 'mdpo-disable-codeblocks':
            self.include_cb = False
        elif name == 'mdpo-translator':
            self.tcomment = arg
        elif name == 'mdpo-context':
            self.ctx = arg
        elif name == 'mdpo-include':
            self.emit(arg, 'include', path)


def units(doc, **kw):
    return Walker(doc, **kw).units


def ref_msgid(ref):
    target, href, title = ref
    return f'[{target}]: {href}{_title(title and flat(title))}'


# --------------------------------------------------------------------------
# translation of the model: a bijection on words, so that the expected
# translated document is known without calling the code under test

_FROM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
_TO = 'bcdefghijklmnopqrstuvwxyzaBCDEFGHIJKLMNOPQRSTUVWXYZA'
_TABLE = str.maketrans(_FROM, _TO)


def tr_word(word, tag=''):
    """Rotate ASCII letters; entities and URLs are never passed here."""
    return word.translate(_TABLE) + tag


def tr_inl(inl, tag=''):
    return [tr_tok(t, tag) for t in inl]


def tr_tok(tok, tag=''):
    kind = tok[0]
    if kind == 't':
        if '&' in tok[1]:
            return tok
        return ['t', tr_word(tok[1], tag if tok[1][-1:].isalpha() else '')]
    if kind in ('b', 'i', 's', 'U'):
        return [kind, tr_inl(tok[1], tag), *tok[2:]]
    if kind == 'c':
        return ['c', tr_word(tok[1]), tok[2]]
    if kind == 'a':
        return ['a', tr_inl(tok[1], tag), tok[2],
                tok[3] and tr_word(tok[3])]
    if kind == 'r':
        return ['r', tr_inl(tok[1], tag), tok[2]]
    if kind == 'img':
        text = tr_word(tok[1]) if isinstance(tok[1], str) \
            else tr_inl(tok[1], tag)
        return ['img', text, tok[2], tok[3] and tr_word(tok[3])]
    if kind == 'w':
        return ['w', tok[1], tok[2] and tr_word(tok[2])]
    return tok


def map_units(doc, fn_inl, fn_lines, **kw):
    """Rebuild `doc`, replacing units for which a function returns a value.

    fn_inl(unit, inl) -> new inline list or None;
    fn_lines(unit, lines) -> new code lines or None.
    """
    by_path = {u.path: u for u in units(doc, **kw)}

    def do_inl(inl, path):
        u = by_path.get(path)
        if u is None:
            return inl
        new = fn_inl(u, inl)
        return inl if new is None else new

    def do_block(b, path):
        kind = b[0]
        if kind == 'p':
            return ['p', do_inl(b[1], path)]
        if kind == 'h':
            return ['h', b[1], do_inl(b[2], path), b[3]]
        if kind in ('ul', 'ol'):
            items = []
            for n, it in enumerate(b[2]):
                items.append({
                    'task': it['task'], 'inl': do_inl(it['inl'], (*path, n)),
                    'sub': do_blocks(it['sub'], (*path, n, 'sub'))})
            return [kind, b[1], items, b[3]]
        if kind == 'q':
            return ['q', do_blocks(b[1], (*path, 'q')), *b[2:]]
        if kind in ('fence', 'icode'):
            u = by_path.get(path)
            lines = b[4] if kind == 'fence' else b[1]
            new = fn_lines(u, lines) if u is not None else None
            if new is None:
                return b
            return [*b[:-1], new]
        if kind == 'math':
            u = by_path.get(path)
            new = fn_lines(u, [u.msgid]) if u is not None else None
            return b if new is None else ['math', new[0], b[2]]
        if kind == 'table':
            return ['table', b[1],
                    [do_inl(c, (*path, 'h', n)) for n, c in enumerate(b[2])],
                    [[do_inl(c, (*path, r, n)) for n, c in enumerate(row)]
                     for r, row in enumerate(b[3])]]
        return b

    def do_blocks(blocks, path):
        return [do_block(b, (*path, n)) for n, b in enumerate(blocks)]

    return {'blocks': do_blocks(doc['blocks'], ()),
            'refs': doc.get('refs') or []}


def strip_commands(doc):
    return {'blocks': [b for b in doc['blocks'] if b[0] != 'cmd'],
            'refs': doc.get('refs') or []}


def kinds(doc):
    """Set of block and inline kinds occurring in the document."""
    found = set()

    def inl(toks):
        for t in toks:
            found.add('inl:' + t[0])
            if t[0] == 'img' and not isinstance(t[1], str):
                found.add('inl:alt')
                inl(t[1])
            if t[0] in ('b', 'i', 's', 'a', 'r', 'U'):
                for s in t[1]:
                    if s[0] not in ('t', 'p', 'n'):
                        found.add('inl:nested')
                inl(t[1])

    def blocks(bs, depth):
        for b in bs:
            found.add('blk:' + b[0])
            if b[0] in ('p', 'h'):
                inl(b[1] if b[0] == 'p' else b[2])
            elif b[0] in ('ul', 'ol'):
                for it in b[2]:
                    inl(it['inl'])
                    if it['task'] is not None:
                        found.add('blk:task')
                    if it['sub']:
                        found.add('blk:nested')
                    blocks(it['sub'], depth + 1)
                if b[3]:
                    found.add('blk:loose')
            elif b[0] == 'q':
                blocks(b[1], depth + 1)
            elif b[0] == 'table':
                for c in b[2]:
                    inl(c)
                for row in b[3]:
                    for c in row:
                        inl(c)
    blocks(doc['blocks'], 0)
    return found


# --------------------------------------------------------------------------
# strategies

WORDS = (
    'alpha', 'Bravo', 'charlie', 'delta', 'Echo', 'foxtrot', 'golf', 'hotel',
    'India', 'juliet', 'kilo', 'lima', 'mike', 'November', 'oscar', 'papa',
    'the', 'of', 'a', 'I', 'May', 'ñandú', 'Größe', 'élan', 'çedilla',
    'Привет', 'Ελλάδα', 'שלום', 'مرحبا', '日本語', '한국어', 'msgid', 'fuzzy',
    'mdpo', 'None', 'supercalifragilistic',
)
# fine inside a line, not used to start one
MID_WORDS = (
    '3.14', '50%', "don't", 'snake_case', '(x)', '"quoted"', 'x=1', 'v1.2',
    'e.g.', 'and/or', '—', '…', 'C++', 'C#', 'foo@bar', '#tag', '@me', '&',
    '&amp;', '&copy;', '&#35;', 'a\\b', 'C:\\dir', "'single'", '{brace}',
    'x^2', 'a;b', 'k:v', 'http://raw.example/p', '%s', '😀', '\u0301x',
    'ﬁ', 'a&b', '¿qué?', '100', '7th', '?', '!', ':)', '\\n',
)
# block markers when they start a line
MARKER_WORDS = ('-', '+', '#', '1.', '2)', '=', '---', '>')

# destinations that must be written between < and >
ANGLE = ('my file.md', 'f(x', 'a)b')
HREFS = ('https://example.com', *ANGLE, '/w(x)', 'https://a.example/x_y?q=1&r=2#frag', '/path',
         'rel/file.md', '#anchor', 'mailto:a@b.example', 'b.html', '../up')
SRCS = ('/img.png', 'https://i.example/p_q.svg', 'pic.jpg')
TITLES = ('Title', 'next\x85line', 'A longer title', "it's", 'say "hi"', 'título', 'a (b)',
          'back\\slash', 'tab\there')
REF_TITLES = TITLES[:-1]
LINES_TITLES = TITLES + ('two\nlines', 'three "lines"\nof text\nhere')
URLS = ('https://auto.example', 'http://auto.example/a_b?c=d', 'ftp://f.example')
CODES = ('x', 'code', 'a b', 'a*b', 'snake_case', '**no**', '<tag>', '&amp;',
         '[a](b)', 'x `y` z', 'one `` two', '"q"', "it's", '\\n', 'ñ', 'a|b',
         '$x$', '~~n~~', '%d', '1.', '#')
TEX = ('x', 'x+1', 'a_1', '\\alpha', 'x^2', 'E=mc^2')
WIKI = ('Page', 'Other page', 'wiki/Path')
RAW = ('<br>', '<kbd>Ctrl</kbd>', '<span class="k">raw</span>', '<!-- note -->')
PUNCT = (',', '.', '!', ';', ':', '?')
CODELINES = ('x = 1', 'a\x0cb\x85c', 'one\u2028two\x0b, three', 'print("hi")', 'see\x0c[x]: y', '', '  indented', '# comment', '- item',
             '**stars**', 'a `tick` b', '<p>html</p>', '1. one', '> q',
             'ñandú', '\\escape', '```', '~~~', '  ```', ' ~~~ x', '````', 'if a < b & c:', '$x$', '[l](u)', '%s %d',
             '[ref]: https://decoy.example "Decoy"', '[x]: y',
             'a very long line of code that goes on and on well past eighty '
             'characters in total width')
INFO = ('', 'python', 'js', 'c++', 'text', 'js {1,3}', 'text title="x"')
CTX = ('month', 'verb', 'Some context', 'ñ ctx', 'menu 2', 'None', '0',
       "it's a menu, really!", 'dash-', '-x', 'tab\tctx')
COMMENTS = ('note', 'A comment for the translator', 'ñ comment', 'x 1',
            'Be careful: "quotes", `code` & more -> here (v1.2)',
            'ends in dashes--', 'a  b')
INCLUDES = ('Included message', 'Included-', 'in  clu\tded', 'other include', 'ñ', 'With *markup*, too!')
TARGETS = ('ref', 'docs-link', 'r1', 'other_ref', 'Site', 'r2', 'x', 'A.b',
           'long-name-of-a-target', '10')


def word():
    return st.one_of(
        st.sampled_from(WORDS),
        st.text('abcdefghij', min_size=1, max_size=8),
    )


def code_text():
    return st.one_of(
        st.sampled_from(CODES),
        st.text('ab`*_ <', min_size=1, max_size=8).filter(
            lambda s: s == s.strip() and '  ' not in s and s.strip('`')),
    )


class Profile:
    """Which features the generator may use."""

    ALL_INL = frozenset('b i s c a u l img m w e raw r n p mid marker alt '
                        'same-text angle'.split())
    ALL_BLK = frozenset(
        'h ul ol q fence icode html hr table math task nested loose refs same-href '
        'list-q list-q-tight list-fence list-p q-list q-h q-fence q-multi setext '
        'ul2 ol-in-ul list-after list-h list-hr list-html q-html q-hr '
        'q-table q-q list-table list-multi math-lines'.split())

    def __init__(self, inl=None, blk=None, cmds=(), max_blocks=5,
                 max_toks=6, code=None, words=None, no=(),
                 commands=(0, 0, 0, 0, 1, 1, 1, 2, 3), depth=3,
                 wide=1):
        self.inl = (self.ALL_INL if inl is None else frozenset(inl)) \
            - frozenset(no)
        self.blk = (self.ALL_BLK if blk is None else frozenset(blk)) \
            - frozenset(no)
        self.cmds = tuple(cmds)
        # number of commands before each block
        self.commands = commands
        # levels of nested lists inside a list; many if more than the default
        self.depth = depth
        # factor for the number of items, rows, lines of code and references
        self.wide = wide
        self.max_blocks = max_blocks
        self.max_toks = max_toks
        self.code = code_text() if code is None else code
        self.word = word() if words is None else words
        self.hrefs, self.srcs = (
            [h for h in hrefs if 'angle' in self.inl or h not in ANGLE]
            for hrefs in (HREFS, SRCS + ANGLE[:1]))


@st.composite
def inline(draw, prof, refs=(), lines=True, cell=False, depth=0,
           max_toks=None, in_link=False):
    n = draw(st.integers(1, max_toks or prof.max_toks))
    toks = []
    choices = ['t', 't', 't']
    have = prof.inl
    if 'mid' in have:
        choices.append('mid')
    if 'marker' in have and depth == 0:
        choices.append('marker')
    for k in ('b', 'i', 's'):
        if k in have and depth < 2:
            choices.append(k)
    for k in ('c', 'e', 'raw'):
        if k in have:
            choices.append(k)
    if 'm' in have:
        choices.append('m')
    if not in_link:
        for k in ('a', 'u', 'w'):
            if k in have and not (k == 'w' and depth):
                choices.append(k)
        if refs and 'r' in have:
            choices.append('r')
            choices.append('r')
    elif 'l' in have and not cell:
        choices.append('l')
    if 'img' in have:
        choices.append('img')
    if 'p' in have:
        choices.append('p')
    if lines and 'n' in have:
        choices.extend(['n', 'n'])
    titles = st.sampled_from(
        LINES_TITLES if lines and 'n' in have else TITLES)
    for i in range(n):
        first = i == 0 or toks[-1][0] == 'n'
        last = i == n - 1
        kind = draw(st.sampled_from(choices))
        if depth and (first or last) and kind not in ('t', 'c'):
            kind = 't'          # flanking of the enclosing delimiters
        if first and kind in ('p', 'n', 'marker', 'mid', 'raw', 'e', 'm', 's'):
            kind = 't'
        if first and i and kind not in ('t', 'b', 'a', 'c'):
            kind = 't'          # keep continuation lines from starting a block
        if last and kind in ('n',):
            kind = 't'
        if toks and toks[-1][0] in ('p', 'e', 'raw') and kind == 'p':
            kind = 't'
        if first and i and not last and 'mid' in have \
                and not draw(st.integers(0, 7)):
            # link references do not interrupt paragraphs
            toks.extend([['t', '[note]:'], ['t', draw(prof.word)]])
        elif kind == 't':
            toks.append(['t', draw(prof.word)])
        elif kind == 'mid':
            toks.append(['t', draw(st.sampled_from(MID_WORDS))])
            if not draw(st.integers(0, 15)):
                # no line can end here
                toks.extend([['t', 'C:\\'], ['t', draw(prof.word)]])
        elif kind == 'marker':
            toks.append(['t', draw(st.sampled_from(MARKER_WORDS))])
        elif kind in ('b', 'i', 's'):
            sub = draw(inline(prof, refs, lines=lines, cell=cell,
                              depth=depth + 1, max_toks=3, in_link=in_link))
            sub = _no_same(sub, kind)
            if kind == 's':
                toks.append([kind, sub, draw(st.sampled_from([1, 2, 2]))])
            else:
                toks.append([kind, sub, draw(st.sampled_from('**_'))])
        elif kind == 'c':
            code = draw(prof.code)
            if cell:
                code = code.replace('|', '/')
            toks.append(['c', code, draw(st.sampled_from([0, 0, 0, 1, 2]))])
        elif kind in ('a', 'r'):
            sub = draw(inline(prof, (), lines=lines, cell=cell, depth=2,
                              max_toks=3, in_link=True))
            if kind == 'a':
                href = draw(st.sampled_from(prof.hrefs))
                title = draw(st.one_of(st.none(), st.none(), titles))
                if 'same-text' in prof.inl and title is None \
                        and not draw(st.integers(0, 7)):
                    sub = [['t', href]]
                toks.append(['a', sub, href, title])
            else:
                target = draw(st.sampled_from(refs))[0]
                form = draw(st.sampled_from((None,) * 6 + ('', '[]')))
                toks.append(['r', sub, target] if form is None or first or target == 'x'
                            else ['r', [['t', target]], target, form])
        elif kind in ('u', 'l'):
            toks.append([kind, draw(st.sampled_from(URLS))])
        elif kind == 'img':
            text = draw(st.sampled_from(('alt', 'alt text', 'ñ alt', '')))
            if 'alt' in have and (not depth or in_link and depth == 2) \
                    and draw(st.booleans()):
                text = draw(inline(prof, (), lines=lines, cell=cell,
                                   depth=3 if in_link else 1,
                                   max_toks=3, in_link=True))
                text = _only(text, 'tbiscen')
                while text and text[-1][0] == 'n':
                    text.pop()
            toks.append(['img', text, draw(st.sampled_from(prof.srcs)), draw(
                st.one_of(st.none(), titles))])
        elif kind == 'm':
            toks.append(['m', draw(st.sampled_from(TEX)),
                         draw(st.sampled_from([1, 1, 2]))])
        elif kind == 'w':
            toks.append(['w', draw(st.sampled_from(WIKI)), None if cell else
                         draw(st.one_of(st.none(), prof.word))])
        elif kind == 'e':
            toks.append(['e', draw(st.sampled_from('*`'))])
        elif kind == 'raw':
            toks.append(['raw', draw(st.sampled_from(RAW))])
        elif kind == 'p':
            toks.append(['p', draw(st.sampled_from(PUNCT))])
        elif kind == 'n':
            toks.append(['n'])
    while toks and toks[-1][0] == 'n':
        toks.pop()
    return toks


def _only(inl, kinds):
    return [[t[0], _only(t[1], kinds), *t[2:]] if t[0] in ('b', 'i', 's') else t
            for t in inl if t[0] in kinds]


def _no_same(inl, kind):
    """Drop emphasis of the same kind nested directly or deeper."""
    out = []
    for t in inl:
        if t[0] == kind:
            out.extend(_no_same(t[1], kind))
        elif t[0] in ('b', 'i', 's', 'a', 'r', 'U'):
            out.append([t[0], _no_same(t[1], kind), *t[2:]])
        else:
            out.append(t)
    return out


def heading_text(inl):
    if inl[-1][0] == 't' and inl[-1][1].strip('#') == '':
        return [*inl, ['t', 'end']]        # not a closing sequence
    return inl


@st.composite
def para(draw, prof, refs):
    """Paragraph of a list item or quote."""
    if 'm' in prof.inl and 'math' in prof.blk and not draw(st.integers(0, 11)):
        return ['p', [['m', draw(st.sampled_from(TEX)), 2]]]
    return ['p', draw(inline(prof, refs))]


@st.composite
def list_block(draw, prof, refs, kind, depth, in_quote=False, avoid=None,
               plain=False):
    """A list.

    Lists with task items only nest other lists of plain items: md4c itself
    misses the task marks that follow an item with other blocks inside.
    """
    have = prof.blk
    loose = 'loose' in have and draw(st.integers(0, 3)) == 0 and not (
        in_quote and 'q-list-loose' not in have)
    if kind == 'ul':
        mark = draw(st.sampled_from([m for m in '-*+' if m != avoid]))
    else:
        mark = draw(st.sampled_from([m for m in '.)' if m != avoid]))
    items = []
    tasks = kind == 'ul' and 'task' in have and draw(st.integers(0, 2)) == 0
    plain = plain or tasks
    deep = prof.depth > 3
    for _ in range(draw(st.integers(1, 2 if deep else 4 * prof.wide))):
        task = None
        if tasks:
            task = draw(st.sampled_from([None, ' ', 'x']))
        inl = draw(inline(prof, refs, max_toks=min(4, prof.max_toks)))
        sub = []
        if depth < prof.depth and not (in_quote and 'q-list-nested' not in have):
            opts = [None, None, None]
            if 'nested' in have:
                opts.extend(['ul'] * (9 if deep else 2))
                if 'ol' in have and (kind == 'ol' or 'ol-in-ul' in have):
                    opts.extend(['ol'] * (5 if deep else 1))
            if not plain:
                if 'list-p' in have and loose:
                    opts.append('p')
                if 'list-fence' in have:
                    opts.append('fence')
                if 'list-cmd' in have and prof.cmds and (
                        loose or 'list-cmd-tight' in have):
                    opts.extend(('cmd', 'cmd'))
                if 'list-q' in have and (
                        not in_quote or 'q-list-q' in have):
                    opts.append('q')
                if loose:
                    opts.extend(k for k in ('h', 'hr', 'html', 'table')
                                if 'list-' + k in have)
            o = draw(st.sampled_from(opts))
            if o in ('ul', 'ol'):
                sub = [draw(list_block(prof, refs, o, depth + 1, in_quote,
                                       None, plain))]
            elif o == 'p':
                sub = [draw(para(prof, refs))]
            elif o == 'fence':
                sub = [draw(fence_block(prof))]
            elif o == 'q':
                sub = [['q', [draw(para(prof, refs)) for _ in range(
                    draw(st.integers(1, 2)))], *(
                        ['tight'] if 'list-q-tight' in have and draw(
                            st.booleans()) else [])]]
            elif o == 'h':
                sub = [['h', draw(st.integers(1, 6)),
                        heading_text(draw(inline(prof, refs, lines=False))),
                        '#']]
            elif o == 'table':
                sub = [draw(table_block(prof, refs))]
            elif o == 'cmd':
                sub = [draw(command(prof)), draw(para(prof, refs))]
            elif o == 'hr':
                sub = [['hr', '***']]
            elif o == 'html':
                sub = [['html', draw(st.sampled_from(HTML_BLOCKS))]]
            if sub and loose and not plain and 'list-multi' in have:
                more = [k for k in ('p', 'fence', 'h', 'q', 'html', 'table')
                        if 'list-' + k in have and not (
                                k == 'q' and in_quote
                                and 'q-list-q' not in have)]
                for k in draw(st.lists(st.sampled_from(more), max_size=2)
                              if more else st.just([])):
                    if k == 'fence':
                        sub.append(draw(fence_block(prof)))
                    elif k == 'p':
                        sub.append(draw(para(prof, refs)))
                    elif k == 'q' and sub[-1][0] != 'q':
                        sub.append(['q', [draw(para(prof, refs))]])
                    elif k == 'h':
                        sub.append(['h', 2, heading_text(draw(inline(
                            prof, refs, lines=False))), '#'])
                    elif k == 'html' and sub[-1][0] != 'html':
                        sub.append(['html', draw(
                            st.sampled_from(HTML_BLOCKS))])
                    elif k == 'table':
                        sub.append(draw(table_block(prof, refs)))
            if sub and (loose or o == 'fence') and not plain \
                    and 'list-after' in have and draw(st.booleans()):
                sub.append(draw(para(prof, refs)))
        items.append({'task': task, 'inl': inl, 'sub': sub})
    return [kind, mark, items, loose]


@st.composite
def fence_block(draw, prof):
    char = draw(st.sampled_from('`~'))
    return ['fence', char, draw(st.sampled_from([3, 3, 4])),
            draw(st.sampled_from(INFO)), draw(st.lists(
                st.sampled_from(CODELINES), min_size=1,
                max_size=4 * prof.wide))]


@st.composite
def table_block(draw, prof, refs):
    ncol = draw(st.sampled_from((1, 2, 2, 3, 3, 4, 5, 6, 8)))
    cell = inline(prof, refs, lines=False, cell=True, max_toks=3)
    row = st.lists(cell, min_size=ncol, max_size=ncol)
    return ['table', draw(st.lists(st.sampled_from(['', 'l', 'c', 'r']),
                                   min_size=ncol, max_size=ncol)),
            draw(row), draw(st.lists(row, min_size=0,
                                max_size=3 * prof.wide))]


HTML_BLOCKS = (
    ['<div>', '<p>raw <b>html</b> block</p>', '</div>'],
    ['<p align="center">centered</p>'],
    ['<!-- a plain note, not a command: x -->'],
    ['<details>', '<summary>S</summary>', '</details>'],
)


@st.composite
def block(draw, prof, refs, prev, ctx='top'):
    have = prof.blk
    opts = ['p', 'p', 'p']
    if 'h' in have and ctx != 'q' or 'q-h' in have:
        opts.append('h')
    for k in ('ul', 'ol'):
        if k in have and (ctx == 'top' or 'q-list' in have):
            opts.append(k)
    if ctx == 'top':
        for k in ('q', 'icode', 'html', 'hr', 'table', 'math'):
            if k in have:
                opts.append(k)
    if 'fence' in have and (ctx == 'top' or 'q-fence' in have):
        opts.append('fence')
    if ctx == 'q':
        opts.extend(k for k in ('html', 'hr', 'table', 'q')
                    if 'q-' + k in have)
    kind = draw(st.sampled_from(opts))
    pk = prev[0] if prev else None
    if kind == 'icode' and (pk in ('ul', 'ol', 'icode') or pk is None
                            and ctx != 'top'):
        kind = 'p'
    if kind == 'q' and pk == 'q':
        kind = 'p'
    if kind == 'html' and pk == 'html':
        kind = 'p'
    if kind == 'p':
        if ctx == 'q':
            return draw(para(prof, refs))
        if 'same-href' in have and not draw(st.integers(0, 31)):
            # it is not a link reference
            return ['p', [['t', '[^1]:'], ['t', 'a'], ['t', 'note']]]
        return ['p', draw(inline(prof, refs))]
    if kind == 'h':
        style = draw(st.sampled_from(['#', '#', '#', '##', '='])) \
            if 'setext' in have else '#'
        level = draw(st.integers(1, 2 if style == '=' else 6))
        inl = draw(inline(prof, refs, lines=style == '='))
        return ['h', level, heading_text(inl), style]
    if kind in ('ul', 'ol'):
        avoid = prev[1] if pk == kind else None
        return draw(list_block(prof, refs, kind, 0, ctx == 'q', avoid))
    if kind == 'q':
        return ['q', draw(block_list(prof, refs, 'q',
                                     3 if 'q-multi' in have else 1))]
    if kind == 'fence':
        return draw(fence_block(prof))
    if kind == 'icode':
        lines = draw(st.lists(st.sampled_from(CODELINES), min_size=1,
                              max_size=4 * prof.wide))
        while lines and not lines[0].strip():
            lines.pop(0)
        while lines and not lines[-1].strip():
            lines.pop()
        return ['icode', lines or ['x = 1']]
    if kind == 'html':
        return ['html', draw(st.sampled_from(HTML_BLOCKS))]
    if kind == 'hr':
        return ['hr', draw(st.sampled_from(['---', '***', '___', '* * *']))]
    if kind == 'table':
        return draw(table_block(prof, refs))
    return ['math', draw(st.sampled_from((*TEX, 'x = 1,\ny = 2'))),
            'math-lines' in have and draw(st.booleans())]


@st.composite
def block_list(draw, prof, refs, ctx, max_blocks):
    out = []
    for _ in range(draw(st.integers(1, max_blocks))):
        if prof.cmds and (ctx == 'top' or 'q-cmd' in prof.blk):
            for _ in range(draw(st.sampled_from(prof.commands))):
                out.append(draw(command(prof)))
        prev = next((b for b in reversed(out) if b[0] != 'cmd'), None)
        out.append(draw(block(prof, refs, prev, ctx)))
    return out


@st.composite
def command(draw, prof):
    name = draw(st.sampled_from(prof.cmds))
    arg = None
    if name in ('mdpo-context',):
        arg = draw(st.sampled_from(CTX))
    elif name == 'mdpo-translator':
        arg = draw(st.sampled_from(COMMENTS))
    elif name == 'mdpo-include':
        arg = draw(st.sampled_from(INCLUDES))
    out = ['cmd', name, arg]
    if draw(st.booleans()):
        out.append('tight')        # no blank line before the next block
    return out


@st.composite
def docs(draw, prof):
    refs = []
    if 'refs' in prof.blk and draw(st.integers(0, 3)) == 0:
        targets = draw(st.lists(st.sampled_from(TARGETS), min_size=1,
                                max_size=3 * prof.wide, unique=True))
        for n, t in enumerate(targets):
            title = draw(st.one_of(st.none(), st.none(), st.just('Ref title'),
                                   st.sampled_from(REF_TITLES)))
            href = f'https://ref.example/{n}'
            if 'same-href' in prof.blk:
                href = draw(st.one_of(
                    st.just(href), st.sampled_from([
                        h for h in HREFS + URLS + SRCS if h not in ANGLE])))
            refs.append([t, href, title])
    blocks = draw(block_list(prof, [tuple(r) for r in refs], 'top',
                             prof.max_blocks))
    doc = {'blocks': blocks, 'refs': refs}
    if refs:
        if draw(st.booleans()):
            doc['styles'] = draw(st.lists(st.integers(0, 5), min_size=1,
                                          max_size=3))
        if draw(st.integers(0, 3)) == 0:
            doc['refs_first'] = True
    return doc


def deep(**kw):
    """Profile of lists nested many levels, with blocks inside."""
    return Profile(**{'inl': 'bacmn', 'max_toks': 2, 'max_blocks': 2,
                      'depth': 6, 'blk': Profile.ALL_BLK - frozenset(
                          'setext html icode hr table refs'.split()), **kw})


def wide(**kw):
    """Profile of long documents: many blocks, items, rows, references..."""
    return Profile(**{'inl': 'b c a r u img'.split(), 'max_toks': 2,
                      'max_blocks': 14, 'wide': 4, 'depth': 1, **kw})


def dense(cmds, **kw):
    """Profile of short paragraphs with many commands between them."""
    return Profile(**{
        'cmds': cmds, 'inl': 'b', 'blk': (), 'max_blocks': 8, 'max_toks': 1,
        'commands': (0, 1, 1, 2, 2, 3, 4),
        'words': st.sampled_from(('aa', 'bb', 'cc', 'dd', 'ee')), **kw})


# words used by docs in translation checks: no glued tags needed
COMMANDS = ('mdpo-disable-next-block', 'mdpo-disable-next-line',
            'mdpo-disable', 'mdpo-enable', 'mdpo-enable-next-block',
            'mdpo-enable-next-line', 'mdpo-context', 'mdpo-translator')
CODE_COMMANDS = ('mdpo-include-codeblock', 'mdpo-include-codeblocks',
                 'mdpo-disable-codeblock', 'mdpo-disable-codeblocks')
