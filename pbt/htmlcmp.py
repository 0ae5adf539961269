"""What a Markdown text means: normalised HTML, rendered by md4c itself.

Two Markdown texts are taken to mean the same when md4c renders both, with
the same extensions, to the same normalised token list.  The normalisation
drops only what mdpo documents or is observed not to keep: whitespace runs
outside of code, looseness of lists (<p> inside <li>), mdpo command comments.
"""
import html
import random
import re
from html.parser import HTMLParser

import md4c
from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS as EXT

BLOCKS = frozenset('p h1 h2 h3 h4 h5 h6 ul ol li blockquote table thead tbody '
                   'tr th td pre hr div details summary section nav body html '
                   'head script style title meta'.split())
DRESSED = frozenset('p h1 h2 h3 h4 h5 h6 ul ol li blockquote table tr th td'
                    .split())
VOID = frozenset(('br', 'hr', 'img', 'input'))


def render(md, extensions=EXT):
    return md4c.HTMLRenderer(
        0, **dict.fromkeys(extensions, True)).parse(md)


class _Tokens(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.toks = []
        self.pre = 0

    def handle_starttag(self, tag, attrs):
        if tag == 'pre':
            self.pre += 1
        if tag == 'ol':
            attrs = [a for a in attrs if a[0] != 'start']
        self.toks.append(('s', tag, tuple(sorted(
            (k, v if v is None else html.unescape(v).replace('\n', ' ')) for k, v in attrs))))

    handle_startendtag = handle_starttag

    def handle_endtag(self, tag):
        if tag == 'pre':
            self.pre -= 1
        self.toks.append(('e', tag))

    def handle_data(self, data):
        if self.pre:
            self.toks.append(('c', data))
        else:
            self.toks.append(('t', data))

    def handle_comment(self, data):
        self.toks.append(('k', data.strip()))

    def handle_pi(self, data):
        self.toks.append(('k', '?' + data))

    def handle_decl(self, decl):
        self.toks.append(('k', '!' + decl.lower()))


TAG = re.compile(r'<(/?)([a-z][a-z0-9-]*)([^<>]*)>')
ATTRS = ('class="a b"', "id='x-1'", 'hidden', 'data-n="1"', 'title="a &amp; b"',
         'style="color: red"', 'lang="es"', 'data-q="&quot;q&quot;"')
BETWEEN = ('<!-- a note -->', '<!-- other\nnote -->', '<div class="w"></div>',
           '<section>\n', '</section>\n', '<nav hidden></nav>', '\n\n',
           '<script>var a = "<p>";</script>', '<style>p > a {}</style>',
           '<?php x ?>', '<hr class="line">', '<br>')
HEAD = ('<!DOCTYPE html>\n<html lang="en">\n<head>\n<meta charset="utf-8">\n'
        '<title>Unrelated title</title>\n<style>a > b { c: d }</style>\n'
        '<script>if (a < b && c) {}</script>\n</head>\n<body class="c">\n')
TAIL = '</body>\n</html>\n'


def dress(page, seed, whole):
    """A page like those that other programs make.

    The blocks have attributes and there are comments and other elements
    between them.  What is added depends only on the sequence of blocks, so
    the pages of a document and its translation are dressed the same.
    """
    rng = random.Random(seed)
    out, end, depth = '', 0, 0
    for m in TAG.finditer(page):
        close, tag, attrs = m.groups()
        if tag not in DRESSED:
            if tag not in VOID:
                depth += -1 if close else 1
            continue
        out += page[end:m.start()]
        end = m.end()
        if not close:
            if depth == 0 and rng.random() < 0.3:
                out += rng.choice(BETWEEN)
            if rng.random() < 0.3:
                new = rng.sample(ATTRS, rng.choice((1, 1, 2)))
                attrs += ''.join(' ' + a for a in new)
            depth += tag not in VOID
        else:
            depth -= 1
        out += f'<{close}{tag}{attrs}>'
    out += page[end:]
    return HEAD + out + TAIL if whole else out


def _boundary(tok):
    return tok[0] == 'k' or (tok[0] in 'se' and tok[1] in BLOCKS)


def tokens(html_text):
    parser = _Tokens()
    parser.feed(html_text)
    parser.close()
    # merge adjacent text
    out = []
    for tok in parser.toks:
        if tok[0] in 'tc' and out and out[-1][0] == tok[0]:
            out[-1] = (tok[0], out[-1][1] + tok[1])
        else:
            out.append(tok)
    res = []
    li = []          # inside which list item / blockquote are we
    for n, tok in enumerate(out):
        if tok[0] == 's' and tok[1] in ('li', 'blockquote', 'td', 'th'):
            li.append(tok[1])
        elif tok[0] == 'e' and tok[1] in ('li', 'blockquote', 'td', 'th'):
            if li:
                li.pop()
        if tok[0] in 'se' and tok[1] == 'p' and li and li[-1] == 'li':
            # looseness: remember only that a text block ended here
            tok = ('b',)
        if tok[0] == 't':
            text = re.sub(r'[ \t\n\r\f]+', ' ', tok[1])
            if out[n - 1][:2] == ('s', 'x-equation'):
                text = text.strip(' ')
            prev = out[n - 1] if n else None
            nxt = out[n + 1] if n + 1 < len(out) else None
            if prev is None or _boundary(prev):
                text = text.lstrip(' ')
            if nxt is None or _boundary(nxt):
                text = text.rstrip(' ')
            if not text:
                continue
            tok = ('t', text)
        if tok[0] == 'k' and tok[1].startswith('mdpo-'):
            continue
        res.append(tok)
    # collapse block markers and drop those next to block tags
    final = []
    for tok in res:
        if tok == ('b',):
            if final and (final[-1] == ('b',) or _boundary(final[-1])
                          or final[-1][:2] == ('s', 'input')):
                continue
            final.append(tok)
            continue
        if _boundary(tok) and final and final[-1] == ('b',):
            final.pop()
        final.append(tok)
    return final


def meaning(md, extensions=EXT):
    return tokens(render(md, extensions))


def first_diff(a, b):
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'at token {n}: {a[max(0, n - 3):n + 3]} != {b[max(0, n - 3):n + 3]}'
    if len(a) != len(b):
        n = min(len(a), len(b))
        return f'length {len(a)} != {len(b)}: {a[n:n + 4]} / {b[n:n + 4]}'
    return 'equal'
