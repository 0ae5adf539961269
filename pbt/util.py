"""Helpers shared by the property modules."""
import os

import polib

from mdpo import (
    markdown_pofile_to_html,
    markdown_to_pofile,
    markdown_to_pofile_to_markdown,
    pofile_to_markdown,
)
from mdpo.md2po.__main__ import run as md2po_run
from mdpo.md2po2md.__main__ import run as md2po2md_run
from mdpo.mdpo2html.__main__ import run as mdpo2html_run
from mdpo.po2md.__main__ import run as po2md_run

from . import mdgen as G
from .core import Violation, call, cli, equal, expect, fail  # noqa: F401

RUNS = {'md2po': md2po_run, 'po2md': po2md_run, 'md2po2md': md2po2md_run,
        'mdpo2html': mdpo2html_run}

LINK_KINDS = frozenset(('inl:a', 'inl:r', 'inl:u', 'inl:img'))


def write(path, text, encoding='utf-8'):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, 'w', encoding=encoding, newline='') as f:
        f.write(text)


def read(path, encoding='utf-8'):
    with open(path, encoding=encoding, newline='') as f:
        return f.read()


def read_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def encodable(data, charset):
    """The same case with the characters that a charset does not have changed."""
    if isinstance(data, str):
        try:
            data.encode(charset)
            return data
        except UnicodeEncodeError:
            return ''.join('ö' if c.encode(charset, 'replace') == b'?'
                           and c != '?' else c for c in data)
    if isinstance(data, (list, tuple)):
        return [encodable(d, charset) for d in data]
    if isinstance(data, dict):
        return {k: encodable(v, charset) for k, v in data.items()}
    return data


def make_po(path, entries, metadata=None, wrapwidth=78, encoding='utf-8'):
    """entries: [(msgctxt|None, msgid, msgstr, {fuzzy, obsolete, comment})]"""
    po = polib.POFile(wrapwidth=wrapwidth, encoding=encoding)
    po.metadata = dict(metadata or {
        'Content-Type': f'text/plain; charset={encoding}'})
    for e in entries:
        ctx, msgid, msgstr = e[:3]
        extra = e[3] if len(e) > 3 else {}
        entry = polib.POEntry(msgid=msgid, msgstr=msgstr, msgctxt=ctx,
                              obsolete=bool(extra.get('obsolete')))
        if extra.get('fuzzy'):
            entry.flags.append('fuzzy')
        if extra.get('comment'):
            entry.comment = extra['comment']
        if extra.get('tcomment'):
            entry.tcomment = extra['tcomment']
        po.append(entry)
    po.save(path)
    return path


def extract(files_or_content, **kw):
    return call(markdown_to_pofile, files_or_content, **kw)


def translate(src, pofiles, **kw):
    return call(pofile_to_markdown, src, pofiles, **kw)


def keys(po):
    return [(e.msgctxt, e.msgid) for e in po if not e.obsolete]


def expected_entries(doc, refs=True, **kw):
    """Ordered unique [(ctx, msgid, comment)] the extraction should store.

    The first occurrence of a message decides its comment; link references
    follow the messages when the document has links, autolinks or images.
    """
    out, seen = [], set()
    for u in G.units(doc, **kw):
        if not u.enabled or u.key() in seen:
            continue
        seen.add(u.key())
        out.append((u.ctx, u.msgid, u.tcomment))
    if refs and not kw.get('plaintext') and G.kinds(doc) & LINK_KINDS:
        for r in doc.get('refs') or ():
            key = (None, G.ref_msgid(r))
            if key not in seen:
                seen.add(key)
                out.append((None, key[1], None))
    return out


PAD = ['p', [['t', 'padding']]]


def padded(fn):
    """Do not blame mdpo for md4c's relocation quirk.

    While md4c grows its block buffer it can attach a block to the wrong
    container; whether that happens depends only on the number of bytes of
    block data before it.  A failure seen on a document long enough to make
    the buffer grow (more than eight lines) therefore counts only when it is
    still there with other amounts of text in front of the document.
    """
    def pad(doc, k):
        return dict(doc, blocks=[PAD] * k + doc['blocks'])

    def check(case, ctx, **kw):
        try:
            fn(case, ctx, **kw)
        except Exception:
            docs = case['docs'] if 'docs' in case else [case['doc']]
            if all(len(G.source(d).split('\n')) <= 9 for d in docs):
                raise
            for k in (1, 2, 3, 5, 8):
                if 'docs' in case:
                    other = dict(case, docs=[pad(d, k) for d in docs])
                else:
                    other = dict(case, doc=pad(case['doc'], k))
                try:
                    fn(other, ctx, **kw)
                except Exception:
                    continue
                ctx.label('md4c relocation quirk avoided')
                return
            raise
    check.__name__ = fn.__name__
    return check
