"""C11: written PO and MO files hold exactly what was extracted."""
import gettext
import os

import polib

from .. import mdgen as G
from ..core import Suite, cli, equal, fail
from ..util import encodable, extract, make_po, md2po_run, padded, read, read_bytes, write

PROPERTY = 'C11'
RULE = ('cases are generated documents extracted into PO and MO files with '
        'generated widths, encodings, metadata, default translations and '
        'previous files; the files are read back with polib and gettext. '
        'Non-trivial: at least three messages, one of them with quotes, '
        'backslashes, non-ASCII characters or longer than the width.')

BASE = {'Content-Type': 'text/plain; charset={}'}
HEADERS = ('Language', 'Project-Id-Version', 'Language-Team', 'X-Custom',
           'Report-Msgid-Bugs-To')
VALUES = ('es', 'Proj 1.0', 'Ñandú <a@b.example>', 'a: b: c', 'back\\slash',
          '"quoted"', 'x' * 90, '')


def fields(e):
    # polib splits locations with spaces reading them
    where = ' '.join(a + (b and ':' + b) for a, b in e.occurrences)
    return (e.msgctxt, e.msgid, e.msgstr, tuple(e.flags), e.tcomment or '',
            ' '.join((e.comment or '').split()), where, bool(e.obsolete))


def args_of(case, charset, default):
    args = ['doc.md', '--po-filepath', 'x.po', '--save', '-q',
            '--wrapwidth', str(case['width']),
            '--md-encoding', case['md_encoding']]
    if case['mo']:
        args += ['--mo-filepath', 'x.mo']
    if case['po_encoding']:
        args += ['--po-encoding', charset]
    for k, v in default.items():
        args += ['-d', f'{k}: {v}']
    if case['xheader']:
        args.append('--xheader')
    if case['check']:
        args.append('--check')
    return args


def declared(text):
    """Charset in the header of a PO file, as gettext reads it."""
    lines = text.split('msgstr', 1)[1].split('\n\n')[0].splitlines()
    header = ''.join(ln.strip()[1:-1] for ln in lines if '"' in ln)
    return header.split('charset=', 1)[1].split('\\n')[0]


@padded
def check(case, ctx):
    charset = case['po_encoding'] or 'utf-8'
    case = encodable(encodable(case, charset), case['md_encoding'])
    doc = case['doc']
    src = G.source(doc)
    width = case['width']
    limit = 10 ** 9 if width in (0, '0', 'inf') else int(width)
    ids = [u.msgid for u in G.units(doc) if u.enabled]
    ctx.nontrivial(len(set(ids)) >= 3 and any(
        len(i) > limit or not i.isascii() or '"' in i or '\\' in i
        for i in ids))
    old, metadata = [], {'Content-Type': f'text/plain; charset={charset}'}
    with ctx.tmpdir():
        write('doc.md', src, encoding=case['md_encoding'])
        if case['previous'] is not None:
            old = [(None, 'not there', 'no está', {'tcomment': 'a\nb'}),
                   ('ctx', 'not there "2"', 'x\\y', {'fuzzy': True})]
            old += [(None, i, i + 'ñ"\\\n') for i in dict.fromkeys(ids)][
                :case['previous']]
            metadata.update({'Language': 'fr', 'X-Old': 'kept "as" is'})
            make_po('x.po', old, metadata=metadata, encoding=charset,
                    wrapwidth=case['old_width'])
        given = dict(case['metadata'])
        if case['previous'] is None:
            given.update(metadata)
        metadata.update(given)
        before = os.path.exists('x.po') and read_bytes('x.po')
        if case['cli']:
            res = cli(md2po_run, args_of(case, charset, given))
            changed = before != read_bytes('x.po')
            equal(res.code, 2 if changed and case['check'] else 0,
                  'exit code')
            po = res.value
        else:
            po = extract('doc.md', po_filepath='x.po', save=True,
                         mo_filepath='x.mo' if case['mo'] else None,
                         wrapwidth=width, po_encoding=case['po_encoding'],
                         md_encoding=case['md_encoding'], metadata=given,
                         xheader=case['xheader'], msgstr=case['msgstr'],
                         _check_saved_files_changed=case['check'])
        saved = polib.pofile('x.po', autodetect_encoding=False,
                             encoding=charset)
        # (polib itself does not find a charset that it has wrapped)
        equal(declared(read('x.po', charset)), charset, 'charset declared')
        # polib normalises the order: obsolete entries at the end
        want = sorted(map(repr, map(fields, po)))
        equal(sorted(map(repr, map(fields, saved))), want,
              'entries read from the PO file are not those extracted',
              text=read('x.po', charset))
        if not case['cli']:
            new = [e for e in saved if not e.obsolete and (
                e.msgctxt, e.msgid) not in {o[:2] for o in old}]
            bad = [fields(e) for e in new if e.msgstr != case['msgstr']
                   and 'fuzzy' not in e.flags]
            equal(bad, [], 'messages without the default translation')
        gen = saved.metadata.pop('X-Generator', None)
        equal(bool(gen) and gen.startswith('mdpo v'), case['xheader'],
              'X-Generator header', header=gen)
        equal(saved.metadata, metadata, 'metadata')
        text = read('x.po', charset)
        for other in case['widths']:
            write('y.po', text, charset)
            extract('doc.md', po_filepath='y.po', save=True, wrapwidth=other,
                    po_encoding=case['po_encoding'],
                    md_encoding=case['md_encoding'], msgstr=case['msgstr'])
            again = polib.pofile('y.po', autodetect_encoding=False,
                                 encoding=charset)
            equal([fields(e) for e in again], [fields(e) for e in saved],
                  'another width changes the entries', width=other)
        # gettext decodes the header as UTF-8
        if case['mo'] and (charset == 'utf-8' or str(metadata).isascii()):
            check_mo(po)


def check_mo(po):
    with open('x.mo', 'rb') as f:
        mo = gettext.GNUTranslations(f)
    for e in po:
        got = mo.gettext(e.msgid) if e.msgctxt is None \
            else mo.pgettext(e.msgctxt, e.msgid)
        done = e.msgstr and 'fuzzy' not in e.flags and not e.obsolete
        if not done and got != e.msgid and any(
                o.msgid == e.msgid and o.msgctxt == e.msgctxt
                and o.translated() for o in po):
            continue
        if got != (e.msgstr if done else e.msgid):
            fail('the MO file translates another thing', entry=str(e),
                 got=got)
    known = {(e.msgctxt, e.msgid) for e in po if e.translated()}
    have = {e.msgid if not e.msgctxt else (e.msgctxt, e.msgid)
            for e in polib.mofile('x.mo')}
    equal(have, {i if not c else (c, i) for c, i in known},
          'messages in the MO file')


def strategy():
    from hypothesis import strategies as st
    widths = st.sampled_from((78, 78, 0, 'inf', 20, 40, '100', 12))
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(cmds=G.COMMANDS, max_blocks=5)),
        'width': widths, 'old_width': st.sampled_from((78, 30)),
        'widths': st.lists(widths, max_size=2),
        'po_encoding': st.sampled_from(
            (None, None, 'utf-8', 'iso-8859-1', 'iso-8859-15', 'cp1252')),
        'md_encoding': st.sampled_from(
            ('utf-8', 'utf-8', 'iso-8859-1', 'utf-16', 'utf-8-sig')),
        'metadata': st.dictionaries(st.sampled_from(HEADERS),
                                    st.sampled_from(VALUES), max_size=3),
        'msgstr': st.sampled_from(('', '', '', 'TODO', 'ñ "q"')),
        'previous': st.sampled_from((None, None, 0, 1, 3)),
        'mo': st.booleans(), 'xheader': st.booleans(), 'cli': st.booleans(),
        'check': st.booleans()})


SUITES = [Suite('files', strategy, check, quick=20000)]
