"""C10: extracting again changes nothing, and --check reports exactly changes."""
import os

import polib

from .. import mdgen as G
from ..core import Suite, equal, expect
from ..util import cli, encodable, extract, md2po_run, padded, read, write

PROPERTY = 'C10'
RULE = ('cases are one or two generated Markdown files and options, extracted '
        'into a PO file that is new, translated or stale, twice or more; the '
        'second extraction must leave the same bytes and report no change. '
        'Non-trivial: the PO file has translations, obsolete entries or '
        'several files, and at least three messages.')


def args_of(opts):
    args = []
    for name in ('include_codeblocks', 'plaintext', 'xheader'):
        if opts.get(name):
            args.append('--' + name.replace('_', '-'))
    if opts.get('no_location'):
        args.append('--no-location')
    if 'wrapwidth' in opts:
        args.extend(('--wrapwidth', str(opts['wrapwidth'])))
    if opts.get('metadata'):
        args.extend(('-d', 'Language: es', '-d',
                     'Content-Type: text/plain; charset=utf-8'))
    if opts.get('encoding'):
        args.extend(('--po-encoding', opts['encoding']))
    if opts.get('mode') in ('keep', 'remove'):
        args.append('-m')
    if opts.get('mode') == 'remove':
        args.append('-r')
    return args


@padded
def check(case, ctx):
    charset = case['opts'].get('encoding', 'utf-8')
    case = encodable(case, charset)
    docs, opts = case['docs'], case['opts']
    if 'encoding' in opts:
        opts = dict(opts, metadata=False)
    with ctx.tmpdir():
        names = []
        for n, doc in enumerate(docs):
            names.append(f'd{n}.md')
            write(names[-1], G.source(doc))
        args = [*names, '-p', 'x.po', '-s', '-q', '--check',
                *args_of(opts)]
        if case['start'] != 'new':
            # a PO file written from older documents and translated
            write('old.md', G.source(case['old']))
            extract(['old.md', names[0]] if case['start'] == 'stale'
                    else names, po_filepath='x.po', save=True,
                    po_encoding=opts.get('encoding'),
                    location=not opts.get('no_location'))
            po = polib.pofile('x.po', autodetect_encoding=False,
                              encoding=charset)
            for n, e in enumerate(po):
                if (n + case['shift']) % 3 == 0:
                    e.msgstr = 'T: ' + e.msgid
                elif (n + case['shift']) % 3 == 1:
                    e.msgstr = e.msgid * 2
                    e.flags.append('fuzzy')
            po.save('x.po')
        before = read('x.po', charset) if os.path.exists('x.po') else None
        first = cli(md2po_run, args)
        one = read('x.po', charset)
        equal(first.code, 2 if one != before else 0,
              'exit code does not tell if the file changed')
        second = cli(md2po_run, args)
        two = read('x.po', charset)
        po = polib.pofile('x.po', autodetect_encoding=False,
                          encoding=charset)
        ctx.nontrivial(len(po) >= 3 and (case['start'] != 'new'
                                         or len(docs) > 1))
        ctx.label('start ' + case['start'])
        if any(e.obsolete for e in po):
            ctx.label('obsolete entries')
        equal(two, one, 'extracting again changed the PO file', args=args)
        equal(second.code, 0, 'extracting again reports a change', args=args)
        equal(str(second.value), str(first.value),
              'extracting again gives other PO file', args=args)
        # without writing: the same content on the standard output
        out = cli(md2po_run, [*names, '-p', 'x.po', *args_of(opts)])
        equal(out.code, 0, 'exit code without --save')
        equal(out.out.rstrip('\n'), one.rstrip('\n'),
              'printed and saved PO files differ', args=args)
        equal(read('x.po', charset), one, 'the file was written without --save')
        # the order of entries and the bytes do not depend on the history
        if case['start'] == 'new':
            os.remove('x.po')
            third = cli(md2po_run, args)
            equal((third.code, read('x.po', charset)), (2, one),
                  'two extractions of the same files differ', args=args)
            expect(not any(e.obsolete for e in po),
                   'obsolete entries in a new file')


def strategy():
    from hypothesis import strategies as st
    prof = G.Profile(cmds=G.COMMANDS + ('mdpo-include',), max_blocks=5,
                     max_toks=4)
    small = G.Profile(max_blocks=4, max_toks=3)
    return st.fixed_dictionaries({
        'docs': st.lists(G.docs(prof), min_size=1, max_size=2),
        'old': G.docs(small),
        'start': st.sampled_from(('new', 'same', 'stale')),
        'shift': st.integers(0, 2),
        'opts': st.fixed_dictionaries({}, optional={
            'include_codeblocks': st.booleans(), 'plaintext': st.booleans(),
            'xheader': st.booleans(), 'no_location': st.booleans(),
            'wrapwidth': st.sampled_from((0, 20, 78, 'inf')),
            'metadata': st.booleans(),
            'encoding': st.sampled_from(('utf-8', 'iso-8859-1', 'cp1252')),
            'mode': st.sampled_from(('mark', 'keep', 'remove'))})})


SUITES = [Suite('again', strategy, check, quick=12000)]
