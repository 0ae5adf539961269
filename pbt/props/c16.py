"""C16: what the translation programs write, print and report."""
import os

from .. import mdgen as G
from ..core import Suite, call, cli, equal
from ..translation import plan
from ..util import (
    RUNS,
    make_po,
    markdown_pofile_to_html,
    padded,
    read,
    translate,
    write,
)
from .. import htmlcmp as H
from .c06 import chooser

PROPERTY = 'C16'
RULE = ('cases are generated documents and partial translations run by po2md '
        'and mdpo2html through the CLI and the API, with generated encodings, '
        'previous output files and input given as file, argument or standard '
        'input; the file, the standard output and the exit code must follow '
        'from the translation returned by the API. Non-trivial: something is '
        'translated and the output file is there before.')

BLANK = ('', '\n', '  \n\n', '<!-- mdpo-disable -->\n')
BYTES = b'\xff\xfe\xfd\x80\n'


def raw(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


@padded
def check(case, ctx):
    doc, enc, po_enc = case['doc'], case['encoding'], case['po_encoding']
    src = G.source(doc) if case['blank'] is None else case['blank']
    entries, _ = plan(doc, chooser(case['bits']), include_codeblocks=False)
    try:
        str(entries).encode(po_enc or 'utf-8')
        for text in (src, str(entries)):
            text.encode(enc or 'utf-8')
    except UnicodeEncodeError:
        ctx.label('not encodable')
        return
    prog, enc_used = case['program'], enc or 'utf-8'
    page = H.render(src) if prog == 'mdpo2html' else src
    name = 'in.html' if prog == 'mdpo2html' else 'in.md'
    ctx.nontrivial(bool(entries) and case['previous'] != 'none')
    ctx.label(f'{prog} {case["input"]}')
    with ctx.tmpdir():
        make_po('es.po', entries, encoding=po_enc or 'utf-8')
        forms = {'path': ['es.po'], 'glob': ['*.po'], 'twice': ['es.po'] * 2,
                 'both': ['e*.po', 'es.po'], 'missing': []}
        pos = forms[case['pos']]
        if case['ignored']:
            # an ignored file with other translations does not count
            make_po('en.po', [(c, m, s + ' no') for c, m, s in entries],
                    encoding=po_enc or 'utf-8')
        write(name, page, encoding=enc_used)
        given = {'file': name, 'arg': page, 'stdin': page,
                 'stdin-file': name}[case['input']]
        if case['input'] != 'file' and case['input'] != 'stdin-file' \
                and page.startswith('-'):
            return
        kw = {}
        if enc:
            kw['html_encoding' if prog == 'mdpo2html' else 'md_encoding'] = enc
        if po_enc and case['po_option']:
            kw['po_encoding'] = po_enc
        if prog == 'mdpo2html':
            want = call(markdown_pofile_to_html, given, 'es.po', **kw)
        else:
            kw['wrapwidth'] = case['width']
            want = translate(given, 'es.po', **kw)
        prev = {'none': None, 'same': want, 'other': want + 'x',
                'empty': '', 'input': page, 'bytes': BYTES,
                'crlf': want.replace('\n', '\r\n')}[case['previous']]
        if prev == BYTES:
            with open('out', 'wb') as f:
                f.write(BYTES)
        elif prev is not None:
            with open('out', 'w', encoding=enc_used, newline='') as f:
                f.write(prev)
        before = raw('out')
        args = []
        for x in pos:
            args += ['-p', x]
        if case['ignored']:
            args += ['-i', 'en.po']
        stdin = None
        if case['input'].startswith('stdin'):
            stdin = given
        else:
            args.insert(0, given)
        if enc:
            args += ['--html-encoding' if prog == 'mdpo2html'
                     else '--md-encoding', enc]
        if 'po_encoding' in kw:
            args += ['--po-encoding', po_enc]
        if prog == 'po2md':
            args += ['--wrapwidth', str(case['width'])]
        args += ['-q'] * case['quiet'] + ['--check'] * case['check']
        if case['save']:
            args += ['-s', 'out']
        if case['input'] == 'stdin' and page.strip('\n') != page:
            # the standard input is stripped
            want2 = page.strip('\n')
            want = call(markdown_pofile_to_html, want2, 'es.po', **kw) \
                if prog == 'mdpo2html' else translate(want2, 'es.po', **kw)
        if case['pos'] == 'missing':
            res = cli(RUNS[prog], args, stdin=stdin)
            equal((res.code != 0, res.out, raw('out')), (True, '', before),
                  'exit code, output and file without PO files', args=args,
                  code=res.code)
            equal(bool(res.err), True, 'no message about the missing files')
            return
        ignore = ['en.po'] * case['ignored']
        if not case['cli'] and case['save']:
            if prog == 'mdpo2html':
                got = call(markdown_pofile_to_html, given, pos,
                           save='out', **kw, ignore=ignore)
            else:
                got = translate(given, pos, save='out', **kw,
                                ignore=ignore)
            if case['input'] != 'stdin' and case['previous'] != 'crlf':
                equal(got, want, 'the output depends on being saved')
                equal(read('out', enc_used), want, 'file saved by the API')
            return
        res = cli(RUNS[prog], args, stdin=stdin)
        if not (given if stdin is None else stdin.strip('\n')):
            equal((res.code, res.out, raw('out')), (1, '', before),
                  'exit code, output and file without an input', args=args)
            equal('not specified' in res.err, True,
                  'no message about the missing input', err=res.err)
            return
        shown = '' if case['quiet'] or case['save'] else want + '\n'
        equal(res.out, shown, 'standard output', args=args)
        # line endings are not changed when nothing else changes
        changed = raw('out') != before
        equal(res.code, 2 if changed and case['check'] else 0, 'exit code',
              args=args)
        equal(res.value, want, 'output returned', args=args)
        if case['save']:
            got = read('out', enc_used)
            if case['previous'] == 'crlf':  # line endings may be kept
                got, want = (x.replace('\r\n', '\n') for x in (got, want))
            equal(got, want, 'saved file', args=args)
            if prev == want:
                equal(changed, False, 'file changed without changes')
        else:
            equal(changed, False, 'file written without asking')
        equal(read(name, enc_used), page, 'the input file changes')


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'blank': st.sampled_from((None,) * 20 + BLANK),
        'doc': G.docs(G.Profile(cmds=G.COMMANDS, max_blocks=4)),
        'bits': st.lists(st.booleans(), min_size=1, max_size=4),
        'program': st.sampled_from(('po2md', 'po2md', 'mdpo2html')),
        'encoding': st.sampled_from((None, None, 'utf-8', 'iso-8859-1',
                                     'utf-16')),
        'po_encoding': st.sampled_from((None, 'utf-8', 'iso-8859-1')),
        'po_option': st.booleans(),
        'width': st.sampled_from((0, 80, 30)),
        'pos': st.sampled_from(('path', 'path', 'glob', 'twice', 'both') * 4 + (
            'missing',)),
        'ignored': st.booleans(),
        'input': st.sampled_from(('file', 'file', 'arg', 'stdin',
                                  'stdin-file')),
        'previous': st.sampled_from(('none', 'same', 'other', 'empty',
                                     'input', 'bytes', 'crlf')),
        'quiet': st.booleans(), 'check': st.booleans(),
        'save': st.sampled_from((True, True, False)),
        'cli': st.sampled_from((True, True, False))})


SUITES = [Suite('output', strategy, check, quick=25000)]
