"""C23: a run that fails changes no file."""
import os

from .. import htmlcmp as H
from .. import mdgen as G
from ..core import CaseTimeout, Suite, captured, expect, fail
from ..translation import plan
from ..util import (
    RUNS,
    encodable,
    make_po,
    markdown_pofile_to_html,
    markdown_to_pofile,
    markdown_to_pofile_to_markdown,
    pofile_to_markdown,
    write,
)

PROPERTY = 'C23'
RULE = ('cases are runs of a program, or of its function of the API, over one '
        'to three generated documents with outputs of previous runs in place '
        'and a fault put in them: inputs or PO files that cannot be read, '
        'commands without value, texts that the encoding of the output does '
        'not have, unknown encodings, outputs that cannot be created or event '
        'functions that raise. The run must fail and each file must be as it '
        'was, or be the complete result of the same run without the fault. '
        'Non-trivial: the output of a previous run was in place.')

NAMES = ('a.md', 'b.md', 'c.md')
FAULTS = {
    'md2po': ('bytes', 'command', 'po-syntax', 'po-bytes', 'charset',
              'unknown-po', 'unknown-md', 'event', 'event-name', 'extension',
              'no-directory', 'mo-directory', 'wrapwidth'),
    'po2md': ('bytes', 'po-syntax', 'charset', 'unknown-po',
              'unknown-md', 'event', 'event-name', 'no-directory',
              'wrapwidth', 'po-bytes'),
    'mdpo2html': ('bytes', 'po-syntax', 'charset', 'unknown-po',
                  'unknown-md', 'no-directory', 'po-bytes'),
    'md2po2md': ('bytes', 'command', 'po-syntax', 'po-bytes', 'charset',
                 'unknown-po', 'unknown-md', 'extension', 'no-lang', 'schema',
                 'wrapwidth', 'po-charset', 'md-charset'),
}
USAGE = ('no-lang', 'schema', 'wrapwidth', 'event-name')
BAD_COMMANDS = ('mdpo-context', 'mdpo-translator')
EVENTS = '''
def boom(self, block, text):
    if 'boom' in text:
        raise RuntimeError('boom')
'''


def snapshot(top='.'):
    found = {}
    for where, dirs, files in os.walk(top):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        for f in files:
            path = os.path.join(where, f)
            with open(path, 'rb') as fh:
                found[os.path.relpath(path, top)] = fh.read()
    return found


def encodes(text, charset):
    return text.encode(charset, 'replace').decode(charset) == text


def narrow(case):
    """If the translation has characters that its encoding has not."""
    return (case['fault'] == 'charset' and case['program'] in (
        'po2md', 'mdpo2html')) or case['fault'] == 'md-charset'


def source(case, n, broken):
    """Bytes of a document; the broken one has what breaks the run."""
    prog, fault = case['program'], case['fault']
    src = G.source(case['docs'][n])
    encoding = ('cp1252', 'xmlcharrefreplace') if narrow(case) else ('utf-8',)
    if n != case['broken'] % case['n_files']:
        return src.encode(*encoding)
    # whatever is pending or disabled at the end of the document
    src += '\n\n<!-- mdpo-enable -->\n\nfiller\n'
    last = 'boom €'
    if prog == 'mdpo2html':
        src = H.render(src)
        last = '<p>boom €</p>'
    bad = f'<!-- {BAD_COMMANDS[case["shift"] % 2]} -->'
    parts = [src, last]
    if broken and fault == 'command':
        parts.insert(case['shift'] % 3, bad)
    data = '\n\n'.join(parts) + '\n'
    data = data.encode(*encoding)
    if broken and fault == 'bytes':
        at = 0 if case['shift'] % 3 == 0 else len(data)
        data = data[:at] + b'\xff\xfe\xff ' + data[at:]
    return data


def prepare(case, broken):
    """Files of a run. Returns the paths of the outputs."""
    prog, fault = case['program'], case['fault']
    names = NAMES[:case['n_files']]
    for n, name in enumerate(names):
        with open(name, 'wb') as f:
            f.write(source(case, n, broken))
    write('ev.py', EVENTS)
    k = case['broken'] % case['n_files']
    entries, _ = plan(case['docs'][k])
    # the translation can be encoded only as Unicode
    entries = [e for e in entries if not narrow(case) or all(
        encodes(x, 'cp1252') for x in e[1:])]
    entries.append((None, 'boom €', 'pum ñ ł €' if broken or not narrow(case)
                    else 'pum €'))
    if case['previous']:
        entries.append((None, 'gone', 'ido'))
        write('out.md', 'previous output ñ\n')
        write('out.html', '<p>previous output ñ</p>\n')
        write('x.mo', 'previous output')
    pos = ['x.po']
    if prog == 'md2po2md':
        pos = [f'l/{lang}/{n}.po' for lang in ('es', 'fr') for n in names]
        if case['previous']:
            for lang in ('es', 'fr'):
                write(f'l/{lang}/{names[k]}', 'previous output ñ\n')
    elif prog != 'md2po':
        pos += ['other.po']
    wanted = prog in ('po2md', 'mdpo2html') or case['previous'] or fault in (
        'po-syntax', 'po-bytes', 'po-charset', 'md-charset')
    for n, path in enumerate(pos):
        if not wanted:
            break
        os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
        # one charset that has not the characters of the documents
        ascii_only = fault == 'po-charset'
        make_po(path, [] if ascii_only else entries, encoding='utf-8')
        if not broken or n != (case['shift'] % len(pos)):
            continue
        with open(path, 'rb') as f:
            data = f.read()
        if fault == 'po-syntax':
            data += b'\nnot an entry\n'
        elif fault == 'po-bytes':
            data += b'\nmsgid "\xff\xff bytes"\nmsgstr ""\n'
        with open(path, 'wb') as f:
            f.write(data)


def run(case, broken):
    """Run the program, returning what it raises or the exit code."""
    prog, api = case['program'], case['api']
    fault = case['fault'] if broken else None
    kw, args = {}, []

    def option(name, value, *given):
        kw[name] = value
        args.extend(given)

    md_name = 'html_encoding' if prog == 'mdpo2html' else 'md_encoding'
    md_option = '--html-encoding' if prog == 'mdpo2html' else '--md-encoding'
    if narrow(case):
        option(md_name, 'cp1252', md_option, 'cp1252')
    if fault == 'charset':
        if prog == 'md2po':
            option('po_encoding', 'ascii', '--po-encoding', 'ascii')
        elif prog == 'md2po2md':
            option('po_encoding', 'ascii', '--po-encoding', 'ascii')
    elif fault == 'po-charset':
        option('po_encoding', 'cp437', '--po-encoding', 'cp437')
    elif fault == 'po-bytes':
        option('po_encoding', 'utf-8', '--po-encoding', 'utf-8')
    elif fault == 'unknown-po':
        option('po_encoding', 'utf-99', '--po-encoding', 'utf-99')
    elif fault == 'unknown-md':
        option(md_name, 'utf-99', md_option, 'utf-99')
    elif fault == 'event':
        option('events', {'text': 'ev.py::boom'}, '-e', 'text: ev.py::boom')
    elif fault == 'event-name':
        option('events', {'text': 'ev.py::none'}, '-e', 'text: ev.py::none')
    elif fault == 'extension':
        option('extensions', ['tables', 'nothing'], '-x', 'tables', '-x',
               'nothing')
    elif fault == 'wrapwidth':
        if prog == 'md2po2md':
            option('md_wrapwidth', 'wide', '--md-wrapwidth', 'wide')
        else:
            option('wrapwidth', 'wide', '--wrapwidth', 'wide')
    if case['check']:
        args.append('--check')
        kw['_check_saved_files_changed'] = True
    paths = list(NAMES[:case['n_files']])
    no_dir = fault == 'no-directory'
    if prog == 'md2po':
        po = 'no/x.po' if no_dir else 'x.po'
        option('po_filepath', po, '-p', po)
        option('save', True, '-s')
        if case['mo'] or fault == 'mo-directory':
            mo = 'no/x.mo' if fault == 'mo-directory' else 'x.mo'
            option('mo_filepath', mo, '--mo-filepath', mo)
        value = paths

        def fn():
            return markdown_to_pofile(value, **kw)
        args = value + args
    elif prog in ('po2md', 'mdpo2html'):
        out = 'out.html' if prog == 'mdpo2html' else 'out.md'
        out = 'no/' + out if no_dir else out
        option('save', out, '-s', out)
        pos = ['x.po', 'other.po']
        for po in pos:
            args += ['-p', po]
        value = NAMES[case['broken'] % case['n_files']]

        def fn():
            api = pofile_to_markdown if prog == 'po2md' \
                else markdown_pofile_to_html
            return api(value, pos, **kw)
        args = [value] + args
    else:
        langs = ['es', 'fr']
        value = '[abc].md' if case['n_files'] > 1 else 'a.md'
        schema = 'l' if fault == 'schema' else 'l/{lang}'

        def fn():
            return markdown_to_pofile_to_markdown(langs, value, schema, **kw)
        args = [value] + args + ['-l', *langs] * (fault != 'no-lang') + [
            '-o', schema]
        api = api and fault != 'no-lang'
    with captured():
        try:
            if api:
                fn()
                return 0
            res = RUNS[prog](args)
            return res[1] if isinstance(res, tuple) else res
        except SystemExit as exc:
            return exc.code or 0
        except (CaseTimeout, KeyboardInterrupt):
            raise
        except BaseException as exc:
            return exc


def plain(data):
    return data.replace('pum ñ ł €'.encode(), 'pum €'.encode()) if data else data


def check(case, ctx):
    fault = case['fault'] = case['faults'][case['program']]
    ctx.nontrivial(case['previous'])
    if narrow(case):
        case['docs'] = encodable(case['docs'], 'cp1252')
    ctx.label(f'{case["program"]} {fault}')
    with ctx.tmpdir():
        for name in ('ok', 'bad'):
            os.mkdir(name)
            os.chdir(name)
            try:
                prepare(case, broken=name == 'bad')
                before = snapshot()
                res = run(case, broken=name == 'bad')
            finally:
                os.chdir('..')
            if name == 'ok':
                expect(res in (0, 2), 'the run without fault fails',
                       result=repr(res))
                complete = {k: plain(v) for k, v in snapshot(name).items()}
        ctx.label(type(res).__name__)
        if fault == 'unknown-po' and res in (0, 2):
            return  # polib reads the files as UTF-8
        # argparse exits with 2 too
        expect(isinstance(res, BaseException) or res not in (0, 2)
               or (res == 2 and fault in USAGE),
               'a run that cannot be completed does not fail',
               result=repr(res), fault=fault)
        after = snapshot('bad')
        inputs = set(before) if case['program'] != 'md2po2md' else {
            p for p in before if not p.startswith('l')}
        for path in sorted({*before, *after}):
            old, new = before.get(path), after.get(path)
            if new == old or (new is not None and plain(new) == complete.get(path)
                              and not (path in NAMES and path in inputs)):
                continue
            if fault == 'po-charset' and NAMES[
                    case['broken'] % case['n_files']] not in path:
                continue  # complete, in that charset
            fail('a run that fails changes a file', path=path, result=repr(
                res), fault=fault, before=old, after=new)


def strategy():
    from hypothesis import strategies as st
    prof = G.Profile(cmds=G.COMMANDS, max_blocks=3, max_toks=3)
    return st.fixed_dictionaries({
        'docs': st.lists(G.docs(prof), min_size=3, max_size=3),
        'n_files': st.integers(1, 3), 'broken': st.integers(0, 2),
        'shift': st.integers(0, 5), 'previous': st.booleans(),
        'program': st.sampled_from(tuple(FAULTS)),
        'faults': st.fixed_dictionaries({
            k: st.sampled_from(v) for k, v in FAULTS.items()}),
        'api': st.booleans(), 'check': st.booleans(), 'mo': st.booleans()})


SUITES = [Suite('faults', strategy, check, quick=4000)]
