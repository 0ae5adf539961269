"""C13: md2po2md is extraction plus translation for each file and language."""
import os

import polib

from mdpo.po import (
    check_empty_msgstrs_in_filepaths,
    check_fuzzy_entries_in_filepaths,
    check_obsolete_entries_in_filepaths,
)

from .. import mdgen as G
from ..core import Suite, call, cli, equal
from ..util import (
    encodable,
    extract,
    markdown_to_pofile_to_markdown,
    md2po2md_run,
    read_bytes,
    translate,
    write,
)

PROPERTY = 'C13'
RULE = ('cases are histories over one to three generated Markdown files: runs '
        'with generated languages, output schema and options through the API '
        'or the CLI, translator edits of one language and new versions of the '
        'files; every output must be what the extraction and translation of '
        'that file and language alone write, and nothing else may be written. '
        'Non-trivial: a language is translated and a later run has another '
        'one or another version of the file.')

LINTS = {'no_obsolete': check_obsolete_entries_in_filepaths,
         'no_fuzzy': check_fuzzy_entries_in_filepaths,
         'no_empty_msgstr': check_empty_msgstrs_in_filepaths}
NAMES = ('README.md', 'guide.md', 'docs/intro.v2.md')
LANGS = ('es', 'fr', 'de_DE', 'zh-Hans')
SCHEMAS = ('{lang}', 'locale/{lang}', 'out/{lang}/docs', '{lang}/{basename}',
           'locale/{lang}/{basename}', 'locale/{lang}/LC/{basename}',
           '{lang}/')


def outputs(schema, lang, name):
    """PO and Markdown paths documented for a schema."""
    base = os.path.basename(name)
    if '{basename}' in schema:
        path = schema.format(lang=lang, basename=os.path.splitext(base)[0])
        return path + '.po', path
    where = schema.format(lang=lang).rstrip('/')
    return f'{where}/{base}.po', f'{where}/{base}'


def tree():
    found = {}
    for where, _, files in os.walk('.'):
        for f in files:
            path = os.path.normpath(os.path.join(where, f))
            if not path.startswith('ref' + os.sep):
                found[path] = read_bytes(path)
    return found


def alone(name, po, md, opts):
    """What the two programs write for a file and a language."""
    kw = {}
    if opts.get('aliases'):
        kw['command_aliases'] = {'mdpo-off': 'mdpo-disable'}
    if opts.get('extensions'):
        kw['extensions'] = opts['extensions']
    enc = {k: opts[k] for k in ('po_encoding', 'md_encoding') if k in opts}
    kw.update(opts.get('md2po_kwargs') or {})
    os.makedirs(os.path.dirname('ref/' + po) or '.', exist_ok=True)
    extract(name, po_filepath='ref/' + po, save=True,
            wrapwidth=opts.get('po_wrapwidth', 78),
            location=opts.get('location', True),
            include_codeblocks=opts.get('include_codeblocks', False), **kw, **enc)
    ext = {'extensions': opts['extensions']} if opts.get('extensions') else {}
    if opts.get('aliases'):
        ext['command_aliases'] = {'mdpo-off': 'mdpo-disable'}
    ext.update(opts.get('po2md_kwargs') or {})
    out = translate(name, ['ref/' + po],
                    wrapwidth=opts.get('md_wrapwidth', 80), **ext, **enc)
    write('ref/' + md, out, opts.get('md_encoding', 'utf-8'))


def execute(step, names, schema, opts):
    globs = (['README.md'], ['*.md'], ['*.md', 'docs/*.md'])[len(names) - 1]
    changed, api = False, opts.get('md2po_kwargs') or opts.get('po2md_kwargs')
    found = [[], [], []]
    for g in globs:
        if step['cli'] and not api:
            args = [g, '-o', schema]
            if step['langs_arg'] == 'one':
                args += ['-l', *step['langs']]
            else:
                for lang in step['langs']:
                    args += ['-l', lang]
            for opt, arg in (('po_wrapwidth', '--po-wrapwidth'),
                             ('md_wrapwidth', '--md-wrapwidth'),
                             ('po_encoding', '--po-encoding'),
                             ('md_encoding', '--md-encoding')):
                if opt in opts:
                    args += [arg, str(opts[opt])]
            if not opts.get('location', True):
                args.append('--no-location')
            if opts.get('include_codeblocks'):
                args.append('--include-codeblocks')
            if opts.get('debug'):
                args.append('--debug')
            if opts.get('aliases'):
                args += ['--command-alias', 'mdpo-off:mdpo-disable']
            for ext in opts.get('extensions') or ():
                args += ['-x', ext]
            args.append('--check')
            res = cli(md2po2md_run, args)
            equal(res.code in (0, 2), True, 'exit code', code=res.code)
            changed = changed or res.code == 2
        else:
            kw = {k: v for k, v in opts.items() if k != 'aliases'}
            if kw.get('extensions') is None:
                kw.pop('extensions', None)
            if opts.get('aliases'):
                kw['command_aliases'] = {'mdpo-off': 'mdpo-disable'}
            res = call(markdown_to_pofile_to_markdown, step['langs'], g,
                       schema, _check_saved_files_changed=True, **kw,
                       **dict.fromkeys(step['lint'], True))
            changed = changed or bool(res[0])
            for kind, locations in zip(found, res[1:]):
                kind.extend(locations)
    return changed, None if step['cli'] and not api else found


def check(case, ctx):
    names = NAMES[:case['n_files']]
    opts = case['opts']
    case = encodable(case, opts.get('po_encoding', 'utf-8'))
    schema, encoding = case['schema'], opts.get('md_encoding', 'utf-8')
    po_encoding = opts.get('po_encoding', 'utf-8')
    versions = dict.fromkeys(names, 0)
    done, translated, nontrivial = {}, None, False
    with ctx.tmpdir():
        os.mkdir('ref')
        for n, name in enumerate(names):
            write(name, text(case['docs'][n], opts), encoding)
        for n_step, step in enumerate(case['steps']):
            if step['op'] == 'edit':
                name = names[step['file'] % len(names)]
                write(name, text(case['docs'][step['doc']], opts), encoding)
                versions[name] += 1
                nontrivial = nontrivial or bool(translated)
                continue
            if step['op'] == 'translate':
                todo = [(k, v) for k, v in sorted(done.items())]
                if not todo:
                    continue
                (lang, name), (po, md) = todo[step['file'] % len(todo)]
                translated = lang
                for path in (po, 'ref/' + po):
                    f = polib.pofile(path, encoding=po_encoding)
                    for k, e in enumerate(f):
                        if k % 3 != step['shift'] and not e.obsolete:
                            e.msgstr = f'{lang} {name[0]} {e.msgid}'
                    f.save(path)
                continue
            before = tree()
            info = {'step': n_step, 'schema': schema}
            changed, found = execute(step, names, schema, opts)
            for lang in step['langs']:
                if translated and lang != translated:
                    nontrivial = True
                for name in names:
                    po, md = outputs(schema, lang, name)
                    done[lang, name] = po, md
                    alone(name, po, md, opts)
            want = {p: t for p, t in before.items()}
            for po, md in done.values():
                want[po] = read_bytes('ref/' + po)
                want[md] = read_bytes('ref/' + md)
            got = tree()
            if found is not None:
                pos = [outputs(schema, lang, name)[0] for name in names
                       for lang in step['langs']]
                equal([sorted(x) for x in found], [
                    sorted(f(pos)) if lint in step['lint'] else []
                    for lint, f in LINTS.items()], 'entries reported', **info)
            equal(sorted(got), sorted(want), 'files written', **info)
            for path in want:
                equal(got[path], want[path], 'content of a file', path=path,
                      **info)
            equal(changed, got != before,
                  'check mode does not tell if files changed', **info)
    ctx.nontrivial(nontrivial)


def text(doc, opts):
    if doc.get('shared') is None:
        return '<!-- nothing to extract -->\n'
    src = G.source(doc)
    if doc['shared']:  # messages that the files have in common
        src += '\n\nShared *text*\n\n> Another one\n'
    return src.replace('mdpo-disable ', 'mdpo-off ') \
        if opts.get('aliases') else src


def strategy():
    from hypothesis import strategies as st
    prof = G.Profile(cmds=G.COMMANDS, max_blocks=4, max_toks=4)
    docs = st.builds(lambda d, s: dict(d, shared=s), G.docs(prof),
                     st.sampled_from((True, False, True, False, None)))
    langs = st.lists(st.sampled_from(LANGS), min_size=1, max_size=3,
                     unique=True)
    run = st.fixed_dictionaries({
        'op': st.just('run'), 'langs': langs, 'cli': st.booleans(),
        'langs_arg': st.sampled_from(('one', 'many')),
        'lint': st.lists(st.sampled_from(sorted(LINTS)), unique=True)})
    tr = st.fixed_dictionaries({
        'op': st.just('translate'), 'file': st.integers(0, 8),
        'shift': st.integers(0, 2)})
    edit = st.fixed_dictionaries({
        'op': st.just('edit'), 'file': st.integers(0, 2),
        'doc': st.integers(0, 3)})
    return st.fixed_dictionaries({
        'n_files': st.integers(1, 3),
        'docs': st.lists(docs, min_size=4, max_size=4),
        'schema': st.sampled_from(SCHEMAS),
        'opts': st.fixed_dictionaries({}, optional={
            'location': st.booleans(), 'include_codeblocks': st.booleans(),
            'po_wrapwidth': st.sampled_from((0, 30, 78)),
            'md_wrapwidth': st.sampled_from((0, 40, 80)),
            'aliases': st.booleans(), 'debug': st.just(True),
            'po_encoding': st.sampled_from(('utf-8', 'iso-8859-1', 'cp1252')),
            'md_encoding': st.sampled_from(('utf-8', 'utf-16', 'utf-8-sig')),
            'md2po_kwargs': st.sampled_from((
                None, {'mark_not_found_as_obsolete': False},
                {'preserve_not_found': False}, {'plaintext': True},
                {'metadata': {'Language': 'es'}}, {'xheader': True},
                {'ignore_msgids': ['alpha']}, {'msgstr': 'x'},
                {'bold_start_string': '__', 'bold_end_string': '__'})),
            'po2md_kwargs': st.sampled_from((
                None, {'extensions': []}, {'italic_start_string': '_',
                                           'italic_end_string': '_'})),
            'extensions': st.sampled_from((None, ['tables'], [
                'collapse_whitespace', 'tables', 'strikethrough']))}),
        'steps': st.tuples(run, st.lists(st.one_of(run, tr, tr, edit),
                                         min_size=2, max_size=6)).map(
            lambda t: [t[0], *t[1]])})


SUITES = [Suite('history', strategy, check, quick=6000)]
