"""C09: updating a PO file with new versions of the documents."""
import polib

from ..core import Suite, equal, expect
from ..util import cli, extract, md2po_run, write

PROPERTY = 'C09'
RULE = ('cases are histories of a PO file: extractions of successive versions '
        'of a document in the three merge modes (obsolete, keep, remove), '
        'through the API or the CLI, interleaved with translator edits; a '
        'model keeps the translation, fuzzy mark and state of each (context, '
        'message). Non-trivial: a translated message disappears from the '
        'document and a later extraction finds it again, or two modes are '
        'mixed after a translation.')

MESSAGES = ('Hello', 'hello', 'Hello.', 'Bye', 'One more *thing*', 'ñandú "quoted"', 'back\\slash',
            'Long message that is going to be wrapped by the writer of the PO '
            'file because it has more than seventy eight characters in it')
CONTEXTS = (None, None, 'menu', 'Menu', '0', 'Hello')
MODES = {
    'mark': ({}, []),
    'keep': ({'mark_not_found_as_obsolete': False}, ['--merge-po-files']),
    'remove': ({'mark_not_found_as_obsolete': False,
                'preserve_not_found': False},
               ['--merge-po-files', '--remove-not-found']),
}


def source(doc):
    out = []
    for msg, context, form in doc:
        if context:
            out.append(f'<!-- mdpo-context {context} -->')
        text = msg.replace('\\', '\\\\')
        out.append({'p': '', 'h': '## ', 'q': '> '}[form] + text)
    return '\n\n'.join(out) + '\n'


class Model:
    def __init__(self):
        self.active = {}        # key -> (msgstr, fuzzy)
        self.obsolete = {}      # key -> set of possible (msgstr, fuzzy)
        self.notes = {}         # key -> translator comment of active messages

    def extract(self, keys, mode, default):
        back = False
        for key in keys:
            if key in self.active:
                continue
            olds = self.obsolete.get(key)
            if olds:
                back = any(o[0] for o in olds) or back
                self.active[key] = {
                    o if o[0] else (default, False) for o in olds}
            else:
                self.active[key] = {(default, False)}
        if mode == 'mark':
            for key in [k for k in self.active if k not in keys]:
                self.obsolete.setdefault(key, set()).update(
                    self.active.pop(key))
            for key in keys:
                self.obsolete.pop(key, None)
        elif mode == 'remove':
            self.active = {k: v for k, v in self.active.items() if k in keys}
            self.obsolete = {
                k: v for k, v in self.obsolete.items() if k in keys}
        self.notes = {k: v for k, v in self.notes.items() if k in self.active}
        return back


def state(entry):
    return (entry.msgstr, 'fuzzy' in entry.flags)


def compare(po, model, keys, mode, info):
    active, obsolete = {}, {}
    for e in po:
        key = (e.msgctxt, e.msgid)
        if e.obsolete:
            obsolete.setdefault(key, set()).add(state(e))
        else:
            expect(key not in active, 'a message is repeated in the PO file',
                   message=key, **info)
            active[key] = state(e)
            if key in model.notes:
                equal(e.tcomment, model.notes[key],
                      'comment of the translator changed', message=key, **info)
    equal(sorted(active, key=str), sorted(model.active, key=str),
          'messages of the PO file', mode=mode, **info)
    for key, got in active.items():
        expect(got in model.active[key],
               'translation of a message changed', message=key, got=got,
               expected=sorted(model.active[key]), mode=mode, **info)
        model.active[key] = {got}
    for key, got in obsolete.items():
        if mode == 'mark':
            expect(key not in keys,
                   'a message of the document is still marked as obsolete',
                   message=key, mode=mode, **info)
        want = model.obsolete.get(key)
        expect(want is not None or key in model.active,
               'unexpected obsolete message', message=key, mode=mode, **info)
        expect(want is None or got <= want,
               'translation of an obsolete message changed',
               message=key, got=got, expected=want, mode=mode, **info)
    for key in model.obsolete:
        expect(key in obsolete or key in model.active,
               'an obsolete message was lost', message=key, mode=mode, **info)
    model.obsolete = obsolete


def check(case, ctx):
    model = Model()
    returned, modes, translated = False, set(), False
    with ctx.tmpdir():
        for n, step in enumerate(case['steps']):
            info = {'step': n}
            if step['op'] == 'translate':
                if not model.active:
                    continue
                po = polib.pofile('es.po')
                entries = [e for e in po if not e.obsolete]
                for k in step['which']:
                    e = entries[k % len(entries)]
                    e.msgstr = step['text']
                    if step['fuzzy'] and 'fuzzy' not in e.flags:
                        e.flags.append('fuzzy')
                    model.active[(e.msgctxt, e.msgid)] = {state(e)}
                    e.tcomment = step['note']
                    model.notes[(e.msgctxt, e.msgid)] = step['note']
                    translated = True
                po.save('es.po')
                continue
            src = source(step['doc'])
            info['source'] = src
            keys = []
            for m, c, _ in step['doc']:
                if (c, m) not in keys:
                    keys.append((c, m))
            kwargs, args = MODES[step['mode']]
            default = ''
            if step['cli']:
                write('doc.md', src)
                loc = [] if step['location'] else ['--no-location']
                res = cli(md2po_run, ['doc.md', '-p', 'es.po', '-s', '-q',
                                      *args, *loc])
                equal(res.code, 0, 'exit code', **info)
                po = res.value
            else:
                default = step['msgstr']
                po = extract(src, po_filepath='es.po', save=True,
                             msgstr=default, **kwargs)
            modes.add(step['mode'])
            returned = model.extract(keys, step['mode'], default) or returned
            compare(polib.pofile('es.po'), model, keys, step['mode'], info)
            equal([(e.msgctxt, e.msgid, state(e), bool(e.obsolete))
                   for e in sorted(po, key=lambda e: bool(e.obsolete))],
                  [(e.msgctxt, e.msgid, state(e), bool(e.obsolete))
                   for e in polib.pofile('es.po')],
                  'saved file and returned PO file differ', **info)
    ctx.nontrivial(returned or translated and len(modes) > 1)
    if returned:
        ctx.label('translated message found again')


def strategy():
    from hypothesis import strategies as st
    doc = st.lists(st.tuples(
        st.sampled_from(MESSAGES), st.sampled_from(CONTEXTS),
        st.sampled_from(('p', 'p', 'h', 'q'))).map(list), max_size=6)
    ext = st.fixed_dictionaries({
        'op': st.just('extract'), 'doc': doc.filter(bool),
        'mode': st.sampled_from(('mark', 'mark', 'mark', 'keep', 'remove')),
        'cli': st.booleans(), 'location': st.booleans(),
        'msgstr': st.sampled_from(('', '', 'default'))})
    tr = st.fixed_dictionaries({
        'op': st.just('translate'),
        'which': st.lists(st.integers(0, 7), min_size=1, max_size=4),
        'text': st.sampled_from(('uno', 'dos', 'texto "con" comillas', 'ñ',
                                 'dos\nlíneas')),
        'note': st.sampled_from(('', 'a note', 'two\nlines')),
        'fuzzy': st.sampled_from((False, False, True))})
    return st.fixed_dictionaries({'steps': st.lists(
        st.one_of(ext, ext, tr), min_size=2, max_size=8)})


SUITES = [Suite('history', strategy, check, quick=25000)]
