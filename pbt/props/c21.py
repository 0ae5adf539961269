"""C21: pairs, aliases and widths given as text mean what is documented."""
import math
import re

from mdpo.cli import (
    parse_command_aliases_cli_arguments,
    parse_metadata_cli_arguments,
)
from mdpo.command import get_valid_mdpo_command_names
from mdpo.text import (
    INFINITE_WRAPWIDTH,
    min_not_max_chars_in_a_row,
    parse_escaped_pair,
    parse_escaped_pairs,
    parse_wrapwidth_argument,
)

from .. import htmlcmp as H
from .. import mdgen as G
from ..core import Suite, call, cli, equal, fail
from ..translation import plan
from ..util import (
    RUNS,
    extract,
    make_po,
    markdown_pofile_to_html,
    md2po_run,
    padded,
    translate,
    write,
)
from .c06 import chooser

PROPERTY = 'C21'
RULE = ('cases are lists of key and value pairs escaped and given to the '
        'metadata and command alias options, documents whose commands are '
        'renamed by aliases run through the three programs, and numbers given '
        'as text. Non-trivial: a pair has a separator, an alias is used, or '
        'the number is not a plain positive integer.')


def outcome(fn, *args):
    try:
        return fn(*args)
    except (ValueError, KeyError) as e:
        return type(e).__name__


def join(key, value, escape, space):
    return key.replace(':', escape) + ':' + space + value


def check_pairs(case, ctx):
    pairs = case['pairs']
    texts = [join(*p) for p in pairs]
    ctx.nontrivial(any(':' in p[0] or ':' in p[1] for p in pairs))
    keys = [p[0] for p in pairs]
    for p, text in zip(pairs, texts):
        equal(outcome(parse_escaped_pair, text), (p[0], p[1]), 'parsed pair',
              text=text)
    want = {p[0]: p[1] for p in pairs}
    if len(set(keys)) < len(keys):
        ctx.label('repeated key')
        want = 'KeyError'
    for bad in case['bad'][:1]:
        texts.insert(case['where'] % (len(texts) + 1), bad)
        ctx.label('malformed pair')
        # whichever comes first
        i = texts.index(bad)
        first = texts[:i]
        want = 'KeyError' if len(set(keys[:i])) < len(first) else 'ValueError'
    equal(outcome(parse_escaped_pairs, texts), want, 'parsed pairs',
          texts=texts)
    for fn, option in ((parse_metadata_cli_arguments, '--metadata'),
                       (parse_command_aliases_cli_arguments,
                        '--command-alias')):
        args = ['Some text', '-q']
        for text in texts:
            args.append(f'{option}={text}')
        if isinstance(want, dict):
            equal(outcome(fn, texts), want, 'pairs of ' + option)
            if option == '--metadata':
                # through the whole program
                got = cli(md2po_run, args)
                equal(got.code, 0, 'exit code', args=args)
                meta = got.value.metadata
                equal({k: meta.get(k) for k in want}, want, 'metadata of the '
                      'PO file', args=args)
        else:
            res = cli(md2po_run, args)
            equal(res.code, 1, 'exit code with bad pairs', args=args)
            if not (option in res.err or 'alias' in res.err):
                fail('the error message does not tell the option',
                     err=res.err, args=args)


def check_numbers(case, ctx):
    text = case['text']
    ctx.nontrivial(not re.fullmatch(r'[1-9][0-9]*', text))
    try:
        num = float(text)
        ok = not math.isnan(num)
    except ValueError:
        ok = False
    if ok and 0 < num < 1:
        return
    want = 'ValueError'
    if ok:
        want = int(num) if 0 < num < math.inf else INFINITE_WRAPWIDTH
    equal(outcome(parse_wrapwidth_argument, text), want, 'width', text=text)
    if not ok:
        for prog in ('md2po', 'po2md', 'md2po2md'):
            args = ['Some text', '-q', '--wrapwidth=' + text]
            args += {'md2po': [], 'po2md': ['-p', 'no.po'],
                     'md2po2md': ['-l', 'es', '-o', '{lang}']}[prog]
            if prog == 'md2po2md':
                args[0:3] = ['in.md', '-q', '--po-wrapwidth=' + text]
            with ctx.tmpdir():
                write('in.md', 'Some text')
                res = cli(RUNS[prog], args)
                equal(res.code, 1, 'exit code with an invalid width',
                      prog=prog, args=args)
                if 'wrapwidth' not in res.err:
                    fail('no message about the invalid width', err=res.err)


def check_runs(case, ctx):
    text, ch = case['text'], case['char']
    runs = {len(x) for x in re.findall(re.escape(ch) + '+', text)}
    ctx.nontrivial(len(runs) > 1)
    want = next(n for n in range(1, len(text) + 2) if n not in runs)
    equal(call(min_not_max_chars_in_a_row, ch, text), want,
          'shortest run not found')


@padded
def check_aliases(case, ctx):
    doc, aliases = case['doc'], {}
    src = plain = G.source(doc)
    for i, (alias, command, prefix) in enumerate(case['aliases']):
        # (a plain note of the documents starts with 'a')
        if alias in aliases or alias == 'a' \
                or alias in get_valid_mdpo_command_names():
            continue
        new = re.sub(r'<!-- mdpo-' + command + r'(?=\s)',
                     lambda m: '<!-- ' + alias, src)  # noqa: B023
        if new != src or i % 2:
            aliases[alias] = 'mdpo-' * prefix + command
        src = new
    if case.get('swap') and case['swap'][0] != case['swap'][1]:
        # names of commands used for other ones
        one, two = ('mdpo-' + G.COMMANDS[n][5:] for n in case['swap'])
        aliases[one], aliases[two] = two, one[5:]
        src = re.sub(r'<!-- (' + one + '|' + two + r')(?=\s)',
                     lambda m: '<!-- ' + (two if m[1] == one else one), src)
        ctx.label('names of commands as aliases')
    ctx.nontrivial(src != plain)
    options = []
    for a, c in aliases.items():
        options.append('--command-alias=' + a.replace(':', '\\:') + ':' + c)
    entries, _ = plan(doc, chooser(case['bits']))
    prog = case['program']
    ctx.label(prog)
    with ctx.tmpdir():
        make_po('es.po', entries)
        write('in.md', src)
        args = {'md2po': ['in.md', '--no-location'],
                'po2md': ['in.md', '-p', 'es.po'],
                'mdpo2html': ['in.html', '-p', 'es.po']}[prog] + options
        if prog == 'md2po':
            want = extract(plain, location=False)
            got = [extract(src, location=False, command_aliases=aliases),
                   cli(md2po_run, args).value]
            want, *got = [[(e.msgctxt, e.msgid, e.tcomment) for e in po]
                          for po in (want, *got)]
        elif prog == 'po2md':
            want = translate(plain, 'es.po')
            got = [translate(src, 'es.po', command_aliases=aliases),
                   cli(RUNS[prog], args).value]
        else:
            page = H.render(src)
            write('in.html', page)
            want = call(markdown_pofile_to_html, H.render(plain), 'es.po')
            got = [call(markdown_pofile_to_html, page, 'es.po',
                        command_aliases=aliases), cli(RUNS[prog], args).value]
            # some comments are kept, with their names
            want, *got = [re.sub(r'<!--.*?-->', '', x) for x in (want, *got)]
        for g, name in zip(got, ('API', 'CLI')):
            equal(g, want, 'result with aliases in the ' + name,
                  aliases=aliases, source=src)
        # neither an unknown command nor something that looks like one
        unknown = case['unknown']
        wrong = dict(aliases, bad=unknown)
        opts = {'command_aliases': wrong}
        fn, args = {'md2po': (extract, (src,)),
                    'po2md': (translate, (src, 'es.po')),
                    'mdpo2html': (markdown_pofile_to_html,
                                  ('<p></p>', 'es.po'))}[prog]
        try:
            fn(*args, **opts)
        except Exception as e:
            if unknown not in str(e):
                raise
        else:
            fail('an alias of an unknown command is accepted',
                 command=unknown)


def strategy_pairs():
    from hypothesis import strategies as st
    key = st.text(st.sampled_from('abñK- :/'), min_size=1, max_size=8).filter(
        lambda k: k[0] not in ': ' and not k[-1:].isspace())
    value = st.text(st.sampled_from('ab"ñ :/\\='), max_size=8).filter(
        lambda v: v == v.lstrip())
    pair = st.tuples(key, value, st.sampled_from(('\\:', '\\\\:')),
                     st.sampled_from(('', ' ', '   ')))
    return st.fixed_dictionaries({
        'pairs': st.lists(pair, min_size=1, max_size=4),
        'bad': st.lists(st.sampled_from(('', 'nothing', 'a\\:b', ':', '\\:')),
                        max_size=2).map(lambda x: x if len(x) > 1 else []),
        'where': st.integers(0, 4)})


def strategy_numbers():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({'text': st.one_of(
        st.integers(-50, 5000).map(str),
        st.floats(allow_nan=False).map(str),
        st.sampled_from(('inf', '-inf', 'Infinity', 'nan', '-nan', '+NaN',
                         '', 'ten', '1e3', '0x10', '1_000', ' 5 ', '--', '1,5',
                         '-0', '0.0', '+7', '1e400')),
        st.text(st.sampled_from('0123456789.e-+_naif'), max_size=5))})


def strategy_runs():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'text': st.text(st.sampled_from('``` a$'), max_size=24),
        'char': st.sampled_from('`$')})


def strategy_aliases():
    from hypothesis import strategies as st
    alias = st.text(st.sampled_from('abñ-_:.dis'), min_size=1, max_size=8) \
        .filter(lambda a: a[0] not in ':-' and '--' not in a
                and a[-1] not in '-')
    return st.fixed_dictionaries({
        'doc': G.docs(G.Profile(cmds=G.COMMANDS, max_blocks=5)),
        'aliases': st.lists(st.tuples(
            st.one_of(alias, st.sampled_from(('mdpo-on', 'mdpo-off', 'skip',
                                              'mdpo', 'x:y'))),
            st.sampled_from([c[5:] for c in G.COMMANDS]), st.booleans()),
            min_size=1, max_size=5),
        'bits': st.lists(st.booleans(), min_size=1, max_size=4),
        'swap': st.one_of(st.none(), st.tuples(*[st.integers(
            0, len(G.COMMANDS) - 1)] * 2)),
        'unknown': st.sampled_from((
            'no-such-command', 'mdpo', 'mdpodisable', 'mdpo_disable',
            'mdpo-disabled', 'disable-', 'mdpo-mdpo-disable', 'Disable',
            'mdpo-mdpo', 'context2', 'next-line')),
        'program': st.sampled_from(('md2po', 'md2po', 'po2md', 'mdpo2html'))})


SUITES = [
    Suite('pairs', strategy_pairs, check_pairs, quick=15000),
    Suite('aliases', strategy_aliases, check_aliases, quick=12500),
    Suite('numbers', strategy_numbers, check_numbers, quick=10000),
    Suite('runs', strategy_runs, check_runs, quick=10000),
]
