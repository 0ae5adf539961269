#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Only properties whose check exists in pbt/props are written.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/mdpo/'
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, technique,
         note, observe=()):
    PROPS.append(dict(
        pid=pid, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mech=mech, technique=technique, note=note,
        observe=list(observe)))


MD2PO, PO2MD = S + 'md2po/__init__.py', S + 'po2md/__init__.py'
TRUST = ('Random search over generated cases with shrinking: no alarm means no '
         'counterexample among the cases counted in the evidence. Trusted: '
         'md4c, polib, md_ulb_pwrap, the reference model in pbt/. ')

prop('C01', 'Extraction finds every message of a Markdown document, once and in order',
     'Extracting a Markdown document gives exactly one PO entry per distinct '
     '(context, message) pair of its translatable content - paragraphs, headings, list '
     'items, table cells, quotes, image and link texts and display equations, code blocks if '
     'asked for - in order of first appearance and with its inline markup written as Markdown. '
     'Nothing else is extracted: not HTML, not code by default, not the target of inline '
     'constructs as a message of its own, except the link references of the document, which '
     'follow the messages.',
     ['inputs', 'configurations'],
     'all Markdown documents built from the supported blocks and spans, nested to the depth mdpo supports, with and without code block extraction',
     'The tests use a few dozen fixed documents, most with one construct each; what breaks extraction is the combination of constructs (a fence in a list item before a nested list, an entity in an image alternative text).',
     [MD2PO, S + 'md.py', S + 'text.py', S + 'md4c.py'],
     [('md4c event handlers that build the current message', MD2PO + ':Md2Po.enter_block, leave_block, enter_span, leave_span, text'),
      ('storing of entries', MD2PO + ':Md2Po._save_current_msgid, _save_msgid')],
     'property-based testing: grammar-based document generator with a reference model of the extraction',
     TRUST + 'Domain limits are listed in DESIGN.md.', ['markdown_to_pofile'])

prop('C02', 'Plain text extraction gives the text of each message without markup',
     'Extracting a document in plain text mode gives one entry per distinct text of its '
     'paragraphs, headings, list items, cells, titles and quotes, in order, with neither inline markup nor link '
     'targets, and with no link reference entries.',
     ['inputs', 'configurations'],
     'all generated documents with plain text mode on, with and without code block extraction',
     'Tests of this mode are a handful of fixed strings.',
     [MD2PO],
     [('plain text mode of span and text handlers', MD2PO + ':Md2Po.enter_span, leave_span, text')],
     'property-based testing: grammar-based document generator with a reference model of the plain text',
     TRUST, ['markdown_to_pofile(plaintext=True)'])

prop('C03', 'HTML comment commands decide what is extracted and with which context',
     'For every sequence of command comments and blocks, the disable, enable and next-block commands '
     'select exactly the messages they are documented to select, context and translator '
     'comments go to the next extracted message and no other, code block commands include or exclude '
     'the blocks they are documented to, and include comments add their text as a message. '
     'Comments that are not commands, and disabled content when asked for, have no other effect.',
     ['inputs', 'histories', 'configurations'],
     'all generated documents with commands at any block boundary, command aliases included',
     'The state machine of commands has unbounded histories; the tests try each command once or twice in a fixed place.',
     [MD2PO, S + 'command.py'],
     [('command parsing', S + 'command.py:parse_mdpo_html_command'),
      ('command state', MD2PO + ':Md2Po.command')],
     'property-based testing: command histories in generated documents against a reference state machine',
     TRUST, ['markdown_to_pofile'])

prop('C04', 'A fully translated document means the translation, block by block',
     'Translating a document with a PO file that translates every extracted message gives a Markdown document '
     'that renders to the same structure as the source with each message replaced by its translation, '
     'link references included, and no untranslated text remains. It holds equally for the PO file written by the extraction '
     'and filled in message by message.',
     ['inputs'],
     'all generated documents and all translations generated per message',
     'Tests compare a few fixed documents; loss or misplacement of a block depends on what surrounds it.',
     [PO2MD, MD2PO],
     [('building of translated messages', PO2MD + ':Po2Md._save_current_msgid'),
      ('agreement of message ids between both parsers', MD2PO + ' / ' + PO2MD)],
     'property-based testing: model-based translation and the extract-fill-translate pipeline, judged by rendered HTML',
     TRUST + 'Meaning is compared by rendering with md4c and normalising white space.', ['pofile_to_markdown', 'markdown_to_pofile'])

prop('C05', 'Translating with no translations keeps the meaning of the document',
     'Translating any document with a PO file that translates none of its messages gives a Markdown document '
     'that renders to the same HTML.',
     ['inputs'],
     'all generated documents, with default and unlimited wrap widths',
     'The equivalence must hold for all nestings of blocks and spans; the tests pin some outputs.',
     [PO2MD, S + 'text.py'],
     [('Markdown writer', PO2MD + ':Po2Md.enter_block, leave_block, enter_span, leave_span, text')],
     'property-based testing: metamorphic relation (render(source) = render(output))',
     TRUST, ['pofile_to_markdown'])

prop('C06', 'Only messages with a translation in their context change',
     'With any subset of messages translated, in any number of PO files, each message is replaced '
     'if and only if some PO file has a non-empty translation for it in the same context, and every other message, every '
     'disabled part and every block without messages stays as it is. Translations of the same message in '
     'different contexts, or for other documents, never mix.',
     ['inputs', 'configurations'],
     'all generated documents with commands, subsets of translated messages, spread over up to three PO files with decoys',
     'Tests translate whole fixed documents with one PO file; mixing needs partial translations plus contexts or several files.',
     [PO2MD, S + 'po.py'],
     [('translation dictionaries', S + 'po.py:pofiles_to_unique_translations_dicts'),
      ('lookup and disabled state', PO2MD + ':Po2Md._save_current_msgid')],
     'property-based testing: partial translation model, judged by rendered HTML',
     TRUST, ['pofile_to_markdown'])

prop('C07', 'The wrap width moves line breaks and nothing else',
     'For every wrap width, translating a document gives text that renders like the unlimited-width output and equals it once line '
     'breaks are undone; no line is longer than the width if it could be broken, and no line is broken before the next word would exceed it.',
     ['inputs', 'configurations'],
     'all generated documents of words and simple spans, all widths from 8 to 100 columns',
     'Tests pin the output of a few widths on two documents.',
     [PO2MD, S + 'text.py'],
     [('wrapping of messages', PO2MD + ':Po2Md._save_current_msgid'),
      ('width parsing', S + 'text.py:parse_wrapwidth_argument')],
     'property-based testing: metamorphic relation over widths plus a line-length predicate',
     TRUST + 'The wrapping library may make the first and last line of a paragraph one column longer; constructs it breaks are out of the domain.', ['pofile_to_markdown(wrapwidth=...)'])

exec(open(os.path.join(HERE, 'tools', 'gen_more.py'), encoding='utf-8').read()
     if os.path.exists(os.path.join(HERE, 'tools', 'gen_more.py')) else '')


def main():
    have = [p for p in PROPS if os.path.exists(
        os.path.join(HERE, 'pbt', 'props', p['pid'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in have:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None},
            }, ensure_ascii=False) + '\n')
    checks = [{
        'property': p['pid'],
        'quick_cmd': f'./check {p["pid"]}',
        'thorough_cmd': f'./check {p["pid"]} --tier thorough',
        'evidence_file': f'evidence/{p["pid"]}.json',
        'technique': p['technique'], 'level': 'exploration',
        'level_note': p['note'].strip(),
    } for p in have]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump({
            'version': 1,
            'setup_cmd': './check --selftest',
            'checks': checks, 'not_applicable': [],
            'notes': 'No hooks in /repo. All checks import /repo/src directly, '
                     'so nothing is built.',
        }, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
