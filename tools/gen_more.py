IO, PO, TEXT = S + 'io.py', S + 'po.py', S + 'text.py'
MD = S + 'md.py'
CLI_ = S + 'cli.py'
MD2PO2MD, HTML = S + 'md2po2md/__init__.py', S + 'mdpo2html/__init__.py'

prop('C08', 'Entries are located at the top level block of their first occurrence',
     'Extracting from files, every new entry records exactly one location: the file and '
     'the number and type of the top level block where its message is first found, numbering blocks '
     'per file, with disabled or not extracted blocks counted. Without files or with locations disabled '
     'there are no locations.',
     ['inputs', 'configurations'],
     'all generated sets of one to three documents with commands and repeated messages, locations on and off, through the API and the CLI',
     'Tests pin the locations of one fixed document per block type; numbering depends on everything that comes before a message.',
     [MD2PO],
     [('numbering of top level blocks', MD2PO + ':Md2Po._build_msgstr_location, enter_block, leave_block'),
      ('command line options', S + 'md2po/__main__.py')],
     'property-based testing: grammar-based document generator with a reference model of block numbers',
     TRUST, ['markdown_to_pofile(location=True)'])

prop('C09', 'Updating a PO file never loses nor mixes the work of translators',
     'Over every history of extractions into the same PO file, a message found in the new Markdown keeps its '
     'translation, fuzzy mark and translator comment, including when it comes back after having been obsolete. A message '
     'not found becomes obsolete with its translation by default, stays as it is in merge mode, and '
     'disappears only in the remove mode; messages with other contexts are never touched.',
     ['histories', 'inputs', 'configurations'],
     'all generated histories of extractions in the three merge modes and translator edits, over documents with shared messages and contexts',
     'Tests do one or two extractions over a fixed file; loss needs an interleaving of versions, edits and modes.',
     [MD2PO, PO],
     [('marking, keeping and removing of not found entries', PO + ':mark_not_found_entries_as_obsoletes, remove_not_found_entries'),
      ('reuse of translations', MD2PO + ':Md2Po.extract, _save_msgid')],
     'stateful model-based testing: histories of extractions and edits against a model of the PO file',
     TRUST, ['markdown_to_pofile(save=True)', 'md2po --save'])

prop('C10', 'Extracting again changes nothing and --check reports exactly changes',
     'Extracting the same Markdown with the same options into the PO file just written leaves that file byte for '
     'byte as it was and reports that nothing changed. Check mode exits with 2 if and only if the bytes of the PO file '
     'changed, also for new, translated, stale or hand-formatted files.',
     ['inputs', 'histories', 'configurations'],
     'all generated documents, options and previous states of the PO file',
     'Tests extract fixed files; idempotence must hold for each combination of options, metadata and previous content.',
     [MD2PO, IO, S + 'md2po/__main__.py'],
     [('saving and change detection', IO + ':save_file_checking_file_changed'),
      ('exit codes', S + 'md2po/__main__.py:run')],
     'property-based testing: idempotence and a byte-level oracle of the reported change',
     TRUST, ['markdown_to_pofile(save=True)', 'md2po --check-saved-files-changed'])

prop('C12', 'Extracting several files is the union of extracting each of them',
     'Extracting a list or glob of Markdown files gives the entries of each file extracted alone, in the sorted '
     'order of paths, each (context, message) once with its first location: no command, disabled state or link '
     'reference of a file leaks into the next ones, and a file given twice counts once.',
     ['inputs', 'configurations'],
     'all generated sets of two to four documents, with commands pending or in force at their ends, given in any form',
     'Tests of several files use plain documents; leaks need a state left over at the end of one of them.',
     [MD2PO, IO],
     [('state kept between files', MD2PO + ':Md2Po.extract'),
      ('files selection', IO + ':filter_paths')],
     'property-based testing: differential oracle, joint against separate extraction',
     TRUST, ['markdown_to_pofile([...])'])

prop('C13', 'md2po2md equals md2po plus po2md for each file and language',
     'For every set of files, languages, output schema and options, and every history of runs, translator edits and new '
     'versions of the files, md2po2md writes for each file and language exactly what md2po and po2md write for that '
     'pair alone, in the paths of the schema, and nothing else. Its check mode reports exactly whether a file changed.',
     ['inputs', 'histories', 'configurations'],
     'all generated histories over one to three files, four languages, seven schemas and options, through API and CLI',
     'Tests run it once with one file and the default options; mixing up languages, files or options shows only in later runs.',
     [MD2PO2MD, S + 'md2po2md/__main__.py', MD2PO, PO2MD],
     [('loop over files and languages', MD2PO2MD + ':markdown_to_pofile_to_markdown')],
     'stateful property-based testing: differential oracle, the program against its two parts',
     TRUST, ['markdown_to_pofile_to_markdown', 'md2po2md'])

prop('C14', 'mdpo2html translates the HTML of a document like its Markdown',
     'For every document rendered to HTML and every partial translation of the messages that extraction finds in its '
     'Markdown, mdpo2html gives the HTML of the document with exactly those messages translated, in their contexts, and the '
     'rest unchanged: code blocks, raw HTML, attributes, entities, targets and titles of links and images. Disable, enable, '
     'next-block and context comments select the same messages as in Markdown.',
     ['inputs', 'configurations'],
     'all generated documents with the supported constructs rendered by md4c, with commands and subsets of translated messages',
     'Tests translate fixed pages without nesting, entities or commands combined with them.',
     [HTML, S + 'md.py', PO, S + 'mdpo2html/__main__.py'],
     [('reconstruction of messages from HTML', HTML + ':MdPo2HTML._process_replacer'),
      ('block structure', HTML + ':MdPo2HTML.handle_starttag, handle_endtag, handle_data')],
     'property-based testing: model translation of a document tree, judged by normalised HTML tokens',
     TRUST + 'Out of the domain: strikethrough, equations, wikilinks, tasks, paragraphs after other blocks in tight list items, images inside referenced links.',
     ['markdown_pofile_to_html', 'mdpo2html'])

prop('C11', 'Written PO and MO files hold exactly what was extracted',
     'Whatever the wrap width, the encodings of Markdown and PO files, the metadata, the default msgstr and the '
     'X-headers asked for, the PO file written has each extracted message, context, comment, flag, location and translation '
     'unchanged, it is encoded as asked for and declares it in its header, each metadata given is in the header, '
     'and the MO file written holds the translations of the PO file.',
     ['inputs', 'configurations'],
     'all generated documents and options, written in new files and over previous ones with translations',
     'Tests write a few ASCII files with the default width; escapes, wrapping and encodings break messages that need them.',
     [MD2PO, PO, IO, S + 'md2po/__main__.py', S + 'polib.py'],
     [('writing of files', MD2PO + ':Md2Po.extract; ' + IO + ':save_file_checking_file_changed'),
      ('metadata, header and encodings', MD2PO + ':Md2Po.__init__, extract')],
     'property-based testing: round trip of files through polib and gettext',
     TRUST, ['markdown_to_pofile(save=True)', 'md2po --save'])

prop('C15', 'Lint options report exactly the entries that they look for',
     'With the options that forbid obsolete entries, fuzzy entries and empty msgstrs, md2po, po2md, mdpo2html and md2po2md exit '
     'with the documented code if and only if the PO files have such an entry, reporting the file and line of each one and '
     'nothing else, for every layout of the PO files and also together with writing the outputs.',
     ['inputs', 'configurations'],
     'all generated PO files, layouts and sets of options, through the four programs and the functions behind them',
     'Tests lint one small PO file per option.',
     [PO] + [S + p + '/__main__.py' for p in ('md2po', 'po2md', 'mdpo2html', 'md2po2md')],
     [('scan of PO files', PO + ':check_obsolete_entries_in_filepaths, check_fuzzy_entries_in_filepaths, check_empty_msgstrs_in_filepaths'),
      ('exit codes', S + 'md2po/__main__.py:run and the other programs')],
     'property-based testing: generated PO files whose writer knows the line of each entry',
     TRUST, ['md2po', 'po2md', 'mdpo2html', 'md2po2md', 'check_*_entries_in_filepaths'])

prop('C16', 'Translation programs write, print and report what the API returns',
     'po2md and mdpo2html write in the file asked for, in the encoding asked for, or print otherwise, exactly the '
     'translation that the API returns, with input given as file, as argument or in standard input and the PO files as '
     'path, glob or list. Check mode exits with 2 if and only if the bytes of the output file changed; quiet mode prints nothing.',
     ['inputs', 'configurations'],
     'all generated documents, translations, encodings, previous outputs and ways of passing input',
     'Tests check each option alone over one document.',
     [PO2MD, HTML, IO, S + 'po2md/__main__.py', S + 'mdpo2html/__main__.py', CLI_],
     [('saving and change detection', IO + ':save_file_checking_file_changed, to_file_content_if_is_file'),
      ('CLI', S + 'po2md/__main__.py:run; ' + S + 'mdpo2html/__main__.py:run')],
     'property-based testing: differential oracle, the CLI against the API, and a byte-level oracle of changes',
     TRUST, ['po2md', 'mdpo2html', 'pofile_to_markdown', 'markdown_pofile_to_html'])

prop('C21', 'Pairs, aliases and widths given as text mean what is documented',
     'For all keys and values, a metadata or command alias option given as "key:value", with the separators of the key escaped, '
     'means exactly that pair; repeated keys and values without separator stop the programs with exit code 1 and a message. '
     'Documents whose commands are renamed by aliases, with or without the mdpo- prefix in their resolution, give in md2po, po2md and '
     'mdpo2html the same as with the original names, and aliases of unknown commands are rejected. Wrap widths accept any number, '
     'meaning no wrapping if it is zero, negative or infinite, and reject anything else.',
     ['inputs', 'configurations'],
     'all generated pairs, names, documents with commands and numbers given as text',
     'Tests have one fixed example of each.',
     [S + 'text.py', S + 'command.py', CLI_],
     [('parsing of pairs and numbers', S + 'text.py:parse_escaped_pair, parse_escaped_pairs, parse_strint_0_inf'),
      ('aliases', S + 'command.py:normalize_mdpo_command_aliases')],
     'property-based testing: round trip of escaped pairs, metamorphic renaming of commands',
     TRUST, ['md2po --metadata', '--command-alias', '--wrapwidth'])

prop('C17', 'The programs do what the API does with the same options',
     'For every set of options, running md2po, po2md, mdpo2html or md2po2md gives the result, standard output and files '
     'that the documented function of the API gives with the same options, and the exit code is 0 unless check mode finds a change (2). '
     'This holds for the real processes too, in any locale, with input in files or standard input.',
     ['inputs', 'configurations'],
     'all generated documents and sets of options of the four programs, run in twin directories, and some as real processes',
     'Tests try each option alone; options wired to the wrong parameter or ignored with another one are not seen.',
     [MD2PO, PO2MD, HTML, MD2PO2MD, CLI_] + [S + p + '/__main__.py' for p in ('md2po', 'po2md', 'mdpo2html', 'md2po2md')],
     [('options of the programs', S + 'md2po/__main__.py:build_parser, parse_options, run and the same in the other programs')],
     'property-based testing: differential oracle, each program against the API',
     TRUST, ['md2po', 'po2md', 'mdpo2html', 'md2po2md'])

prop('C18', 'Events see the whole parsing and skip exactly what they are told to',
     'Event functions of md2po and po2md are called once, in order, for each block, span and text that the parser finds, each command, '
     'each message with its context, comment and flags, and each link reference. Functions that do not return False, and debug '
     'mode, change nothing. If one returns False, that message, command, span or link reference is skipped, '
     'and nothing else. Functions given as path::function do the same as the function itself, whatever the name of the file.',
     ['inputs', 'configurations'],
     'all generated documents, with observers and with functions skipping generated subsets',
     'Tests use one event function over a line of text.',
     [S + 'event.py', MD2PO, PO2MD],
     [('call of events', S + 'event.py:raise_skip_event; ' + MD2PO + ':Md2Po; ' + PO2MD + ':Po2Md'),
      ('functions in files', S + 'event.py:parse_events_kwarg')],
     'property-based testing: stream of the parser as oracle, and metamorphic removal of what is skipped',
     TRUST, ['events', '--event', '--debug'])

prop('C19', 'Programs work on exactly the files selected and not ignored',
     'For every tree of files, the programs use exactly the files given by path or matched by the globs, in sorted order, except those '
     'ignored by path, file name, name of their directory or path of their directory: md2po for Markdown files, po2md and mdpo2html for '
     'PO files, md2po2md for its inputs, also with spaces and brackets in the names.',
     ['inputs', 'configurations'],
     'all generated trees, paths, globs and lists of paths to ignore, through API and CLI',
     'Tests ignore one file of a directory.',
     [IO, PO, MD2PO, MD2PO2MD],
     [('filter of paths', IO + ':filter_paths, to_files_or_content'),
      ('PO files', PO + ':paths_or_globs_to_unique_pofiles')],
     'property-based testing: independent model of globs and ignored paths',
     TRUST, ['ignore', '--ignore', 'markdown_to_pofile', 'pofile_to_markdown'])

prop('C20', 'Any text can be extracted and translated without losing messages',
     'For every text, whatever its syntax, md2po, po2md and mdpo2html finish without error (commands without the value that they '
     'need are rejected); entries are never empty nor repeated; the PO file saved holds exactly those returned; extracting again '
     'changes nothing; and po2md finds exactly the messages of md2po, in the same order and contexts, so the '
     'translation of every one of them appears in the output, wrapped or not.',
     ['inputs'],
     'all generated texts: random fragments and lines of Markdown, HTML, Unicode and commands, and damaged documents',
     'Tests only have well formed documents.',
     [MD2PO, PO2MD, HTML],
     [('parser callbacks of both directions', MD2PO + ':Md2Po; ' + PO2MD + ':Po2Md; ' + HTML + ':MdPo2HTML')],
     'property-based testing and fuzzing: random and mutated texts, differential oracle between the two directions, round trip of files',
     TRUST, ['md2po', 'po2md', 'mdpo2html', 'markdown_to_pofile', 'pofile_to_markdown'])

prop('C22', 'The md4c extensions decide the syntax, and both directions follow it',
     'For every set of md4c extensions, given to the API or with -x, md2po extracts the messages of the syntax enabled, with underlined '
     'text normalised to two underscores, po2md and md2po2md translate those same messages and keep the rest, and with no '
     'translation the output means, with the same extensions, what the document means.',
     ['inputs', 'configurations'],
     'all generated documents and sets of extensions and parser flags of md4c',
     'Tests only use the default extensions, and underline once with a line of text.',
     [MD2PO, PO2MD, MD2PO2MD, CLI_],
     [('configuration of spans', MD2PO + ':Md2Po.__init__; ' + PO2MD + ':Po2Md.__init__'),
      ('underline spans', MD2PO + ':not_plaintext_enter_span, not_plaintext_leave_span')],
     'property-based testing: reference model for the enabled syntax, md4c HTML as oracle for any flag',
     TRUST, ['md2po --extension', 'md2po2md --extension', 'extensions'])

prop('C23', 'A run that fails changes no file',
     'When a program or function of the API fails - by inputs or PO files that cannot be read, commands without the value that they '
     'need, texts that the encoding of an output does not have, wrong options, event functions that raise or outputs that '
     'cannot be created - each existing file is left byte for byte as it was or completely written, none is truncated, and '
     'no incomplete file is created.',
     ['inputs', 'faults', 'configurations'],
     'all runs of the four programs over generated documents with previous outputs, with one of the faults of a list put in any of their files or options',
     'Tests of errors check the exception, not what was left on disk; work is lost with a fault found after opening a file.',
     [MD2PO, PO2MD, MD2PO2MD, HTML, IO],
     [('writing of files', IO + ':write_file, save_file_checking_file_changed'),
      ('order of reading, parsing and saving', MD2PO + ':Md2Po.extract; ' + MD2PO2MD)],
     'fault injection over generated runs: twin directories, the same run without the fault as oracle of complete files',
     TRUST, ['md2po --save', 'po2md --save', 'mdpo2html --save', 'md2po2md'])

prop('C24', 'Each call gives the same whatever was called before or meanwhile',
     'The functions of the API and the programs are independent: after any history of other calls in the same process - also '
     'failed ones - or with others running in other threads, each call returns, writes and prints what it would do alone '
     'in a fresh process over the same files. They leave their arguments, the environment, the working directory and the '
     'import path as they were.',
     ['histories', 'schedules', 'inputs', 'configurations'],
     'all generated histories of up to a dozen calls of the four functions and programs over shared files, and sets of calls in threads',
     'Tests call each function once over fresh files; state shared between calls shows only with certain histories.',
     [MD2PO, PO2MD, MD2PO2MD, HTML, IO],
     [('environment of the run', IO + ':environ'),
      ('events, commands and settings given by the user', S + 'event.py; ' + S + 'command.py')],
     'stateful property-based testing: histories of calls in one process against each call alone in a fresh one; threads',
     TRUST, ['markdown_to_pofile', 'pofile_to_markdown', 'markdown_pofile_to_html', 'markdown_to_pofile_to_markdown'])

prop('C25', 'Translated documents are documents of the translated messages',
     'Extracting from the Markdown written by po2md gives the translations, and the messages without one, in the order of the '
     'messages of the original document, whatever the wrap width. Rewriting a translated document without '
     'translations means the same, and doing it again changes no byte.',
     ['inputs', 'configurations', 'histories'],
     'all generated documents, with and without commands, partial translations and wrap widths',
     'Tests compare outputs with stored ones and never read them again; documents are rewritten at each release of a project.',
     [MD2PO, PO2MD, TEXT],
     [('both parsers', MD2PO + ':Md2Po; ' + PO2MD + ':Po2Md'),
      ('wrapping of paragraphs', TEXT + ':wrap_paragraph')],
     'metamorphic property-based testing: extraction after translation, repeated rewriting',
     TRUST, ['po2md', 'md2po', 'pofile_to_markdown'])

prop('C26', 'The way in which a document is written does not change its messages',
     'Documents that CommonMark renders the same - with other marks of lists, emphasis, headings, fences and thematic breaks, the '
     'lines of paragraphs and headings broken or joined, link references moved or quoted otherwise, other numbers, indentation, '
     'blank lines, trailing spaces or newline characters - have the same messages, contexts and comments. The PO file of one is '
     'up to date for the others, byte by byte, and their translations mean the same.',
     ['inputs', 'configurations'],
     'all generated documents with commands and references, rewritten by sequences of such edits',
     'Tests have each construction written in one way; reformatting a document must not lose its translations.',
     [MD2PO, PO2MD, MD],
     [('both parsers', MD2PO + ':Md2Po; ' + PO2MD + ':Po2Md'),
      ('finding of link references', MD + ':parse_link_references')],
     'metamorphic property-based testing: edits of presentation accepted by md4c, differential extraction and translation',
     TRUST, ['md2po', 'po2md', 'md2po --check'])
