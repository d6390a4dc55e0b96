"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
import os

P = []


def p(id, title, statement, over, quant, why, files, mech, observe, hook=None):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': quant},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': hook,
        },
    })


B = 'src/blogc/'
M = 'src/blogc-make/'
R = 'src/blogc-runserver/'
G = 'src/blogc-git-receiver/'
C = 'src/common/'

p('C01', 'blogc never corrupts memory, crashes or hangs, whatever it is given',
  '''For every source file, template, file list and command line, blogc runs to an ordinary exit: no invalid
  memory access, no undefined behaviour that a sanitizer can see, no crash, and no run whose time grows out of
  proportion to its input.''',
  ['inputs'], 'all byte strings as source, template, listing-entry source, file list on stdin; all option combinations',
  '''The unit tests feed a few dozen hand-written inputs to hand-written state machines with manual memory
  management; a bad free or overread needs a particular sequence of blocks, an end of file in a particular state,
  or a second list after a malformed first one.''',
  [B + 'content-parser.c', B + 'source-parser.c', B + 'template-parser.c', B + 'renderer.c', B + 'loader.c',
   B + 'filelist-parser.c', B + 'main.c', C + 'utils.c', C + 'file.c'],
  [('content state machine', 'blogc_content_parse'), ('template state machine', 'blogc_template_parse'),
   ('AST interpreter', 'blogc_render'), ('string, list and trie containers', 'src/common/utils.c')],
  ['process exit status and sanitizer reports', 'wall time per input byte'])

p('C02', 'Variables of a source file reach the template exactly as written',
  '''Every `KEY: value` line above the separator of a source file gives KEY that value, with surrounding white
  space removed and every other byte kept (a repeated key keeps its last value, an empty value is defined but
  empty), and it overrides a global of the same name inside blocks that have a current source while the global
  value is seen everywhere else. Names the compiler sets itself (FILENAME, CONTENT, BLOGC_VERSION, ...) are refused
  in source files.''',
  ['inputs'], 'all sets of variables and values in source files and on the command line, all line endings',
  '''Tests use three or four fixed headers; which bytes survive, which definition wins and which prefix-sharing
  names collide in the trie depends on the set of names and values.''',
  [B + 'source-parser.c', B + 'renderer.c', B + 'main.c', C + 'utils.c'],
  [('header state machine', 'blogc_source_parse'), ('local over global lookup', 'blogc_get_variable'),
   ('key map', 'bc_trie_insert/bc_trie_lookup')],
  ['value rendered by {{ KEY }} in each kind of block'])

p('C03', 'Content markup renders to the documented HTML',
  '''Every block and inline element of blogc-source(7) - paragraphs, headers with ids, nested blockquotes, ordered
  and unordered lists with multi-line items, code blocks, horizontal rules, raw HTML, bold, italic, code, links,
  images, image links, automatic links, line breaks, dashes, backslash escapes - renders to its documented HTML in
  any combination, order, nesting, and with any of the three line endings, which is also the line ending of the
  output.''',
  ['inputs'], 'all documents of the documented markup language',
  '''Tests fix the rendering of some dozens of documents; the product of elements, nesting, indentation widths, line
  endings and what ends the file is unbounded, and bugs sit in transitions between elements.''',
  [B + 'content-parser.c'],
  [('block state machine', 'blogc_content_parse'), ('inline state machine', 'blogc_content_parse_inline')],
  ['value of {{ CONTENT }}'])

p('C04', 'No text of a document is lost, repeated, reordered or left unescaped',
  '''Whatever the markup around it, well-formed or not, each word of a source's running text and code appears in the
  rendered content exactly once and in the original order, and outside raw HTML blocks the characters & < > " ' /
  of that text come out as HTML entities; raw HTML blocks come out byte for byte.''',
  ['inputs'], 'all contents, including malformed and unterminated markup',
  '''The parser re-parses spans, backtracks and buffers lines; text is lost or repeated only when a construct is left
  open, overlaps another, or ends at the end of a span, line or file.''',
  [B + 'content-parser.c'],
  [('backtracking on unterminated links, images and emphasis', 'blogc_content_parse_inline_internal'),
   ('escaping', 'htmlentities_append'), ('span ends', 'blogc_content_parse: end/real_end')],
  ['value of {{ CONTENT }}'])

p('C05', 'Derived variables agree with the content they are derived from',
  '''For every source, EXCERPT is the rendered content up to the first excerpt separator that has something before it
  (all of it if there is none), FIRST_HEADER is the escaped text of the first header and DESCRIPTION the escaped
  text of the first paragraph outside blockquotes with its lines joined by spaces, RAW_CONTENT is the unparsed
  content, and FILENAME is the file's base name without its last extension. A FIRST_HEADER or DESCRIPTION written
  in the source file wins over the derived one.''',
  ['inputs'], 'all sources and file names',
  '''Tests check these on a few documents; which header or paragraph is first, and where the excerpt ends, depends on
  the whole document, and every derived value is computed at a different place of a state machine.''',
  [B + 'content-parser.c', B + 'source-parser.c', B + 'loader.c'],
  [('excerpt offset', 'blogc_content_parse: end_excerpt'), ('description', 'blogc_fix_description'),
   ('file name', 'blogc_get_filename'), ('override rules', 'blogc_source_parse')],
  ['values of {{ EXCERPT }}, {{ FIRST_HEADER }}, {{ DESCRIPTION }}, {{ RAW_CONTENT }}, {{ FILENAME }}'])

p('C06', 'The table of contents lists every header once, properly nested and limited',
  '''For every sequence of headers, TOCTREE is one well-nested list holding, in document order, exactly the headers
  whose depth below the shallowest header is within TOCTREE_MAXDEPTH (all if negative), each linking to the id that
  header has in the content; it is absent when the limit is 0 or there is no header. The limit of the source file
  wins over the global one, and a TOCTREE defined in the source file wins over the generated one.''',
  ['inputs'], 'all sequences of header levels and texts, all limits, local and global',
  '''Tests check three fixed trees; nesting depends on the order of level jumps, including headers that go up past
  the level the document began with, and on what the limit filters out.''',
  [B + 'toctree.c', B + 'content-parser.c', B + 'source-parser.c', B + 'loader.c'],
  [('tree rendering', 'blogc_toctree_render'), ('limit', 'TOCTREE_MAXDEPTH in blogc_source_parse')],
  ['value of {{ TOCTREE }} against the headers of {{ CONTENT }}'])

p('C07', 'Templates are rendered as blogc-template(7) defines',
  '''For every well-formed template, output is exactly what the documented language prescribes: which of the entry,
  listing, listing_once, listing_empty and listing_entry blocks appear, how often and with which source's variables;
  if/ifdef/ifndef/else at any nesting; foreach with FOREACH_ITEM and FOREACH_VALUE; truncated and _FORMATTED
  variables; whitespace control; and all other text byte for byte.''',
  ['programs', 'inputs'], 'all well-formed templates, all sets of sources and variables',
  '''A template is a program: tests run a dozen of them. Skipping, else-matching, loop state and scope are kept in
  flags shared by all statements, so wrong behaviour needs a particular nesting or sequence of blocks.''',
  [B + 'template-parser.c', B + 'renderer.c'],
  [('statement parser', 'blogc_template_parse'), ('interpreter', 'blogc_render'),
   ('variable lookup and formatting', 'blogc_format_variable'), ('list splitting', 'blogc_split_list_variable')],
  ['rendered output'])

p('C08', 'Malformed sources and templates are refused, precisely, and leave no output',
  '''When a template or any source file breaks the documented syntax (unbalanced, unknown, badly nested or
  unterminated statements, bad names or operators, invalid variables), blogc exits non-zero with an error message,
  naming the line and column at fault when it gives a position, and neither creates nor changes the output file.''',
  ['inputs'], 'all malformed templates and sources, at every position of otherwise valid files',
  '''Tests check a list of hand-written bad inputs; whether an error is noticed depends on where in the file it sits
  (inside which block, on which line, at the end of the file) and on what precedes it.''',
  [B + 'template-parser.c', B + 'source-parser.c', B + 'main.c', C + 'error.c'],
  [('statement checks', 'blogc_template_parse'), ('position', 'bc_error_parser'),
   ('output opened only after rendering', 'main')],
  ['exit status', 'stderr', 'output file before and after'])

p('C09', 'Listings contain exactly the selected posts, in order, with right page numbers',
  '''For every set of sources and FILTER_TAG, FILTER_SORT, FILTER_REVERSE, FILTER_PAGE and FILTER_PER_PAGE, a listing
  shows each matching source exactly once across the pages and only on its page, in command-line order or by
  descending date (reversed on request), and CURRENT_PAGE, FIRST_PAGE, LAST_PAGE, PREVIOUS_PAGE, NEXT_PAGE,
  DATE_FIRST, DATE_LAST, FILENAME_FIRST and FILENAME_LAST describe that page. Sources with and without a date are
  never mixed silently.''',
  ['inputs', 'configurations'], 'all lists of sources, tags, dates and filter settings; file lists on arguments and stdin',
  '''Tests use three posts and a handful of settings; partitioning into pages, tag matching and ordering are claims
  about every combination and about the union of all pages.''',
  [B + 'loader.c', B + 'filelist-parser.c', C + 'sort.c'],
  [('selection, sorting, pagination', 'blogc_source_parse_from_files'), ('merge sort', 'bc_slist_sort')],
  ['rendered listing', 'pagination variables'])

p('C10', 'Dates are validated and formatted as strftime(3) defines, in GMT',
  '''A DATE that is a valid calendar date in one of the documented forms is formatted with DATE_FORMAT exactly as
  strftime does for that GMT instant (weekday and day of year included), whatever the time zone of the
  environment, for every format that gives a non-empty text of less than 1024 bytes; without DATE_FORMAT, or for
  a date that is not in one of these forms or has a field out of its range (years from 1900, days 1 to 31), the
  original text is kept, such a date being reported.''',
  ['inputs'], 'all date strings, formats and time zones',
  '''Tests check a few instants; calendar arithmetic, missing fields, leap years and growing output buffers are
  claims over all dates and formats.''',
  [B + 'datetime-parser.c', B + 'renderer.c'],
  [('date state machine', 'blogc_convert_datetime'), ('formatter', 'blogc_format_date')],
  ['value of {{ DATE_FORMATTED }}'])

p('C11', 'Only valid UTF-8 is accepted, and it passes through intact',
  '''Source files, templates and configuration files that are not valid UTF-8, and -D values likewise, are refused
  with an error; a leading byte order mark is ignored; and valid text, in any script, reaches the output unchanged,
  so that output made from valid input is always valid UTF-8, also where a variable is truncated to a number of
  characters.''',
  ['inputs'], 'all byte strings, including overlong forms, surrogates, out-of-range and cut sequences, at any offset',
  '''Tests check a handful of strings against a 364-entry automaton; validity is a claim over all byte sequences, and
  preservation is a claim about every path text can take through the programs.''',
  [C + 'utf8.c', C + 'file.c', B + 'main.c', B + 'renderer.c'],
  [('validating automaton', 'bc_utf8_validate'), ('file loading', 'bc_file_get_contents'),
   ('truncation', 'blogc_format_variable')],
  ['exit status', 'output bytes'])

p('C12', 'blogc exits 0 only if the whole output was produced, also when I/O fails',
  '''If blogc exits with status 0 then the complete result is in the output file (or went to standard output), the
  needed directories included; if any input cannot be read or any part of the output cannot be created or written,
  it exits non-zero with a message and terminates.''',
  ['fault_sequences', 'inputs'], 'every failing open, read, write, close, mkdir or allocation-free system call, at every point; unreadable, missing, directory inputs',
  '''No test injects an I/O failure after the first open; a full disk or a read error at a given byte is a fault
  sequence, not an input.''',
  [B + 'main.c', C + 'file.c', C + 'stdin.c'],
  [('reading', 'bc_file_get_contents'), ('writing', 'main: fopen/fprintf/fclose'),
   ('directories', 'blogc_mkdir_recursive')],
  ['exit status', 'output bytes', 'stderr'])

p('C13', 'blogc -p prints exactly the value a template would see',
  '''For every variable name (plain, truncated, formatted, from -D, from the source, derived, or pagination), blogc -p
  NAME prints the value {{ NAME }} has for the same arguments in an entry (globals only when listing), and when the
  variable is not defined prints nothing on standard output and exits non-zero.''',
  ['inputs'], 'all variable names, sources and settings, with and without -l',
  '''Only a few fixed names are tested; blogc-make and Makefiles drive page loops with this value, so it must agree
  with the renderer for every name and setting.''',
  [B + 'main.c', B + 'renderer.c'],
  [('print mode', 'main'), ('formatting', 'blogc_format_variable')],
  ['stdout of -p against rendered output'])

p('C14', 'INI configuration files are read as written',
  '''For every configuration file, every section and every key written is present exactly once and no other, each key
  holds exactly the value written (surrounding white space removed; quoting and backslash escapes interpreted as
  documented by the parser's tests; last definition of a key, and of a section, wins), list sections keep every item in order, and comments
  and blank lines are ignored. A line that is none of these is an error giving its position.''',
  ['inputs'], 'all configuration files: sections, keys, lists, quoting, comments, line endings, end of file anywhere',
  '''The tests parse about twenty files; the state machine keeps positions and quoting state across lines, so
  misreading depends on what precedes a line and on what ends the file.''',
  [C + 'config-parser.c', M + 'settings.c', G + 'settings.c'],
  [('INI state machine', 'bc_config_parse'), ('accessors', 'bc_config_get/bc_config_list_keys')],
  ['parsed sections, keys and lists'])

p('C15', 'blogc-make builds exactly the documented files, with the documented content',
  '''For every valid blogcfile, a successful build leaves in the output directory exactly the files that blogcfile(5)
  prescribes for its posts, pages, tags, pagination, feeds and copies under its prefixes and extensions, each page
  being what blogc renders from the right sources, template, ordering, page and MAKE_* variables.''',
  ['configurations', 'inputs'], 'all blogcfiles: settings, prefixes, extensions, numbers of posts, tags, orders, page sizes',
  '''The test script builds four sites; which files exist and what is passed to each blogc call is a function of two
  dozen interacting settings.''',
  [M + 'rules.c', M + 'exec.c', M + 'utils.c', M + 'ctx.c', M + 'settings.c'],
  [('rule outputs', '*_outputlist in rules.c'), ('file names', 'bm_generate_filename'),
   ('variables', 'bm_exec_build_blogc_cmd')],
  ['files under the output directory', 'their bytes'])

p('C16', 'Settings reach blogc byte for byte, whatever characters they contain',
  '''Any value of a global variable, tag, slug, path or setting in a blogcfile - quotes, dollars, backquotes,
  backslashes, percent signs, spaces, semicolons, non-ASCII text - reaches the built page as exactly that text
  (line breaks and blanks at the ends of a path aside), and no value can make blogc-make run any other command or
  fail.''',
  ['inputs', 'configurations'], 'all strings as values of [global] variables, tags, slugs, file names, locale, date_format',
  '''Tests only use benign values; commands are built as shell text, so one unquoted place is an injection that shows
  only with particular characters in a particular setting.''',
  [M + 'exec.c', C + 'utils.c', M + 'atom.c'],
  [('quoting', 'bc_shell_quote'), ('command line', 'bm_exec_build_blogc_cmd'), ('argument passing', 'bm_exec_command')],
  ['argv and file list received by a recording stand-in for blogc', 'built pages'])

p('C17', 'An incremental build equals a clean build and rebuilds nothing needlessly',
  '''After any sequence of edits, additions and removals of posts, pages, templates, copied files and settings that
  give each changed file a newer modification time, running blogc-make again makes every file that a clean build
  would produce identical to the one of a clean build, and running it once more without changes rebuilds nothing.''',
  ['histories'], 'all sequences of edits, touches, additions, deletions and builds',
  '''Tests build once or twice; staleness appears only for a particular history, such as editing a file that only one
  rule depends on or changing settings between builds.''',
  [M + 'rules.c', M + 'ctx.c'],
  [('rebuild decision', 'bm_rule_need_rebuild'), ('file stamps', 'bm_filectx_changed')],
  ['output files against a clean build', 'commands printed on the second run'])

p('C18', 'clean removes exactly what was built',
  '''After blogc-make clean, every file that a build with the same blogcfile would create is gone together with the
  directories of the output tree that became empty, while every other file - in the output directory, in
  directories around it, and among the sources - is untouched, for every spelling of the output directory.''',
  ['configurations', 'histories'], 'all sites, foreign files placed anywhere in the output tree, spellings of the output directory, partial builds',
  '''Tests clean one tree; deleting too much or too little depends on foreign files, the spelling of the output
  directory and on shared prefixes between rules.''',
  [M + 'rules.c', M + 'exec-native.c'],
  [('removal', 'bm_exec_native_rm'), ('empty directory test', 'bm_exec_native_is_empty_dir')],
  ['file tree before and after'])

p('C19', 'Copied files are byte-identical, and copy failures are reported',
  '''Every file named in the copy section, and every file below a directory named there (dangling links aside),
  appears in the output directory under the same relative path with the same bytes, for any content and size; when
  a file cannot be read or fully written, blogc-make exits non-zero and leaves no partial copy that a later build
  would take for good.''',
  ['inputs', 'fault_sequences'], 'all file contents, sizes, directory trees and names; every failing or short read and write',
  '''Tests copy two small text files; chunking, short writes, errors half way and deep trees are never exercised.''',
  [M + 'exec-native.c', M + 'ctx.c', M + 'rules.c'],
  [('copy loop', 'bm_exec_native_cp'), ('directory walk', 'bm_filectx_new_r')],
  ['output files', 'exit status'])

p('C20', 'blogc-make reports every failed step in its exit status',
  '''If any file of a build cannot be produced - blogc fails or dies from a signal, a source or template is missing or
  invalid, a rule name is unknown, an output cannot be created - blogc-make exits non-zero, and it exits 0 only if
  every requested rule succeeded.''',
  ['fault_sequences', 'configurations'], 'every blogc invocation of a build failing, in every rule and order of rules',
  '''Tests build successfully; a swallowed failure needs a failing command in a particular rule, position or order of
  rules.''',
  [M + 'rules.c', M + 'exec.c', M + 'main.c'],
  [('rule execution', 'bm_rule_executor'), ('child status', 'bm_exec_command/bm_exec_blogc')],
  ['exit status with a failing stand-in for blogc'])

p('C21', 'Atom feeds are well-formed and carry the right entries and addresses',
  '''For every configuration whose texts are themselves well-formed markup, each generated feed is well-formed XML
  with one entry per selected post in feed order and no others, and its ids and links are the addresses at which
  the build really places the feed, the site and each post; atom_dump prints the template those feeds are built
  from.''',
  ['configurations'], 'all prefixes, extensions, page sizes, orders and titles',
  '''Tests compare four fixed templates; addresses combine six settings, and the template is generated by string
  formatting from values the user controls.''',
  [M + 'atom.c', M + 'rules.c'],
  [('template generation', 'bm_atom_generate')],
  ['parsed feeds against the built site'])

p('C22', 'The watcher rebuilds after every change and survives mistakes',
  '''While blogc-make watch or runserver is active, after any change to sources, templates, copied files or blogcfile
  that gives the changed file a newer modification time, the output becomes what a clean build would give within a
  bounded number of polls; an invalid intermediate state is reported and does not stop the watcher, which recovers
  once the mistake is fixed, and no interleaving of change, rebuild and shutdown is a data race.''',
  ['histories', 'schedules'], 'all sequences of valid and invalid edits during watching, all interleavings of the watcher and server threads',
  '''No test runs the watcher at all.''',
  [M + 'reloader.c', M + 'ctx.c', M + 'httpd.c', M + 'rules.c'],
  [('poll loop', 'bm_reloader_run'), ('reload', 'bm_ctx_reload'), ('server thread', 'bm_httpd_run')],
  ['output directory after each change', 'process liveness', 'ThreadSanitizer reports'])

p('C23', 'The web server returns exactly the requested file',
  '''For every request path that names a file under the document root (percent-encoded or not, with a query, through a
  directory with an index), blogc-runserver answers 200 with the exact bytes, their length and the content type of
  the extension; a directory without final slash redirects to itself with one; missing files give 404, directories
  without index 403, other methods 405 and malformed requests 400.''',
  ['inputs'], 'all file names, contents, sizes, encodings of paths and request lines, however they are split over packets',
  '''The server loop is not tested at all, only four helpers; decoding, lengths, index choice and types are claims over
  all names, and request lines arrive in arbitrary pieces.''',
  [R + 'httpd.c', R + 'httpd-utils.c', R + 'mime.c'],
  [('request handling', 'handle_request'), ('decoding', 'br_urldecode'), ('types and index', 'mime.c')],
  ['HTTP responses on a socket'])

p('C24', 'The web server never serves anything outside its document root',
  '''No request - however encoded, with dot segments, repeated slashes, absolute paths, symbolic links or sibling
  directories whose name starts like the root's - obtains a byte, a listing or a redirect for anything that is not
  inside the document root.''',
  ['inputs', 'configurations'], 'all request paths, all layouts of files and links around the document root',
  '''Containment is untested, and it is a claim about every path and every layout, including names that share a prefix
  with the root.''',
  [R + 'httpd.c'],
  [('containment', 'handle_request: realpath comparison')],
  ['response bodies, which carry a marker unique to each file'])

p('C25', 'The web server survives any client and any concurrency',
  '''Whatever clients send or do - garbage, oversized or partial requests, early disconnects, many at once - the server
  keeps running and answers later well-formed requests correctly, each response going to its own client, with no
  memory error or data race and without memory or descriptors growing with the number of requests served.''',
  ['schedules', 'inputs', 'histories'], 'all request streams and interleavings of connections, disconnects and threads',
  '''No test starts the server.''',
  [R + 'httpd.c', R + 'httpd-utils.c'],
  [('accept loop and thread slots', 'br_httpd_run'), ('request reading', 'br_readline')],
  ['responses', 'liveness', '/proc/PID: descriptors, memory', 'AddressSanitizer and ThreadSanitizer reports'])

p('C26', 'The git shell runs only the three git commands, only below repos',
  '''For every command string, blogc-git-receiver as login shell either refuses it with a non-zero status or runs
  git-shell for exactly one of git-receive-pack, git-upload-pack and git-upload-archive on one repository inside the
  repos directory, with the repository name passed as a single literal argument; nothing else is ever executed,
  created or touched.''',
  ['inputs'], 'all command strings: quotes, escapes, separators, dot segments, absolute paths',
  '''Tests run four commands; this is the security boundary for anyone holding a key, so it is a claim about every
  string.''',
  [G + 'shell.c', G + 'shell-command-parser.c', C + 'utils.c'],
  [('command parser', 'bgr_shell_command_parse'), ('dispatch', 'bgr_shell'), ('quoting', 'bc_shell_quote')],
  ['commands received by recording stand-ins for git and git-shell', 'file tree'])

p('C27', 'A push deploys exactly the pushed master, or leaves the site as it was',
  '''When master (or main) is pushed and builds, the htdocs link (or the configured symlink) ends up pointing at a
  new directory holding exactly the output of that build, and the previous build is gone; when anything fails -
  extraction, the build, a missing target - the push is refused and the link still points to the complete previous
  site, as it also does after a push that has nothing to build or does not touch master.''',
  ['histories', 'fault_sequences'], 'all sequences of good and bad pushes, deletions and other branches; each step failing',
  '''The test script performs a few pushes; which site is live after a failure at a given step is a claim about
  histories and faults.''',
  [G + 'pre-receive.c', G + 'pre-receive-parser.c', G + 'settings.c'],
  [('deployment', 'bgr_pre_receive_hook'), ('ref parsing', 'bgr_pre_receive_parse')],
  ['link target and its tree after each push', 'exit status of the hook'])

p('C28', 'The deploy hook deletes nothing but its own builds and temporary files',
  '''Whatever a pushed repository contains - symbolic links to files or directories anywhere, odd names, deep trees,
  read-only files - and however its build ends, the hook removes only its temporary checkout and the replaced build,
  leaves no temporary files behind, and touches nothing that links inside them point to.''',
  ['inputs', 'fault_sequences'], 'all repository trees and build outputs, each step failing',
  '''Tests push three plain files; deletion through a link needs a link in the pushed tree or in the old build.''',
  [G + 'pre-receive.c'],
  [('recursive removal', 'rmdir_recursive')],
  ['file trees inside and around builds, repos and TMPDIR before and after'])

p('C29', 'Mirroring pushes to the configured place and never blocks a push',
  '''After a push the repository is mirrored with one git push --mirror to exactly the address configured (the
  repository's mirror remote - its pushurl, else its url - or else the configuration file), whatever characters it
  contains; with no address, or when mirroring fails in any way, the hook prints a warning and exits 0.''',
  ['configurations', 'fault_sequences'], 'all addresses and configurations, every failure of git',
  '''Tests use five tame addresses and a git that works.''',
  [G + 'post-receive.c', G + 'settings.c'],
  [('address choice and push', 'bgr_post_receive_hook')],
  ['argv received by a recording stand-in for git', 'exit status'])

p('C30', 'Output is a function of the inputs, the same in every build variant',
  '''Running blogc or blogc-make twice on the same inputs gives identical bytes whatever the environment's locale-neutral
  variables, working directory, argument spelling (-k value or -kvalue), order of -D options for distinct keys, or use
  of -i instead of arguments; and blogc -m behaves exactly as the separate blogc-make.''',
  ['inputs', 'configurations'], 'all inputs, argument spellings and the two build variants',
  '''Tests compare one run with one expected text; equality between runs, spellings and variants is a relation no single
  expected text states.''',
  [B + 'main.c', M + 'main.c', B + 'filelist-parser.c'],
  [('argument parsing', 'main'), ('embedded mode', 'bm_main')],
  ['outputs and exit statuses of paired runs'])

p('C31', 'The containers behave as maps, lists and strings of any size and content',
  '''For every sequence of operations the shared containers agree with their abstract model: the map returns the last
  value inserted for a key and only for that key (prefixes and extensions of keys included) and visits each key once,
  lists keep their order and sorting is a stable permutation in order, splitting and joining are inverse, and strings
  hold exactly what was appended.''',
  ['histories', 'inputs'], 'all sequences of operations, all keys and strings',
  '''Tests perform fixed short sequences; every program is built on these, and errors need particular key prefixes,
  sizes at allocation boundaries, or operation orders.''',
  [C + 'utils.c', C + 'sort.c'],
  [('trie', 'bc_trie_*'), ('list', 'bc_slist_*'), ('string', 'bc_string_*, bc_str_*'), ('sort', 'bc_slist_sort')],
  ['results of API calls replayed on a model, under AddressSanitizer'])

p('C32', 'The other programs never corrupt memory, crash or hang on any input',
  '''For every blogcfile, receiver configuration, hook input, login-shell command, command line and environment,
  blogc-make, blogc-runserver (its start-up) and blogc-git-receiver run to an ordinary exit without invalid memory access or
  undefined behaviour that a sanitizer can see.''',
  ['inputs'], 'all configuration files, command strings, hook inputs, option combinations',
  '''Same reason as for blogc: hand-written parsers and manual memory management, tested on few inputs.''',
  [C + 'config-parser.c', M + 'settings.c', M + 'main.c', M + 'rules.c', R + 'main.c', G + 'shell-command-parser.c',
   G + 'pre-receive-parser.c', G + 'settings.c'],
  [('INI parser', 'bc_config_parse'), ('rule arguments', 'bm_rule_parse_args'),
   ('command parser', 'bgr_shell_command_parse'), ('ref parser', 'bgr_pre_receive_parse')],
  ['exit status and sanitizer reports'])

p('C33', 'An invalid blogcfile is refused before anything is built, run or removed',
  '''A blogcfile that lacks one of the required variables (or has it empty), has a variable whose name is not made of capital
  letters, digits and underscores, does not parse, is not UTF-8, cannot be read, or asks for what is not possible
  (atom_legacy_entry_id with the built-in template, run_from_make outside of make) makes every rule fail: blogc-make exits
  with an error that names the culprit, runs no program, and makes, changes or removes no file. Any other blogcfile is
  accepted.''',
  ['inputs', 'configurations'], 'all mistakes in all blogcfiles, all rules, over empty and over built sites',
  '''Names of variables end up in the command line of blogc without quotes, so the validation is all that keeps a blogcfile
  from running commands; tests refuse a handful of names and look only at the message of the parser function.''',
  [M + 'settings.c', M + 'ctx.c', M + 'main.c', C + 'config-parser.c'],
  [('validation', 'bm_settings_parse'), ('loading', 'bm_ctx_new'), ('order of steps', 'bm_main')],
  ['exit status and message', 'recording stand-ins for blogc and the server', 'file tree before and after'])

p('C34', 'blogc(1): a command line means what the manual says, or is refused',
  '''In every documented form, in any order of the options and with values joined to the option or following it: each -D
  defines exactly that variable (the last one wins, sources override it inside their block), -l, -e (the n-th for the n-th
  listing_entry block, skipped if empty), -i, -p, -t, -o and -d do what blogc(1) says and nothing else. A command with a
  mistake (a name that is not capital letters, digits and underscores, no "=", invalid UTF-8, an unknown option, a
  wrong number of sources, a missing file, no template) exits with an error and a message, prints nothing but the usage on
  standard output and leaves the output file as it was.''',
  ['inputs', 'configurations'], 'all combinations, orders and spellings of options and values, and mistakes in them',
  '''blogc is made to be called from makefiles, with options assembled by other programs; tests use a few fixed command
  lines.''',
  [B + 'main.c', B + 'filelist-parser.c', B + 'loader.c'],
  [('option parsing and order of steps', 'main'), ('list of files', 'blogc_filelist_parse')],
  ['exit status, standard output, message and file tree of every run'])

p('C35', 'The web server listens exactly where it was told, says so, or fails',
  '''blogc-runserver opens one listening socket, on the address and port given by -t and -p, else by
  BLOGC_RUNSERVER_DEFAULT_HOST and BLOGC_RUNSERVER_DEFAULT_PORT, else on 127.0.0.1 port 8080 - never anywhere else -, names
  that address in its banner, answers there, and can be started again at once after it was stopped. With an impossible or
  used address, a port that is no port, an unacceptable number of threads, an unknown option, or not exactly one directory it
  exits with an error and a message.''',
  ['configurations'], 'all combinations and spellings of options and environment, IPv4, IPv6 and names, free and used ports',
  '''A development server that listens on another address than asked for exposes files to the network; no test starts the
  program.''',
  [R + 'main.c', R + 'httpd.c', R + 'httpd-utils.c'],
  [('options and defaults', 'main'), ('socket and banner', 'br_httpd_run'), ('address text', 'br_httpd_get_ip')],
  ['listening sockets of the process, from /proc', 'banner', 'exit status and message', 'answer to a request'])

p('C36', 'The variables blogc computes itself tell the truth about the build',
  '''BLOGC_RUSAGE_CPU_TIME and BLOGC_RUSAGE_MEMORY show the CPU time (user and system) and memory of this run in the documented
  units and keep their value for the whole run, BLOGC_SYSINFO_HOSTNAME, USERNAME and DATETIME show the machine, the user and the GMT
  time of the build, BLOGC_SYSINFO_INSIDE_DOCKER is defined as 1 exactly inside docker, and BLOGC_VERSION is the version - in templates
  plain, truncated or in conditionals, in any block, and with -p; what the system does not tell is undefined, and a value set with -D
  or in a source wins.''',
  ['inputs', 'fault_sequences'], 'all facts of the system, refused questions, orders of use, and values set by the user',
  '''They end up in published footers; tests call the functions one by one with one made-up fact, never through a template.''',
  [B + 'rusage.c', B + 'sysinfo.c', B + 'funcvars.c', B + 'renderer.c'],
  [('format of usage', 'blogc_rusage_inject'), ('facts', 'blogc_sysinfo_get_hostname'), ('evaluation', 'blogc_funcvars_eval')],
  ['questions to the system, answered by a stand-in', 'output of templates and of -p'])

p('C37', 'blogc-make runs exactly the rules it is told to, and says what it does',
  '''For every command line, blogc-make runs the named rules (all by default) in their order, calls blogc once for each file that is
  missing and for nothing else, with the globals, the helper variables, the development variables exactly under -D, the
  configured locale, the inherited environment, and the documented sources, listing entry and template; it uses the blogc and
  blogc-runserver of BLOGC and BLOGC_RUNSERVER, next to it, or of PATH, in this order; -V shows the commands it runs and otherwise
  each built file is named once; runserver hands its arguments and the output directory to the web server; atom_dump prints the
  template the feeds are made from; and an unknown rule or option, a missing blogcfile or run_from_make outside make is an error.''',
  ['configurations', 'inputs'], 'all command lines of blogc-make, sites, states of the output directory and places of the programs',
  '''The unit tests look at the text of single commands; which commands are run, with which values, for which rule sequence and
  site is only seen when the programs that are called report it.''',
  [M + 'main.c', M + 'rules.c', M + 'exec.c', M + 'httpd.c', M + 'atom.c'],
  [('rule sequence', 'bm_rule_executor'), ('command of blogc', 'bm_exec_build_blogc_cmd'), ('lookup of programs', 'bm_exec_find_binary'),
   ('web server', 'bm_httpd_run')],
  ['calls recorded by a stand-in for blogc and blogc-runserver: program, arguments, input, environment, working directory',
   'messages, exit status and output directory'])

p('C38', 'Content is read block by block: what surrounds a block does not change it',
  '''Whatever the text, with correct, broken or half finished markup, its HTML depends on the text alone: with another line ending
  it is the same but for the line endings; blank lines before and after it and a missing last line ending change nothing; two texts
  with a blank line between them render to one after the other, with or without an excerpt separator, and the excerpt, first header
  and description are those of the right part; in a block quote it renders as outside of it; inline text renders equally as paragraph,
  list item, header and quote, and as code exactly as it is.''',
  ['inputs'], 'all texts, all surroundings',
  '''The parser is a state machine with some twenty variables that are carried from line to line; the tests try each element in one
  surrounding, mostly alone.''',
  [B + 'content-parser.c', B + 'source-parser.c'],
  [('content state machine', 'blogc_content_parse'), ('inline state machine', 'blogc_content_parse_inline')],
  ['{{ CONTENT }}, {{ EXCERPT }}, {{ FIRST_HEADER }}, {{ DESCRIPTION }} of each text in each surrounding'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fp:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        fp.write(json.dumps(x, ensure_ascii=False) + '\n')
