#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (authoring aid; no check reads this)."""
import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
C='crates/jarl-core/src/'; L='crates/jarl-lsp/src/'; J='crates/jarl/src/'

p('C01','The rule registry is coherent and matches the published rule table',
 "Rule names are unique, every name maps back to exactly the rule that carries it, and each rule's reported categories, default status, fix status and minimum R version are the ones declared for it. The set of rules, their groups, fix safety, default status and minimum R version agree with the published rule table, and selecting a group selects exactly the rules of that group.",
 ['configurations'],'every rule of the registry and every rule or group name a user can write',
 'Integration snapshots name a handful of rules; nothing compares all rules with the documentation or with each other.',
 [C+'rule_set.rs','docs/rules.qmd'],[('rule table and generated accessors',C+'rule_set.rs'),('published table','docs/rules.qmd')],obs=['Rule::from_name','Rule accessors','RuleSet queries'])
p('C02','A rule runs exactly when it is enabled and reports under its own name',
 "Every rule of the registry is dispatched somewhere during analysis, a rule's analysis runs only when that rule is enabled, and every diagnostic it produces carries that rule's name.",
 ['inputs','configurations'],'every rule and every selection of rules, on every R source',
 'Each rule has snapshot tests with that rule alone selected; no test checks that another rule stays silent or that the guard names the same rule as the call.',
 [C+'analyze/',C+'lints/',C+'checker.rs'],[('enabled-rule guards around lint calls',C+'analyze/*.rs'),('diagnostic names',C+'lints/**')])
p('C03','Automatic fixes never delete comments, and only fixable rules carry fixes',
 "A diagnostic's automatic fix is withheld whenever the source range it replaces contains a comment, and the whole replaced range is the one inspected for comments. Rules published as having no fix never attach one and rules published as fixable do.",
 ['inputs'],'every rule with a fix, on every R source with comments anywhere',
 'Snapshot tests place a comment in one or two positions per rule.',
 [C+'lints/',C+'utils.rs',C+'fix.rs'],[('skip flag computed from the replaced node',C+'lints/**'),('comment detection',C+'utils.rs')])
p('C04','Suppression comments are parsed by exactly the documented grammar',
 "A comment suppresses only if it is written as documented: `# jarl-ignore[-file|-start|-chunk] <rule>: <reason>` (the space after `#` optional, leading blanks allowed) or `# jarl-ignore-end <rule>`, and the `#|` prefix is accepted only for chunk suppressions. A directive with no rule is reported as blanket, with an unknown rule as misnamed, with no non-blank reason as unexplained (an end directive needs none), and any other comment is ignored; items of a Quarto chunk list follow `#| - <rule>: <reason>` with the same outcomes.",
 ['inputs'],'every comment text',
 'There are no unit tests of the directive grammar in the reliably runnable set; snapshots cover a few spellings.',
 [C+'directive.rs'],[('directive parsers',C+'directive.rs')],obs=['parse_comment_directive','parse_quarto_chunk_array_item','is_quarto_chunk_array_header'])
p('C05','Suppressions hide exactly what they name, and unused or broken ones are reported',
 "A suppression hides only diagnostics of the rule it names that lie in its scope (next expression, start/end region, chunk or file), and hides all of those. Every suppression that hid nothing is reported as outdated, and every malformed, misplaced, unmatched, blanket, misnamed or unexplained suppression comment reaches its dedicated rule when that rule is enabled.",
 ['inputs','configurations'],'every source text with any number of suppression comments, every rule selection',
 'Snapshots cover one comment at a time; interactions between scopes and rules are not enumerated.',
 [C+'suppression.rs',C+'check.rs',C+'analyze/document.rs',C+'lints/comments/'],[('suppression collection and matching',C+'suppression.rs'),('reporting of malformed comments',C+'analyze/document.rs')])
p('C06','Rule selection honours its documented precedence',
 "The command line's select and extend-select override the same settings of the configuration file, the ignore lists of both are combined, and an ignored rule never runs whatever selected it. Without an explicit selection exactly the default rules (plus the extended ones) run, a group name stands for all its rules, and `ALL` for every rule.",
 ['configurations'],'every combination of command-line and file selections',
 'The selection space is a product of six lists over 60+ rules; tests sample a few.',
 [C+'config.rs',C+'rule_set.rs'],[('selection resolution',C+'config.rs')],obs=['build_config'])
p('C07','Unknown rule names and unknown configuration fields are rejected',
 "Every rule name given on the command line or in a configuration file (selected, extended, ignored, fixable or unfixable) is validated, an unknown one is an error naming it rather than being silently dropped, and a configuration file with an unknown field at any level is an error. The names accepted in configuration are exactly the registered rules, the group names and `ALL`.",
 ['configurations'],'every configuration file and argument list',
 'Tests misspell one rule in one option.',
 [C+'config.rs',C+'toml.rs',C+'rule_options/'],[('invalid name collection',C+'config.rs'),('deny_unknown_fields',C+'toml.rs')])
p('C08','Rules that need a newer R never run below the required R version',
 "The minimum R version is read from the `R (>= x)` entry of the DESCRIPTION Depends field, whatever its position, spacing or line wrapping, and a DESCRIPTION without such an entry imposes none. A rule that needs a given R version runs only when the known project or command-line version is at least that version, and a malformed version or DESCRIPTION entry never aborts the run with a crash.",
 ['inputs','configurations'],'every DESCRIPTION text and --min-r-version value',
 'Six unit tests exercise well-formed DESCRIPTION files only.',
 [C+'description.rs',C+'config.rs',C+'check.rs'],[('DCF and Depends parsing',C+'description.rs'),('version filter',C+'config.rs')],obs=['Description::get_depend_r_version'])
p('C09','Fixes are applied only with the consent the options express',
 "No fix is applied unless fixing was requested; fixes marked unsafe are applied only when unsafe fixes were requested, and a rule that is excluded by the unfixable list (or absent from a given fixable list) is never fixed, the unfixable list winning. Before fixing rewrites any file the version-control check has passed or was explicitly waived: it refuses outside a repository and when there are uncommitted changes that were not allowed.",
 ['configurations','histories'],'every combination of fix options, rule lists and repository states',
 'Tests sample a few option combinations; the VCS guard is exercised on one clean and one dirty tree.',
 [C+'config.rs',J+'commands/check.rs',C+'vcs.rs'],[('fix gates',C+'config.rs'),('VCS guard',C+'vcs.rs')])
p('C10','Only requested fixing of R files ever writes to the user\'s files',
 "Linting without a fix or suppression-insertion request writes no user file, and R Markdown/Quarto documents are never rewritten by fixing. A rewritten R file receives exactly its own content with its own fixes applied, and only content that was read from the same path; no other part of the program writes, renames or deletes user files.",
 ['inputs','configurations','fault_sequences'],'every run of the linter, formatter options and document kind',
 'Tests check individual outputs, not the absence of writes on every path.',
 [C+'check.rs',J+'commands/check.rs',C+'suppression_edit.rs'],[('the single fix writer',C+'check.rs')])
p('C11','Applying fixes replaces exactly the fixed ranges and nothing else',
 "Applying a batch of fixes changes only the byte ranges named by the applied fixes, each replaced by its own text, and leaves every other byte, including multi-byte characters, in place. Two overlapping fixes are never both applied in one pass, whatever their number, length or order.",
 ['inputs'],'every source text, with any characters, and every set of fixes',
 'Fix snapshots use short ASCII sources with one or two fixes.',
 [C+'fix.rs'],[('splice loop',C+'fix.rs')],obs=['apply_fixes'])
p('C12','Diagnostic locations are correct line and column positions',
 "The reported line is one plus the number of line breaks before the diagnostic's start and the column is the distance from the start of that line, for every offset including the first line, a leading blank line and the last line without a newline. The location attached to a diagnostic is the location of that diagnostic's own range, and a location's row and column are reported unswapped.",
 ['inputs'],'every source text and every diagnostic offset',
 'Snapshots contain a few positions, mostly in line 1.',
 [C+'utils.rs',C+'location.rs',C+'diagnostic.rs'],[('offset to row/column',C+'utils.rs'),('location type',C+'location.rs')])
p('C13','The language server\'s copy of a document tracks the editor\'s exactly',
 "After each accepted change notification the server's copy equals the previous copy with each edit's range replaced by its text, carries the notified version, and its line index matches the new text; a change that is out of bounds, inverted or splits a character is rejected without corrupting the copy. Converting a position to an offset and back counts in the negotiated unit (UTF-8 bytes, UTF-16 units, or characters), never reaches into the next line, and yields only character boundaries.",
 ['inputs','histories'],'every document text, every sequence of edits and every position encoding',
 'Six unit tests cover single edits on ASCII or a single emoji.',
 [L+'document.rs',L+'session.rs'],[('incremental edits and line index',L+'document.rs'),('document map',L+'session.rs')],state=[('line_starts','offset of each line start','crates/jarl-lsp/src/document.rs')],obs=['TextDocument'])
p('C14','One position encoding is negotiated and used for every position exchanged',
 "The server picks UTF-8 if the client offers it, else UTF-16 if offered, else UTF-16 by default, announces the encoding it picked, and uses that encoding for every position it receives or sends. Diagnostics, quick-fix edits and suppression edits all address the text they are about under that encoding.",
 ['inputs','configurations'],'every client capability set and every document with non-ASCII text',
 'Tests use ASCII text, for which all encodings coincide.',
 [L+'session.rs',L+'lint.rs',L+'server.rs',L+'document.rs'],[('negotiation',L+'session.rs'),('conversion',L+'lint.rs')])
p('C15','Every editor request gets exactly one response carrying its id',
 "Every request received, up to and including the shutdown request, is answered exactly once with the id it came with: supported requests with a result or an error, shutdown with a null result, and any other method with a method-not-found error. Messages the server itself originates carry fresh ids, a response to the server removes exactly the pending request with that id, and closing a document clears its diagnostics.",
 ['histories','inputs'],'every sequence of client messages',
 'Two unit tests check that a client object can be created and send one notification.',
 [L+'server.rs',L+'client.rs',L+'session.rs'],[('request dispatch',L+'server.rs'),('response construction',L+'client.rs')],state=[('pending_requests','requests awaiting a client response','crates/jarl-lsp/src/client.rs')])
p('C16','Quick fixes offered by the editor touch only what their diagnostic is about',
 "A code action is offered only for diagnostics that overlap the requested range; its edit targets the requested document and replaces exactly the range recorded with the diagnostic's fix by the recorded text. Suppression actions insert only a suppression comment naming the diagnostic's rule.",
 ['inputs','histories'],'every document, diagnostic and requested range',
 'LSP integration tests request actions at one or two cursor positions.',
 [L+'server.rs',L+'lint.rs',C+'suppression_edit.rs'],[('code action construction',L+'server.rs')])
p('C17','The editor shows the same diagnostics the command line would report',
 "For a given document and configuration the language server runs the same rules with the same configuration discovery, honours the same include/exclude patterns and R Markdown handling, and the reported name, message and range are the ones the linter computed. Diagnostics it hides are only those above the unused-function threshold when that rule was not explicitly selected.",
 ['inputs','configurations'],'every document and configuration',
 'No test compares the two front ends.',
 [L+'lint.rs',L+'utils.rs',L+'session.rs'],[('lint pipeline of the server',L+'lint.rs')])
p('C18','Exactly the executable R chunks of a document are extracted, byte for byte',
 "A chunk opens at a line that, after blanks, has three or more backticks followed directly by a brace-enclosed header starting with r or R, and closes at the first later line that consists of the same number of backticks apart from surrounding white space; the text in between is extracted unchanged, with the byte offset at which it starts in the document. Unterminated chunks and everything outside chunks are never linted as R code.",
 ['inputs'],'every R Markdown or Quarto text, any line ending, indentation or nesting',
 'Fifteen unit tests use small ASCII documents.',
 [C+'rmd/extraction.rs'],[('fence scanner',C+'rmd/extraction.rs')],obs=['extract_r_chunks'])
p('C19','Diagnostics in R Markdown point at the document, with chunk-aware suppression',
 "Every diagnostic found in a chunk is shifted by exactly that chunk's start offset and located in the whole document's lines. Fixes are never attached to R Markdown diagnostics, a file-level suppression in the first chunk covers all chunks (in a later chunk it is misplaced and covers none), a chunk-level one only its own chunk, and a chunk that does not parse does not prevent the other chunks from being linted.",
 ['inputs'],'every document with any number of chunks',
 'Snapshots cover documents with one to three chunks.',
 [C+'check.rs',C+'rmd/mod.rs'],[('chunk linting and remapping (get_checks_rmd)',C+'check.rs')])
p('C20','The exit status and output streams tell the truth',
 "The program exits 0 only when no violation was found in any file and every file could be analysed, 1 when there are violations and every file could be analysed, and 255 when a file could not be read or parsed or on an internal or usage error. Machine-readable output formats print nothing but their format to standard output and contain every diagnostic; parse failures are reported, and log output goes to standard error at the requested level.",
 ['inputs','configurations','fault_sequences'],'every run, output format and combination of results and failures',
 'CLI snapshots check a handful of runs.',
 [J+'status.rs',J+'main.rs',J+'lib.rs',J+'commands/check.rs',J+'output_format.rs',J+'logging.rs'],[('exit status mapping',J+'status.rs'),('emitters',J+'output_format.rs'),('log levels',J+'logging.rs')],obs=['process exit code','stdout','stderr'])
p('C21','Every documented configuration option exists, is validated and takes effect',
 "The options accepted in the configuration file are exactly those of the published schema and documentation, with the same kinds and defaults, and each one reaches the rule or stage it configures. For list options, giving both the replacing and the extending form is an error, the replacing form replaces the built-in list and the extending form adds to it.",
 ['configurations'],'every configuration file',
 'Tests set options one at a time and never compare code, schema and documentation.',
 [C+'toml.rs',C+'rule_options/',C+'settings.rs','artifacts/jarl.schema.json','docs/config.md'],[('option structs and resolution',C+'rule_options/mod.rs'),('schema','artifacts/jarl.schema.json')])
p('C22','Exactly the intended files are discovered and governed by the nearest config',
 "Only files with an R or R Markdown/Quarto extension are linted, each of them once, explicit excludes and the documented default excludes are honoured for discovered and for directly named files as configured, and each file is governed by the configuration of its closest ancestor directory that has one, else by the user-level or default configuration. A path that cannot be read or parsed as configuration is an error, not silently skipped.",
 ['configurations','inputs'],'every directory tree, ignore list and argument list',
 'Tests build two or three small trees.',
 [C+'discovery.rs',C+'fs.rs',C+'toml.rs',C+'settings.rs',C+'config.rs'],[('walk and settings resolution',C+'discovery.rs'),('extension predicates',C+'fs.rs')])
p('C23','No input text, configuration or client message crashes the program',
 "Reading, decoding or parsing anything that comes from outside (source files, chunks, DESCRIPTION and configuration files, command-line values, client messages) never panics: a bad value leads to an error result, a diagnostic or a skipped item.",
 ['inputs','configurations','fault_sequences'],'every external input',
 'Tests feed well-formed inputs; panicking paths need malformed ones.',
 [C+'description.rs',C+'toml.rs',C+'config.rs',C+'directive.rs',C+'rmd/extraction.rs',L+'document.rs',L+'server.rs',L+'session.rs'],[('error returns in place of unwrap/expect/unreachable/indexing','throughout')])
p('C24','The analysis visits every part of an R program',
 "Every expression nested anywhere in an R source (arguments, bodies, conditions, indices, operands, parentheses, pipelines, function defaults) is visited and offered to the rules that concern its kind, exactly once.",
 ['programs'],'every R program',
 'Rule tests use shallow programs; nesting combinations are unbounded.',
 [C+'check.rs',C+'analyze/'],[('recursive traversal',C+'check.rs'),('per-kind dispatch',C+'analyze/mod.rs')])
p('C25','An inserted suppression comment is valid and changes nothing but comments',
 "A suppression comment inserted by the editor or by the command line is one that the suppression grammar accepts for the rule it is inserted for, is placed on its own line directly before the construct it suppresses with that line's indentation, and inserting it alters no other character of the file.",
 ['inputs'],'every source text and diagnostic',
 'Snapshots cover a few placements.',
 [C+'suppression_edit.rs',J+'commands/check.rs',L+'server.rs'],[('insertion point and text',C+'suppression_edit.rs')])
p('C26','The Zed extension starts the right binary with the right arguments',
 "The extension uses, in this order, the path the user configured, the binary on the PATH, the previously downloaded binary if it still exists, and otherwise the release asset named for the current architecture and operating system (with its archive kind and inner path), and deletes nothing but other entries of its own directory after a download. User-supplied arguments are passed whatever way the binary was found, and without them the only argument is `server`.",
 ['configurations','histories'],'every platform, architecture, version and user setting',
 'One unit test covers three of nine platform combinations and none of the resolution order.',
 ['editors/zed/src/lib.rs'],[('binary resolution','editors/zed/src/lib.rs'),('asset naming','editors/zed/src/lib.rs')])
p('C27','The project-wide function analysis covers exactly the package\'s own R files',
 "Cross-file checks for unused and duplicated functions relate only files of the same package: definitions are compared within its R directory (and within each of its test and inst scopes), and exported, registered or otherwise used names count as used wherever in the package the use occurs (R, tests, inst or src). A function is reported only in the file that defines it, at its definition.",
 ['inputs','programs'],'every package layout and every set of definitions and uses',
 'Tests build one or two tiny packages.',
 [C+'package.rs',C+'lints/base/unused_function/'],[('package discovery and symbol analysis',C+'package.rs')])
p('C28','The VS Code extension starts only the executable its trust and strategy allow',
 "In an untrusted workspace the VS Code extension only ever starts the bundled executable, whatever the settings say. In a trusted one the strategy `bundled` (the default) means the bundled executable and then the one on the PATH, `environment` the one on the PATH and then the bundled one, and `path` exactly the configured file if it exists; when none of them is found nothing is started and an error is raised. The server is started as that executable with the argument `server`, for R, R Markdown and Quarto documents. Start, stop and restart requests never run concurrently: starting when started and stopping when stopped do nothing, a start that fails leaves the session stopped, a stop always leaves it stopped even if the server fails to shut down, and a restart picks the executable and settings anew. The settings are those of the workspace folder with the shortest existing path, and the log settings are read from the user level only.",
 ['configurations','histories'],'every configuration, trust state, set of workspace folders and sequence of start, stop and restart requests with every failure',
 'The extension has no tests of any of this.',
 ['editors/code/src/'],[('executable','editors/code/src/binary.ts'),('session','editors/code/src/lsp.ts'),('settings','editors/code/src/settings.ts'),('workspace folder','editors/code/src/workspace.ts')])

p('C29','Output does not depend on hash order, thread timing or directory order',
 "The same command on the same files prints the same bytes, in the same order, whatever the order in which hash tables iterate, worker threads finish or the operating system lists a directory: findings, errors, statistics, listed files, messages and the choice between alternatives are put in a determined order, or are insensitive to it, before they are printed, written, or decide anything. The same holds for what the language server sends.",
 ['schedules','inputs'],'every seed of every hash table, every schedule of the worker threads and every order of directory entries',
 'A test observes one schedule and one hash seed per run, and snapshot tests sort or have a single file.',
 [C+'check.rs',C+'discovery.rs',C+'package.rs',J+'commands/check.rs',J+'statistics.rs',J+'output_format.rs',L],[('parallel check and collection',C+'check.rs'),('discovery by worker threads',C+'discovery.rs'),('statistics',J+'statistics.rs'),('package symbol tables',C+'package.rs')])
p('C30','No rule makes the analysis of a valid file fail',
 "A rule that cannot interpret an expression of a valid file reports nothing for it: the analysis never ends in an error because of the values, literals, argument shapes or kinds of expression that the file contains, since such an error would lose all findings of all rules for the file. Only a file that does not parse, or that cannot be read or written, is an error.",
 ['inputs','programs'],'every R program the parser accepts and every rule',
 'Snapshots feed each rule the expressions its author thought of; the failures come from expressions that have nothing to do with the rule.',
 [C+'analyze/',C+'lints/',C+'check.rs'],[('rule functions returning a Result',C+'lints/**'),('errors propagated by the dispatch',C+'analyze/*.rs'),('per-file result',C+'check.rs')])

p('C31','Calls are matched by function name and arguments the way R matches them',
 "A rule finds a function whether it is called by its plain name or through a namespace (`pkg::fun`), and does not confuse it with the function of an object (`obj$fun`). An argument is found by its name wherever it is placed and however its name is laid out or quoted, and otherwise by its position among the unnamed arguments; the argument that a rewrite drops is exactly the one that was found. The pattern of two nested calls is recognised in its nested and piped forms only when no other unnamed argument would be lost, and the condition and body of if, while, for and else are told apart by their exact place.",
 ['inputs','programs'],'every call, argument list and surrounding construct of every R program',
 'Snapshots use the plain spelling of each call; the look-up helpers have no tests of their own.',
 [C+'utils.rs',C+'utils_ast.rs'],[('function and argument look-up',C+'utils.rs'),('places of conditions and bodies',C+'utils_ast.rs')],obs=['get_function_name','get_arg_by_name_then_position','drop_arg_by_name_or_position','get_nested_functions_content'])

p('C32','Each rule reports exactly the documented code, with the documented replacement',
 "On R code without syntax errors a rule reports a piece of code exactly when it has the form its page documents: the operators, function names, numbers and names of arguments, literals and surrounding construct that the page and its exceptions name, and nothing that differs in one of them. The reported range is the one the rule documents; the replacement is the documented form built from the original operands in their right places, it covers exactly the construct it replaces, and it is withheld when comments or other arguments would be lost, in which case the report is kept.",
 ['inputs','programs'],'every R program, and every rule that inspects one construct at a time (55 rule functions and their helpers; unreachable_code, unused_function, duplicated_function_definition and the suppression comments have properties of their own)',
 'Each rule is tested on some twenty snippets in snapshot tests that need the whole program; the combinations of operator, operand kind, argument layout and context are not enumerable.',
 [C+'lints/base/',C+'lints/testthat/',C+'lints/comments/'],[('rule functions',C+'lints/**'),('fix construction',C+'diagnostic.rs')],obs=['any_is_na','class_equals','comparison_negation','sort','expect_match','implicit_assignment'])

p('C33','A fix keeps the grouping of the code it copies and of the code around it',
 "Whatever the operands of the replaced construct are and whatever expression surrounds it, R groups the result of a fix as intended: a piece of code copied next to an operator of the replacement remains one operand of it, and the replacement as a whole remains one operand of the operator, call or accessor around it. Parentheses are added, or the fix is withheld, where R's precedence and associativity would otherwise split either of them; an assignment is not rewritten to `=` where `=` would name an argument or parameter or is not accepted.",
 ['inputs','programs'],'every operand and surrounding expression of every construct that an automatic fix rewrites (all fixes that are not empty), except next to the help operator `?`',
 'Snapshots show a fix on a few operands and hardly ever inside another operator; a wrong grouping only shows when both have the right precedence.',
 [C+'lints/base/',C+'lints/testthat/',C+'utils_ast.rs'],[('fix texts of the rules',C+'lints/**'),('binding strengths and parentheses',C+'utils_ast.rs')],obs=['binding_strength','expression_strength','parenthesize_in_place_of','comparison_negation','assignment','coalesce'])

p('C34','Findings are listed in file and document order and summed up truthfully',
 "The human-readable output lists the findings file by file and, within a file, from the first position to the last . A finding is shown with the title of its rule, its message as the label of exactly the range it was reported for, and its suggestion when the rule gives one; the rule's name links to the page of that rule. After the list, and only in human-readable formats, a summary gives the number of findings, how many have a safe fix and how many have a fix that needs --unsafe-fixes, and points to --statistics only above the configured number of findings; `All checks passed!` appears only when there is neither a finding nor an error.",
 ['inputs','histories'],'every set of findings, errors, output format and width of ranges',
 'Snapshots show a few findings in one or two files; ties, errors next to findings and the combinations of counts are not sampled.',
 [C+'diagnostic.rs',J+'output_format.rs',J+'commands/check.rs'],[('order and rendering of findings',C+'diagnostic.rs'),('summary',J+'output_format.rs'),('what is listed',J+'commands/check.rs')],obs=['Diagnostic::cmp','render_diagnostic','print_summary','make_hyperlink'])

# not applicable
p('N01','Automatic fixes preserve the meaning of the R program',
 'A program rewritten by safe fixes evaluates to the same results as the original.',
 ['programs'],'every R program','Snapshots show text, not evaluation results.',[C+'lints/'],[('fix text construction',C+'lints/**')])
p('N02','Repeated fixing reaches a fixed point',
 'Applying fixes repeatedly terminates and a further run changes nothing.',
 ['inputs','programs'],'every R program','Depends on the interaction of the texts produced by all fixes.',[C+'check.rs',C+'fix.rs'],[('fix loop',C+'check.rs')])
p('N04','Linting finishes in time roughly linear in the size of the sources',
 'Analysis time grows no faster than roughly linearly with source size and scales with cores.',
 ['inputs'],'every source tree','Timing is not visible to unit tests.',[C+'check.rs'],[('parallel walk',C+'check.rs')])
p('N05','Code reported as unreachable can never be executed',
 'Statements reported as unreachable are never executed by any run of the R program.',
 ['programs'],'every R program','Quantifies over executions of analysed R programs.',[C+'lints/base/unreachable_code/'],[('control-flow graph',C+'lints/base/unreachable_code/')])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
