SCHEMA_NOTES = ('All checks: property-based testing with a recorded-choice generator, integrated shrinking and explicit oracles '
                '(lib/core.py). Each run builds the program from /repo/src into a private directory under /tmp. '
                'Known findings: known_findings.jsonl. No hooks are needed in /repo; the C library system() is replaced by a '
                'recording stand-in in the builds the checks make.')
PBT = 'property-based testing: '
T0 = 'The 44 stable tests replay a few fixed databases and scripts; '
PROPS = []


def P(id, title, statement, over, q, why, files, mech, technique, note, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                      technique=PBT + technique, note=note, **k))


P('C01', 'VERIFY PROOF accepts exactly the valid proofs',
  'For every legally written database, VERIFY PROOF reports an error for a theorem if and only if the written proof is not a valid Metamath '
  'proof of that theorem (substitution, stack discipline, label visibility, $d side conditions, final result); proofs with unknown steps are '
  'listed as not proved. Verifying one theorem gives the same verdict as verifying all of them. The closing "all proofs verified" line is '
  'printed exactly when no theorem was reported wrong or unproved.',
  ['inputs'], 'every legal source file, including ones whose proofs, hypotheses or $d statements have been damaged',
  T0 + 'soundness is a statement about every proof, including damaged ones.',
  ['src/mmpars.c', 'src/mmveri.c', 'src/mmcmds.c'],
  [('proof parsing and RPN stack checks', 'src/mmpars.c parseProof, parseCompressedProof'),
   ('substitution by unification, $d checks, final comparison', 'src/mmveri.c verifyProof, assignVar'),
   ('summary', 'src/mmcmds.c verifyProofs')],
  'random databases with valid-by-construction proofs plus mutations, differential against an independent verifier',
  'Trusts the independent verifier in lib/mmref.py. Bounded database sizes (about 5-60 statements, proofs to 1500 steps).')

P('C02', 'Every proof notation denotes the same proof',
  'A proof written in the compressed notation denotes exactly the label sequence given by the published decoding (base-20/base-5 numbers over '
  'mandatory hypotheses, label list and tagged steps), whatever the numbers, label order, tagging or line breaks. The same proof written in '
  'normal, packed, explicit or compressed form is shown as the same sequence of steps.',
  ['inputs'], 'every proof tree, every legal choice of label order, tagged subproofs, numbers up to four digits and white space',
  T0 + 'they contain only short compressed proofs, mostly single-letter references.',
  ['src/mmpars.c', 'src/mmcmds.c', 'src/mmdata.c'],
  [('compressed proof decoder', 'src/mmpars.c parseCompressedProof'), ('packed/explicit parser', 'src/mmpars.c parseProof'),
   ('compressor', 'src/mmcmds.c compressProof')],
  'random proof trees encoded by an independent encoder; decoded steps compared with the intended ones',
  'Oracle: the tree the encoder started from. Label lists up to several hundred labels so that two- and three-letter numbers occur.')

P('C03', 'Distinct-variable conditions are enforced exactly',
  'A proof step is accepted only if, for each pair of variables an assertion requires to be distinct, the expressions substituted for them '
  'share no variable and every cross pair of their variables is covered by a $d statement in force for the theorem being proved. When all '
  'such pairs are covered, including by optional $d statements on variables used only in the proof, no error is reported.',
  ['inputs'], 'every set of $d statements (any grouping, nesting, order), every substitution',
  T0 + 'three fixed $d examples cannot cover combinations of nested scopes, optional variables, multi-variable $d and substitutions.',
  ['src/mmpars.c', 'src/mmveri.c'],
  [('$d collection per frame', 'src/mmpars.c parseStatements'), ('$d checks per step', 'src/mmveri.c assignVar')],
  'databases dense in $d conditions with randomly added/removed/regrouped $d, differential against an independent verifier; '
  'the reported missing pairs are compared with the oracle set',
  'Trusts lib/mmref.py.')

P('C04', 'READ accepts exactly the legal sources',
  'READ reports an error if and only if the source breaks a rule of the Metamath language: token and label syntax, unique labels, '
  'declarations before use, constants only in the outermost block, scoping of $v, $f, $e and $d, required statement parts, balanced blocks '
  'and comments. On a legal source the statement counts it prints are the true ones.',
  ['inputs'], 'every sequence of tokens, in particular single edits of legal sources',
  T0 + 'only a handful of ill-formed files are tested.',
  ['src/mmpars.c'],
  [('keyword scan', 'src/mmpars.c parseKeywords'), ('label checks', 'src/mmpars.c parseLabels'),
   ('declarations', 'src/mmpars.c parseMathDecl'), ('scoping and frames', 'src/mmpars.c parseStatements')],
  'grammar-based generation plus token-level mutation, differential against an independent parser',
  'Trusts the independent parser; deliberate leniencies of the program are excluded by generator and listed in DESIGN.md.')

P('C05', 'WRITE SOURCE reproduces the source it read',
  'After READ of a legal source file and any sequence of commands that only display or check, WRITE SOURCE without qualifiers writes a file '
  'identical to the one read, byte for byte, including all white space and comments; only carriage returns are normalised and a missing final '
  'line end is supplied. Reading and writing the written file again gives the same bytes, and the input file is never modified.',
  ['inputs', 'histories'], 'every legal source text in any layout, every sequence of read-only commands in between',
  T0 + 'only a few neatly laid out files are written back.',
  ['src/mmpars.c', 'src/mmcmds.c', 'src/metamath.c'],
  [('source partition into label/math/proof sections', 'src/mmpars.c parseKeywords'), ('output', 'src/mmcmds.c writeSource, src/mmpars.c outputStatement')],
  'random legal sources in wild layout with random read-only commands; the bytes written are compared with the bytes read',
  'Bounded source size; no includes (see the include properties).')

P('C06', 'WRITE SOURCE / FORMAT and / REWRAP change layout and nothing else',
  'Writing a legal source with / FORMAT or / REWRAP keeps every token outside comments, in order, leaves proofs untouched byte for byte, and keeps every '
  'comment in place with its words (rewrapping may only add spaces around backquotes and tildes and a missing final period; a placeholder is added to '
  'assertions that have no description). The written file reads without error and its proofs get the same verdicts, and the command can be repeated.',
  ['inputs'], 'every legal source text in any layout, with comments anywhere the language allows them, at any usual screen width',
  T0 + 'none of them reformats a source.',
  ['src/mmpars.c', 'src/mmcmds.c', 'src/mminou.c'],
  [('reformatting of label and math sections', 'src/mmpars.c outputStatement'), ('comment rewrapping', 'src/mmpars.c rewrapComment, src/mminou.c printLongLine')],
  'random sources with comments in random places; input and output compared by an independent scanner (tokens, comments, proofs), and read again',
  'Words over about 80 characters are only kept, not laid out; exact line breaks are not judged.')

P('C07', 'Reading a tree of included files equals reading the spliced text',
  'READ of a source cut into included files (nested, repeated, recursive or self references, and split-source comments) takes each file exactly once, at '
  'its first reference, and ignores later references; every command then shows and verifies exactly what it would for the spliced single text. Every '
  'statement location and every error location names the right file and line. A missing included file is reported and nothing is read.',
  ['inputs'], 'every way of cutting a source between statements into a tree of files, including repeated and circular references',
  T0 + 'one fixed two-file example is tested.',
  ['src/mmpars.c', 'src/mmcmds.c'],
  [('inclusion scan', 'src/mmpars.c getNextInclusion'), ('expansion and line bookkeeping', 'src/mmpars.c readInclude, getFileAndLineNum')],
  'random trees of files; differential against the text spliced by an independent model, which also computes every location',
  'Inclusions are placed between statements. Up to about 20 files per case.')

P('C08', 'WRITE SOURCE joins and splits included files without loss',
  'For a source with file inclusions, WRITE SOURCE writes the joined text with the inclusions marked, / SPLIT writes back the same tree of files, and '
  'reading the joined text and splitting it restores every file. Included files are renamed to ~1 backups (removed under / NO_VERSIONING) only when '
  'writing without / SPLIT and / KEEP_INCLUDES; no other file is touched, and an output name that is an included file is refused.',
  ['inputs', 'histories'], 'every tree of included files, every combination of the qualifiers, join-split chains',
  T0 + 'none of them writes a source with inclusions.',
  ['src/mmpars.c', 'src/mmcmds.c', 'src/mminou.c'],
  [('split output', 'src/mmpars.c writeSplitSource'), ('removal of included files', 'src/mmpars.c deleteSplits'), ('driver', 'src/mmcmds.c writeSource')],
  'random trees of files; all files in the directory afterwards are compared with an independent model of the tree',
  'Bounded trees; the recovery of a file from its ~1 backup is accepted up to the final line end.')

P('C09', 'WRITE SOURCE / EXTRACT writes exactly the closure of the selection',
  'WRITE SOURCE / EXTRACT writes, in the original order and token by token, exactly the selected assertions, everything their proofs depend on, the hypotheses, $d '
  'conditions and declarations these need and the enclosing scopes, followed by declarations of the unused symbols. The written file reads without error, keeps '
  'every frame and every verdict, and extracting from it again changes nothing. Descriptions, needed section headers and the typesetting comment are kept once.',
  ['inputs'], 'every legal database with valid or incomplete proofs, every label selection with wildcards and lists',
  T0 + 'none of them extracts from a source.',
  ['src/mmcmds.c', 'src/mmdata.c', 'src/mmwtex.c'],
  [('closure and output', 'src/mmcmds.c writeExtractedSource, traceProofWork'), ('label sections', 'src/mmdata.c getDescriptionAndLabel'),
   ('section headers', 'src/mmwtex.c getSectionHeadings')],
  'random databases; the extracted file is compared with an independent model of the closure, read, verified and extracted again',
  'Comments inside statements are not judged. No file inclusions.')

P('C10', 'SAVE PROOF changes the notation of proofs and nothing else',
  'SAVE PROOF with any label pattern, format and screen width replaces exactly the proofs of the matching statements, each by a proof in the chosen notation with the '
  'same steps, unknown steps included; verdicts stay the same now and after writing and reading the source again. Outside these proofs the source keeps every character, '
  'except that a complete proof without a contributor date gets one in its description. Compressed proofs spell out no subproof twice, lines fit the screen, and saving again changes nothing.',
  ['inputs', 'histories'], 'every database of complete and incomplete proofs, every sequence of SAVE PROOF commands, all formats, all widths from 30 up',
  T0 + 'one SAVE PROOF is tested, on one theorem.',
  ['src/metamath.c', 'src/mmdata.c', 'src/mmpfas.c', 'src/mmcmds.c'],
  [('SAVE PROOF', 'src/metamath.c command(), "SAVE PROOF" branch'), ('compression', 'src/mmdata.c compressProof'), ('shared subproofs', 'src/mmdata.c nmbrSquishProof')],
  'random databases and sequences of SAVE PROOF; the written source is compared section by section and saved proofs are decoded by independent code',
  'Proofs saved under / EXPLICIT or / PACKED are decoded strictly; line width is not judged when a single label is wider than the line.')

P('C11', 'The Proof Assistant only ever holds sound partial proofs and loses no solution',
  'After every Proof Assistant command the displayed proof is one tree whose last step is the theorem, in which every step is a statement available at that place, correctly instantiated from '
  'its hypotheses\' steps. Assigning a statement or stating a formula that a proof of the theorem has at that step is never refused, and a proof entered completely is recognised as complete. '
  'What is saved is what was displayed, is verified exactly if it is complete and correct, and leaves all other proofs alone.',
  ['inputs', 'histories'], 'every legal database, theorem and starting proof, every sequence of ASSIGN, LET, UNIFY, IMPROVE, REPLACE, INITIALIZE, DELETE, UNDO and REDO commands',
  T0 + 'three scripted sessions are tested.',
  ['src/mmpfas.c', 'src/mmunif.c', 'src/metamath.c', 'src/mmcmds.c', 'src/mmcmdl.c'],
  [('proof in progress', 'src/mmpfas.c assignStatement, replaceStatement, proveFloating, addSubProof, deleteSubProof'), ('unification', 'src/mmunif.c unify, makeSubstUnif'),
   ('commands', 'src/metamath.c command(), MM-PA branches')],
  'random interactive sessions with a hidden known proof; every displayed state is judged by an independent model and the session always ends with the known proof entered',
  'When only an ambiguous unification is left, the program may wait for the user\'s choice. Distinct-variable conditions are judged only on completed proofs.')

P('C12', 'UNDO and REDO restore the exact proof; unsaved work is never dropped silently',
  'In the Proof Assistant UNDO takes back the last command that changed the displayed proof, names it and restores the display exactly, working variables and stated formulas included; REDO brings it back; '
  'at least the configured number of changes can be undone, and a refused UNDO or REDO changes nothing. SAVE, SET and refused EXIT commands do not alter the proof. EXIT never leaves without asking while the proof differs from the one last saved.',
  ['inputs', 'histories'], 'every legal database and theorem, every history of proof-changing commands, UNDO, REDO, SET UNDO, SAVE and EXIT, with any answers to the questions asked',
  T0 + 'no test undoes anything.',
  ['src/mmpfas.c', 'src/metamath.c', 'src/mminou.c'],
  [('undo stack', 'src/mmpfas.c processUndoStack'), ('commands', 'src/metamath.c command(), MM-PA branches and EXIT')],
  'random histories in interactive sessions against a model of the undo stack over complete displays',
  'Commands that do not change the display may or may not count as undoable.')

P('C13', 'MINIMIZE_WITH keeps proofs correct, obeys its restrictions, makes none longer',
  'A proof changed by MINIMIZE_WITH is still a correct proof of the same theorem, with no new distinct-variable violation, whatever the screen width. Without / MAY_GROW it has fewer steps and no larger '
  'compressed size. Only selected statements are brought in, none that is excluded or forbidden or depends on a forbidden one, and none that depends on an axiom the proof did not use and the command did not allow; '
  'a selected statement that yields the whole theorem at once is found.',
  ['inputs', 'histories'], 'every legal database, theorem and complete or incomplete proof, every MINIMIZE_WITH command with any selection and qualifiers',
  T0 + 'two scripted minimizations are tested.',
  ['src/metamath.c', 'src/mmpfas.c', 'src/mmunif.c', 'src/mmcmds.c'],
  [('MINIMIZE_WITH', 'src/metamath.c command(), "MINIMIZE_WITH" branch'), ('replacement', 'src/mmpfas.c minimizeProof, replaceStatement'), ('axiom trace', 'src/mmcmds.c traceProofWork')],
  'random theorems with artificially lengthened proofs; the new proof is verified and its dependencies are computed by an independent model',
  'Mathboxes and discouraged statements are not generated here. Axioms used only to build formulas do not count as new, as in the program\'s documentation of essential traces.')

P('C14', 'EXPAND inlines exactly the proofs of the chosen theorems',
  'EXPAND replaces every use of each selected theorem in the proof in progress by that theorem\'s proof with the hypotheses\' proofs put in place, leaving its dummy variables and unknown steps unknown, and nothing else; '
  'it reports exactly the theorems it expanded. The result is a sound partial proof, and a complete one verifies exactly if it is correct.',
  ['inputs', 'histories'], 'every legal database with complete or incomplete proofs, every theorem and sequence of EXPAND commands',
  T0 + 'one EXPAND is tested.',
  ['src/mmpfas.c', 'src/metamath.c'],
  [('EXPAND', 'src/mmpfas.c expandProof'), ('command', 'src/metamath.c command(), "EXPAND" branch')],
  'random theorems; the expanded proof is compared with substitution on proof trees by independent code', '')

P('C15', 'SHOW TRACE_BACK and SHOW USAGE report exactly the dependencies of the proofs',
  'SHOW TRACE_BACK lists, in order, exactly the statements that the stored proof depends on directly or indirectly (only through logical steps, only axioms, only matching labels, only those that depend on the / TO statements, as '
  'requested), the traced statements not proved, a correct tree to the chosen depth, and with / COUNT_STEPS the step totals of the stored proofs and a longest path. SHOW USAGE lists exactly the statements whose stored proofs refer to a statement, directly or recursively.',
  ['inputs'], 'every legal database, with complete, partial and unreadable proofs in any format, every label pattern and combination of qualifiers',
  T0 + 'none of them traces anything.',
  ['src/mmcmds.c', 'src/metamath.c', 'src/mmdata.c'],
  [('trace', 'src/mmcmds.c traceProof, traceProofWork, traceProofTreeRec, countSteps'), ('usage', 'src/mmcmds.c traceUsage'), ('label patterns', 'src/mmdata.c matchesList'), ('essential steps', 'src/mmdata.c nmbrGetEssential')],
  'random databases and commands against reachability in the reference graph computed by an independent decoder',
  'The totals of / COUNT_STEPS are not judged when a traced proof is incomplete. Open known finding count-degenerate.')

P('C16', 'SHOW LABELS and SEARCH list exactly the matching statements',
  'SHOW LABELS lists, with number and kind and in order, exactly the statements selected by the label pattern (wildcards, lists, ranges, statement and web numbers, the statement last proved, the changed proofs). '
  'SEARCH lists exactly the selected statements whose symbols (with / JOIN preceded by the hypotheses) contain the symbol pattern, token by token and with its wildcards, or with / COMMENTS whose description contains the text irrespective of case and line breaks.',
  ['inputs'], 'every legal database with any descriptions, every label pattern, symbol pattern, text and combination of qualifiers',
  T0 + 'none of them searches anything.',
  ['src/metamath.c', 'src/mmdata.c', 'src/mmvstr.c'],
  [('search', 'src/metamath.c command(), "SEARCH" branch'), ('labels', 'src/metamath.c command(), "SHOW LABELS" branch'), ('matching', 'src/mmdata.c matches, matchesList, getDescription')],
  'random databases and commands against an independent matcher built on regular expressions',
  'Symbol patterns with single-character wildcards are judged between the readings "exactly one character" and "at most one character", both of which the documentation supports.')


P('C17', 'Every text tool transforms its file exactly as its help text says',
  'Each TOOLS command (ADD, TAG, DELETE, CLEAN, SUBSTITUTE, SWAP, INSERT, BREAK, BUILD, MATCH, SORT, UNDUPLICATE, DUPLICATE, UNIQUE, REVERSE, RIGHT, PARALLEL, NUMBER, COPY) writes exactly the documented lines, '
  'whether its arguments are given on the command line or asked for, keeps the previous contents as a backup, and touches no other file; TYPE and COUNT report the true contents, and the reported numbers of lines and changed lines are right.',
  ['inputs', 'histories'], 'every text file with any lines, every tool command with any arguments, sequences of commands',
  T0 + 'none of them runs a text tool.',
  ['src/metamath.c', 'src/mmcmdl.c', 'src/mmvstr.c', 'src/mminou.c', 'src/mmdata.c'],
  [('tools', 'src/metamath.c command(), g_toolsMode branches'), ('line editing', 'src/mmvstr.c edit, instr, left, right, mid, linput, str, val'), ('sorting', 'src/mmdata.c qsortStringCmp'), ('arguments', 'src/mmcmdl.c processCommandLine, getFullArg')],
  'random files and command sequences against an independent line-by-line model of the help texts',
  'UPDATE (deprecated, undocumented) is not exercised. Where a help text leaves a choice (order of equal sort keys, where BUILD breaks lines, tabs in the input of CLEAN T) any documented result is accepted.')

P('C18', 'Writing a file keeps the earlier contents as numbered backups, crash or not',
  'Every command that writes a file first moves an existing file to the backup ~1 and the backups one place up, as far as the first gap and dropping only the ninth, unless / NO_VERSIONING is given; included files are written, recovered from '
  'their backup or moved away only as WRITE SOURCE documents, and no other file is touched. If the program dies before any of its file operations, every file and every backup that was to be kept is complete in its old or in its new place.',
  ['histories', 'crash_points', 'inputs'], 'every directory of files and backups, every sequence of writing commands, every point of death between file operations',
  T0 + 'they run in an empty directory and never die.',
  ['src/mminou.c', 'src/mmcmds.c', 'src/mmpars.c', 'src/metamath.c'],
  [('backups', 'src/mminou.c fSafeOpen, fSafeRename'), ('joined and split output', 'src/mmcmds.c writeSource, src/mmpars.c writeSplitSource, deleteSplits')],
  'random histories against a model of the directory, and injected death before a random fopen/fclose/rename/remove call',
  'The C library file calls are counted by stand-ins in a separate build. Death between buffered writes is covered by losing everything not yet closed.')

P('C19', 'Failed or partial database writes are reported and changes stay unsaved',
  'WRITE SOURCE says that the database was written only if every byte of it is in the files; otherwise it reports an error (or refuses) and keeps the included files. EXIT and ERASE ask for confirmation exactly when '
  'saved proofs have not yet been completely written, and a refusal keeps everything.',
  ['histories', 'fault_sequences', 'inputs'], 'every sequence of proof saving, writing, erasing and leaving, every missing directory and every amount of room on the disk',
  T0 + 'no write fails in them.',
  ['src/metamath.c', 'src/mmcmds.c', 'src/mmpars.c', 'src/mminou.c'],
  [('unsaved flag', 'src/metamath.c command(), EXIT, ERASE, WRITE SOURCE, SAVE branches'), ('writing', 'src/mmcmds.c writeSource, writeExtractedSource, src/mmpars.c writeSplitSource, src/mminou.c fSafeClose')],
  'random sessions with a file size limit acting as a full disk and with missing directories, compared with a twin session without limit and a model of the unsaved state',
  'Unsaved proofs in the Proof Assistant are part of C12.')

P('C20', 'No database file, however damaged, corrupts or hangs the program',
  'Reading any file as a database, and then showing, searching, verifying, typesetting or writing what was read, never reads or writes memory out of bounds, never uses freed or uninitialized memory, never ends in '
  'a signal, an endless loop or undefined arithmetic, and never reports an internal error for a file it has accepted without error messages.',
  ['inputs'], 'every sequence of bytes as a database and as an included file, and the commands that look at the whole database afterwards',
  T0 + 'about ten of them read a malformed file, each with one error, and none would notice a read out of bounds.',
  ['src/mmpars.c', 'src/mmcmds.c', 'src/mmveri.c', 'src/mmdata.c', 'src/mmvstr.c', 'src/mmwtex.c', 'src/mminou.c'],
  [('reading', 'src/mmpars.c readSourceAndIncludes, parseKeywords, parseLabels, parseMathDecl, parseStatements'), ('proofs', 'src/mmpars.c parseProof, parseCompressedProof'), ('typesetting', 'src/mmwtex.c parseTexDefs')],
  'legal databases damaged by structured mutation, run in an AddressSanitizer/UBSan build',
  'Sessions that the program itself stops in an orderly way after more than 100 errors, and internal checks that fire after reported errors (which their message announces), are set aside. Leaks are not judged.')

P('C21', 'No sequence of commands crashes, corrupts or hangs the program',
  'On any legal database, whatever its comments, headings and typesetting definitions say, every sequence of commands - meaningful, misspelled, incomplete or with wrong arguments, in the command mode, the proof assistant or the text tools, typed or from a command file, at any screen size and with any answers to its prompts - is carried out or refused with a message. It is never a crash, undefined behaviour or memory corruption, an internal error report, or an endless loop, and the end of the input always ends the program.',
  ['inputs', 'histories'], 'every legal database, every sequence of commands and answers to prompts, every screen size, and the end of input at any point',
  T0 + 'about thirty sessions of commands that succeed, at the default screen size.',
  ['src/metamath.c', 'src/mmcmdl.c', 'src/mmcmds.c', 'src/mmpfas.c', 'src/mmunif.c', 'src/mmwtex.c', 'src/mmword.c', 'src/mminou.c', 'src/mmvstr.c'],
  [('commands', 'src/metamath.c command'), ('command language', 'src/mmcmdl.c processCommandLine, getFullArg'), ('output', 'src/mminou.c print2, printLongLine, cmdInput'), ('proof assistant', 'src/mmpfas.c, src/mmunif.c')],
  'random command sessions over a grammar of the whole command language, run in an AddressSanitizer/UBSan build',
  'Sessions that only run out of time are set aside when they contain a command whose search is exponential by design (IMPROVE, MINIMIZE, UNIFY, EXPAND, ASSIGN and the like with user-set limits). Leaks are not judged.')

P('C22', 'SHOW PROOF displays the stored proof truthfully in every layout',
  'For every proof, complete or not and in whatever notation it is stored, SHOW PROOF lists its steps in order with the formula each step proves, the hypothesis it is assigned to, the statement or earlier step it comes from, its depth in the tree or the numbers of the steps it uses, consistently under every combination of /ALL, /ESSENTIAL, /LEMMON, /RENUMBER, /REVERSE, /NO_REPEATED_STEPS, /FROM_STEP, /TO_STEP, /DEPTH and /START_COLUMN and every screen width. '
  '/DETAILED_STEP gives the substitutions of a step, the steps its hypotheses come from and its parent; /STATEMENT_SUMMARY lists exactly the assertions the proof uses with their hypotheses and places; /SIZE counts the characters of the stored proof. A label with wildcards shows every theorem that matches.',
  ['inputs'], 'every database, every proof in every notation with every sharing of subproofs and any unknown steps, and every combination of the display qualifiers',
  T0 + 'a handful of displays of fixed proofs, compared as text.',
  ['src/metamath.c', 'src/mmcmds.c', 'src/mmveri.c', 'src/mmdata.c', 'src/mmpars.c'],
  [('displays', 'src/mmcmds.c typeProof, showDetailStep, proofStmtSumm'), ('formulas', 'src/mmveri.c verifyProof, assignVar'), ('tree', 'src/mmdata.c nmbrGetIndentation, nmbrGetTargetHyp, nmbrGetEssential')],
  'random proofs in random notations with the display compared line by line with a reference evaluation of the proof',
  'Formulas that depend on unknown steps are judged only as far as the known hypotheses determine them.')

P('C23', 'SHOW STATEMENT displays exactly the frame of each selected statement',
  'SHOW STATEMENT shows, for every statement the label pattern selects and in database order, its number, label, kind and symbols, its logical hypotheses and exactly its mandatory distinct-variable conditions. /COMMENT adds the comment right before it; /FULL adds its file, line and web page number, its mandatory hypotheses in the order in which a proof must give them, its mandatory and optional distinct-variable pairs, its optional hypotheses and its mandatory and additional variables, just as the scoping rules of the language determine them.',
  ['inputs'], 'every legal database with any nesting of scopes, any variable, hypothesis and distinct-variable statements and comments, every label pattern and screen width',
  T0 + 'two displays of fixed statements without optional parts.',
  ['src/metamath.c', 'src/mmcmds.c', 'src/mmpars.c', 'src/mmwtex.c'],
  [('display', 'src/mmcmds.c typeStatement'), ('frames', 'src/mmpars.c parseStatements'), ('comments', 'src/mmpars.c getDescription')],
  'random databases with nested scopes; displays compared with frames computed by an independent reference parser',
  'The line "The variables it contains" repeats the mandatory variables and is judged as such.')

P('C24', 'The web page of an assertion shows exactly what the database says',
  'SHOW STATEMENT with /HTML or /ALT_HTML writes for each selected assertion a page with every symbol replaced by the code its typesetting definition gives, however the definition is quoted, split or commented. The page shows the hypotheses and the assertion, exactly the distinct variables, allowed substitutions and dummy variables, the proof (or a correct syntax breakdown of an axiom or definition) with right step, hypothesis and statement references, and its neighbours and description. It lists exactly the axioms and definitions the proof depends on, its unproved premises, and the theorems that refer to the assertion.',
  ['inputs'], 'every legal database with typesetting definitions for all its symbols and descriptions without markup, every proof (complete or not), label, screen width and typesetting comment',
  T0 + 'one of them makes a single page of a one-symbol database.',
  ['src/mmwtex.c', 'src/mmcmds.c', 'src/metamath.c'],
  [('typesetting definitions', 'src/mmwtex.c readTexDefs'), ('page', 'src/mmcmds.c typeStatement'), ('proof table', 'src/mmcmds.c typeProof'), ('symbols', 'src/mmwtex.c getTexLongMath')],
  'random databases and typesetting comments; every page decoded and compared with an independent reference model of frames, proofs and dependencies',
  'That a syntax breakdown is found is not required (the search is limited), only that the one shown is right.')

P('C25', 'LaTeX output shows the assertions and proofs of the database',
  'OPEN TEX, SHOW STATEMENT /TEX, SHOW PROOF /TEX and CLOSE TEX write a file that contains, in the order of the commands and nothing else, each selected assertion as an axiom, definition or theorem with its description, hypotheses and formula, and each displayed proof with its step numbers, formulas and references, every symbol replaced by the code of its LaTeX definition. The document header and trailer are there exactly if /NO_HEADER was not given.',
  ['inputs'], 'every legal database with LaTeX definitions for all its symbols and descriptions without markup, every proof, selection, display qualifier and screen width',
  T0 + 'one LaTeX file of two small theorems.',
  ['src/mmwtex.c', 'src/mmcmds.c', 'src/metamath.c'],
  [('symbols', 'src/mmwtex.c asciiToTt, getTexLongMath, tokenToTex'), ('statements', 'src/mmcmds.c typeStatement'), ('proofs', 'src/mmcmds.c typeProof'), ('files', 'src/mmwtex.c printTexHeader, printTexTrailer')],
  'random databases, definitions and command sequences; the whole file predicted by a reference model',
  'Compared up to white space, thin spaces between symbols and breaks of long lines.')

P('C26', 'Markup in comments is rendered as documented',
  'In descriptions on web pages and in the files given to MARKUP, formulas between backquotes are replaced by the codes of their symbols, labels and web addresses after a tilde by links (with the colored number of the label), references in brackets by links to the bibliography, and underscores by italics or subscripts; doubled markup characters stand for themselves, blank lines separate paragraphs and HTML characters of descriptions are escaped. '
  'Everything else is kept word for word. MARKUP does just what its qualifiers ask for, and unknown labels and references are reported.',
  ['inputs'], 'every text made of words, special characters and any of the markups next to each other, every database and set of MARKUP qualifiers',
  T0 + 'one description on one page.',
  ['src/mmwtex.c', 'src/mmcmds.c', 'src/metamath.c'],
  [('rendering', 'src/mmwtex.c printTexComment, asciiMathToTex, asciiToTt'), ('MARKUP', 'src/mmcmds.c processMarkup')],
  'random texts composed of markup elements whose rendering is known, compared piece by piece with the page or file written',
  'White space next to markup is not judged. Labels, references and italics do not contain other markup. Open known finding stale-number.')

P('C27', 'A command does the same however it is entered; a wrong one does nothing',
  'Keywords may be abbreviated to any unambiguous beginning in either case (a keyword spelled out always wins), words may be separated by any white space and quoted, left-out arguments are asked for with their choices and defaults, and lines may come from the keyboard, nested or silent command files or program arguments: output and files are the same, and a log file contains exactly what was shown and typed. '
  'Ambiguous, unknown, superfluous or malformed words are answered by a message that lists the choices and points at the word, and change nothing. Commands shown by SET ECHO ON can be entered again with the same effect.',
  ['inputs', 'histories'], 'every sequence of commands at the general, Proof Assistant and text tools prompts and every way to enter it',
  'Tests give each command in one form, through one channel. ',
  ['src/mmcmdl.c', 'src/mminou.c', 'src/metamath.c'],
  [('command syntax', 'src/mmcmdl.c processCommandLine, getFullArg'), ('splitting into words', 'src/mmcmdl.c parseCommandLine'), ('input and logs', 'src/mminou.c cmdInput, cmdInput1, print2'), ('command files, arguments, echo', 'src/metamath.c command')],
  'random sessions entered twice, once in full and once in a random other way; whole transcripts, log files and written files compared',
  'Not covered: paging, commands that start with a quote (operating system), questions of the Proof Assistant about unification.')

P('C28', 'VERIFY MARKUP reports exactly the departures from the documented conventions',
  'For every legal database whose $t comment can be read, VERIFY MARKUP warns about exactly those departures from the conventions that its label pattern and qualifiers select, and says that no errors were found if and only if there is none. '
  'The conventions are: labels (no file names reserved by operating systems or starting with mm, no underscores, ax- or df- for logical axioms), no @ or ? in symbols, the agreement of axX with ax-X in assertion, hypotheses and disjoint variables, no trailing spaces, tabs or overlong lines, every symbol typeset in all three forms, '
  'and in descriptions one contributor tag, well-formed tags, real and consistently ordered dates (up to the version date), the discouragement tags that labels ending in OLD or ALT need, existing label references, bibliographic references with a keyword and a page, one-line section titles, and no mathbox that uses an earlier mathbox; the layout of a description in lines makes no difference.',
  ['inputs'],
  'any database text, any mixture of departures, any label pattern, qualifiers and screen width',
  T0 + 'each convention is tested by one or two small files, without combinations of tags, dates, layouts and positions.',
  ['src/mmcmds.c', 'src/mmdata.c', 'src/mmwtex.c'],
  [('the command', 'src/mmcmds.c verifyMarkup'), ('tags and dates', 'src/mmdata.c getContrib, parseDate, compareDates, getMarkupFlag'), ('headers, references and mathboxes', 'src/mmwtex.c getSectionHeadings, writeBibliography, getMathboxLoc')],
  'random databases that keep to or depart from each convention; the set of warnings compared with a reference model of the conventions',
  'Not covered: / FILE_CHECK (images and bibliography files); the order of malformed dates; label references are checked once per label and statement.')


P('C29', 'WRITE THEOREM_LIST lists every statement and section once, in order, linked',
  'For every legal database with a typesetting comment, WRITE THEOREM_LIST writes a contents page and as many list pages as the page size asks for, on which every axiom and theorem appears exactly once, in database order, with its kind, label, number, mark for distinct variables, description, hypotheses and assertion, except that the content of lemmas is left out unless asked for. '
  'Of the section headers between two consecutive axioms or theorems exactly the last of each level that no larger header follows are listed, numbered in order, with their descriptions above the statement they precede and in both tables of contents; each entry there leads to its own header. '
  'Page titles, neighbour links, page list, number ranges, colors of the parts of the database, and backups of replaced pages agree with that.',
  ['inputs', 'histories'],
  'any database, arrangement of section headers (with any layout the documentation allows), page size and qualifiers',
  T0 + 'no test writes a theorem list.',
  ['src/mmwtex.c', 'src/metamath.c'],
  [('pages and contents', 'src/mmwtex.c writeTheoremList'), ('section headers', 'src/mmwtex.c getSectionHeadings'), ('numbers and formulas', 'src/mmwtex.c pinkHTML, pinkRangeHTML, getTexOrHtmlHypAndAssertion')],
  'random databases with random headers, descriptions and typesetting; every page written is decoded and compared with a reference model',
  'Descriptions are plain words and label references (markup is C26). Colors of numbers are not judged.')

P('C30', 'Discouraged statements and proofs, and only they, are protected until overridden',
  'A statement whose description contains "(New usage is discouraged.)", in any layout, is never put into a proof by ASSIGN, REPLACE, IMPROVE or MINIMIZE_WITH, and a proof whose theorem is marked "(Proof modification is discouraged.)" can be neither worked on by PROVE nor replaced by SAVE NEW_PROOF, unless / OVERRIDE is given or SET DISCOURAGEMENT is OFF; a refused command changes nothing and says why. '
  'An overridden mark only adds warnings that name it: everything else is as in the same session on the database without marks, and without overriding, IMPROVE and MINIMIZE_WITH do exactly what they do on the database without the discouraged axioms and theorems. '
  'SHOW DISCOURAGED lists exactly the marked statements, with the steps of their current proofs and their current users.',
  ['inputs', 'histories'],
  'any database, marks (and texts that are nearly marks) in any place and layout, any sequence of Proof Assistant commands with and without overriding',
  T0 + 'no test enters the Proof Assistant with marked statements.',
  ['src/metamath.c', 'src/mmpfas.c', 'src/mmdata.c', 'src/mmcmds.c'],
  [('refusals', 'src/metamath.c command (PROVE, ASSIGN, REPLACE, IMPROVE, MINIMIZE_WITH, SAVE NEW_PROOF)'), ('searches', 'src/mmpfas.c proveByReplacement, proveFloating, minimizeProof'), ('marks', 'src/mmdata.c getMarkupFlag'), ('list', 'src/mmcmds.c showDiscouraged')],
  'random sessions with known marks; refusals predicted, and whole transcripts compared with the same session on the unmarked or reduced database',
  'The comparison without the discouraged statements is made for statements starting with |- only (syntax guides unification).')
P('C31', 'ERASE and READ make a session like a fresh one',
  'After ERASE and the READ of a database, every command shows exactly the same output, and writes exactly the same files, as in a session newly started in the same directory that reads this database - whatever database (damaged or without statements too) was read before, and whatever was shown, searched, proved, saved, verified or typeset with it. '
  'Exempt are what SET commands, open log and typesetting files and the choice between HTML and Unicode pages (by default the last one used) carry over by design, and the commands that report times and memory.',
  ['inputs', 'histories'],
  'any two databases, related or not, any commands on the first one, any commands on the second one, in the command mode and in the Proof Assistant',
  T0 + 'no test uses ERASE; leftovers of a database show only with a second one and the right commands before and after.',
  ['src/mmcmds.c', 'src/metamath.c', 'src/mmdata.c', 'src/mmwtex.c'],
  [('reset', 'src/mmcmds.c eraseSource'), ('caches', 'src/mmdata.c getMarkupFlag; src/mmcmds.c getContrib; src/mmwtex.c eraseTexDefs, assignMathboxInfo'), ('globals', 'src/metamath.c command (ERASE)')],
  'random sessions with ERASE in the middle, compared (transcript and files) with fresh sessions for the second half',
  'WRITE BIBLIOGRAPHY, WRITE RECENT_ADDITIONS and log or TeX files are not among the commands.')
P('C32', 'The bibliography and recent-additions pages are complete, exact and sorted',
  'WRITE BIBLIOGRAPHY lists every complete reference (keyword, optional identifier, one noise word, [author], page) of every description exactly once, sorted by author, page and identifier, equal references in one row with a link to each of their statements, and warns about each reference without keyword or page, as VERIFY MARKUP does; references in formulas, escaped brackets and other comments are not taken. '
  'WRITE RECENT_ADDITIONS lists the statements with the most recent dates (since 1993, not after today) up to the limit, latest date first and last statement first, each with its date, link, number, description and formulas. '
  'Both replace only the text between the two marker lines (and update the dates of the page), keep the old page as a backup, and leave a page whose markers are missing unmodified.',
  ['inputs', 'histories'],
  'any database with any descriptions, references, dates, parts and typesetting definitions; any page; sequences of the two commands on the same pages',
  T0 + 'no test runs either command.',
  ['src/mmwtex.c', 'src/metamath.c', 'src/mmcmds.c'],
  [('references', 'src/mmwtex.c writeBibliography'), ('recent', 'src/metamath.c command (WRITE RECENT_ADDITIONS)'), ('dates', 'src/mmcmds.c getContrib, buildDate')],
  'random databases and pages; every page written is decoded and compared with an independent model of the descriptions',
  'Identifiers that contain formulas or page numbers, more than one noise word, and pages that do not directly follow the reference are not judged.')
P('C33', 'The overview pages and the flash cards show exactly the database',
  'SHOW STATEMENT with a pattern that starts with * and / HTML or / ALT_HTML also writes a page with every declared math symbol once, in order of declaration, in its typeset form (if it has one) and as text; a page with every theorem (link, number, and the description as text, cut to 26 characters when longer than 29); and a page with every $a statement (link, number, and its essential hypotheses and assertion), in database order, with a row and another background where the extended part and the mathboxes start. '
  '/ BRIEF_HTML and / BRIEF_ALT_HTML write only these pages, with numbers, formulas, and links to the place of each statement on the pages of WRITE THEOREM_LIST. '
  '/ MNEMONICS writes one card for each matching assertion with its essential hypotheses and the assertion in the Unicode form; all with the usual backups.',
  ['inputs', 'histories'],
  'any database with any descriptions, typesetting definitions, extended part and mathboxes; sequences of these commands in any order',
  T0 + 'no test writes any of these pages.',
  ['src/metamath.c', 'src/mmwtex.c'],
  [('pages', 'src/metamath.c command (SHOW STATEMENT / HTML)'), ('cards', 'src/metamath.c command (SHOW STATEMENT / MNEMONICS)'), ('formulas', 'src/mmwtex.c getTexOrHtmlHypAndAssertion, tokenToTex')],
  'random databases; every page written is decoded and compared with an independent model of the database',
  'The frame of the pages (title, end) is checked only for being there.')
P('C34', 'Unification finds every choice, offers each once, and applies a single one',
  'When a statement is unified with a step whose formula is known, the Proof Assistant offers exactly the substitutions that make them equal (as far as the shapes of the $a statements allow: balanced brackets, first, last and single constants), each once and simplest first; it refuses the statement if there is none and applies the substitution without asking if there is only one. '
  'Of two schemes, every common instance is covered by an offer, each offer makes them equal, and with the filter on no two offers differ only in the names of the work variables; ASSIGN / NO_UNIFY never asks, and rejecting every offer changes nothing. '
  'MATCH lists exactly the earlier statements and own hypotheses that can be unified with the step, within the given number of essential hypotheses, names those that could not be decided in time, and assigns the one that is chosen, or the only one.',
  ['inputs', 'histories'],
  'any formulas, with or without a grammar and balanced brackets, empty substitutions, the filter on and off, any unification limit; any choices in ASSIGN, UNIFY STEP and MATCH STEP',
  T0 + 'the tests never see a question of the unifier.',
  ['src/mmunif.c', 'src/mmpfas.c', 'src/metamath.c'],
  [('unification', 'src/mmunif.c unify, unifyH, hentyNormalize'), ('questions', 'src/mmpfas.c interactiveUnifyStep, interactiveUnify'), ('matches', 'src/mmpfas.c interactiveMatch, checkStmtMatch')],
  'random databases of strings; the unifications are enumerated by brute force, or given a known common instance, and compared with the offers, lists and results',
  'Completeness for two schemes is judged for instances in which the variables of the two do not cross; other instances only for being correct.')

P('C35', 'A Proof Assistant command changes only the part of the proof it names',
  'ASSIGN, REPLACE, IMPROVE, DELETE and INITIALIZE change the subproof of the step they name (a number, +n or -n, FIRST, LAST, ALL, or the $f steps) and leave every other assignment alone, complete and known parts are never replaced by IMPROVE, LET and UNIFY change formulas only and never the assignments, and a refused command changes nothing. '
  'Every reported fact is true: the length and step of each proof found, and the steps that were renumbered and to what; a step whose formula is a hypothesis of the theorem is always proved by IMPROVE. '
  'A step given a formula by LET STEP has that formula, and SHOW NEW_PROOF with / UNKNOWN, / NOT_UNIFIED or the essential steps lists exactly those steps of the proof, as they are.',
  ['inputs', 'histories'],
  'any sequence of editing commands of a proof session on any theorem, from an empty, partial or complete proof',
  T0 + 'the tests run a handful of proof sessions, on complete proofs or a fixed sequence of assignments.',
  ['src/metamath.c', 'src/mmpfas.c', 'src/mmcmds.c'],
  [('editing', 'src/metamath.c ASSIGN, REPLACE, IMPROVE, LET, DELETE, INITIALIZE'), ('subproofs', 'src/mmpfas.c replaceStatement, proveFloating, assignKnownSteps, addSubProof, deleteSubProof'), ('displays', 'src/mmcmds.c typeProof')],
  'random proof sessions; the proof tree and formulas before and after each command are compared with the change that the command names, and with its messages',
  'What IMPROVE can find beyond the hypotheses of the theorem is a matter of its search, and is not judged.')
