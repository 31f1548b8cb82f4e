# continued from meta.py
prop('C22', 'What a FIBS message is called depends on the message and phase only',
     '''Every message of the FIBS server is given the class that describes it best, given the phase of the session (login, message of the day,
     running), and nothing that was received before in that phase matters. The phase changes exactly at the messages that
     begin and end the message of the day and at the goodbye.''',
     ['histories'], 'messages of every class, each after each other one; all histories to a depth over the messages that matter to the phases',
     '''The tests feed one captured session; overlapping patterns and the order they are tried in show only for particular pairs.''',
     ['bglib/protocol/fibs.py'],
     [dict(name='CookieMonster and its message states', where='bglib/protocol/fibs.py')],
     'exhaustive histories of the real message classifier, in lock step with a reference automaton over a labelled corpus',
     TRUST + 'and the labelled corpus (one or more messages of every class).')

prop('C23', 'Session: each subscriber gets each message once, in order, on any schedule',
     '''While a session with a server runs, each message received is handed once, in the order received, to every subscriber registered
     throughout, and to none that is not registered; one handler of a session runs at a time. Subscribers may register and
     unregister from any thread, handlers included, at any time, without others missing messages. After close() the session is not active and its
     listener ends and says so, whichever error the network ends with. Lines sent from several threads do not mix. Sessions do not hold each other up.''',
     ['schedules', 'fault_sequences'], '''every interleaving of the listener and the users of a session up to a bound on preemptions, and every way the connection
     ends, in sixteen scenarios''',
     '''The tests open one real connection and close it, in one thread. Lost messages and deadlocks need a particular
     interleaving or a handler that (un)registers.''',
     ['bglib/protocol/session.py', 'bglib/protocol/fibs.py'],
     [dict(name='Transport/Session: _listener, dispatch, register, unregister, close, send_line', where='bglib/protocol/session.py')],
     'stateless model checking of the real threads under a controlled scheduler with preemption bounding and a scripted server',
     TRUST + 'the scheduler, and the stand-in for telnetlib; up to two preemptions (three in thorough) and two users next to the listener.')

prop('C24', 'Tournaments: every round halves fairly and loses nobody',
     '''In a knockout with lives, every player is always either alive or dead, dead exactly when out of lives. A round pairs each
     living player with at most one other (with an odd number one sits out); exactly one of each pair loses exactly one life, nobody else does,
     and ratings do not change. Every pairing and each result can occur, over all shuffles every two players meet equally often, and a player wins with the chance the
     ratings give. The handicaps for prize and fee make a player's expectation that of the average player.''',
     ['histories', 'inputs'], 'every state reachable from a start with up to six players, over every shuffle and every result of every round',
     '''The tests run random tournaments and count survivors.''',
     ['bglib/stat/tourney.py', 'bglib/stat/rating.py'],
     [dict(name='Tourney.round, match; tourney_chance and handicaps', where='bglib/stat/tourney.py')],
     'explicit-state search of the real Tourney with the random module replaced by an exhaustive environment',
     TRUST + 'and checks at most six players.')

prop('C25', 'Ratings: chances add up, favour the stronger, and the stakes are fair',
     '''For any two ratings and length of match the chances of the stronger and the weaker follow the published formula and add up to
     one; the weaker never has more than half, less the longer the match. What one gains by winning and what the other would gain add up to the
     length, are fair at those chances, and depend on the difference only.''',
     ['inputs'], 'every pair of ratings on a grid, every difference to 2000, integers and fractions, equal ratings, lengths 1-25 and 64',
     '''Tests evaluate four points; none with equal ratings or long matches.''',
     ['bglib/stat/rating.py'],
     [dict(name='upset_chance, winning_chance, gain_on_win', where='bglib/stat/rating.py')],
     'explicit enumeration of a grid of inputs on the real code against the formula and its laws',
     TRUST + 'and ratings within the grid.')

WIKI = ['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py', 'bglib/doc/html.py', 'bglib/doc/macro.py']
prop('C15', 'Wiki pages: any text renders, well-formed, escaped, words in order',
     '''Whatever text is given, the wiki formatter renders it without an exception, to balanced HTML of known elements and attributes in
     which every character of the text is escaped where it must be, list items, rows and cells stand in lists, tables and rows,
     and the words written appear once and in the order written. Rendering again gives the same; so does parsing the text line by line, and
     reusing a formatter after reset().''',
     ['inputs', 'histories'], 'all sequences of marks, links, macros, block starts and literals to a length; all strings of special characters',
     '''The repository has a fuzzer for this and a few texts it found; marks interact in threes and fours, across lines.''',
     WIKI, [dict(name='LineFormatter.parse, Editor.append/leave, HtmlWriter', where='bglib/doc/bgwiki.py')],
     'exhaustive enumeration of token and character sequences on the real formatter, checked by a strict HTML reader',
     TRUST + 'the HTML reader; reStructuredText inside of a page is left to docutils.')

prop('C16', 'Inline wiki markup: each word has exactly the styles its marks give',
     '''Each mark (bold, italic, underline, strike, sub- and superscript, monospace, headings) begins its style or ends it, and ending one
     ends those begun inside it; an empty line ends all. Every word therefore carries exactly the styles of the marks before it. Links of every kind lead where they
     say, are shown as written, in any context and with any wiki path; a ! before a mark makes it plain text.''',
     ['inputs'], 'all sequences of marks to a length on one and several lines; every kind of link in every context; every mark escaped',
     '''Tests show each mark alone; overlapping and unclosed marks need sequences.''',
     WIKI, [dict(name='start_or_end_handler and the _handle_pattern methods', where='bglib/doc/bgwiki.py'),
            dict(name='Editor.enter, leave, append', where='bglib/doc/doctree.py')],
     'exhaustive enumeration of mark sequences in lock step with a stack automaton',
     TRUST + 'and the automaton.')

prop('C17', 'Wiki blocks: lists, citations, tables and definitions nest as written',
     '''Items are as deep as indented, in lists of the kind written, and share a list unless something shallower stands between;
     citations are as deep as marked; tables have the rows and cells written; bodies belong to their term; preformatted text is
     shown as it is. Text after a block is outside of it, and an empty line ends whatever is open: what follows looks as on a
     page of its own.''',
     ['inputs', 'histories'], 'all sequences of lines of each kind to a length; all pairs of blocks around an empty line',
     '''Tests show a few well-behaved lists; skipped levels, returning to a level and changing kind need sequences.''',
     WIKI, [dict(name='_handle_pattern_itemize, _citation, _table_cell, definition and preformat handlers', where='bglib/doc/bgwiki.py')],
     'exhaustive enumeration of line sequences against the structure computed from them, with element identity',
     TRUST + 'and mixes kinds of blocks only across an empty line (C15 mixes them freely).')

prop('C18', 'Wiki macros: errors reported, contents complete, analyses as in the database',
     '''An unknown macro, or one whose argument is bad, is reported on the page without harm to the text around; a registered one is called once with exactly its
     argument, whatever was registered and unregistered before. The table of contents lists every heading in order, at its depth, and each entry leads
     to its heading, wherever the table stands. A position leads to the image with the options given. Analyses show
     every row, number and action of the database in its place.''',
     ['inputs', 'histories'], 'all sequences of headings to a length with the table anywhere; all histories of registration; arguments, contexts; all tables of a few rows',
     '''Tests render one table of contents and two analyses.''',
     WIKI, [dict(name='dispatch, register, TocVisitor, Position, Analysis', where='bglib/doc/macro.py')],
     'exhaustive enumeration of pages, registration histories and analyses on the real code against a model',
     TRUST + 'and shows chances to the one digit the code gives them.')

# ------------------------------------------------------------------- pictures
IMG = ['bglib/image/base.py', 'bglib/image/css.py', 'bglib/image/draw.py']

prop('C19', 'Style sheets: rules reach what they select, the last wins, values inherit',
     '''A rule of a style sheet gives its values to every element its selector describes (name, attribute, :data(), inside of others at any
     distance; values quoted or not) and to no other; of several, the later wins, also for flip: False and for images and fonts, whose paths are relative to
     the sheet. A value not given is the enclosing element's where the attribute is inherited, else the default; a line
     which is no rule changes nothing.''',
     ['inputs', 'configurations'], 'all chains of up to three selectors over a set, all sequences of rules to a length, all pairs of spellings; on trees of several boards',
     '''The few tests apply one rule to one element; combinations of ancestors, order and inheritance are what themes are made of.''',
     IMG[:2], [dict(name='Selector.is_match, Rule.is_match/apply, CSSParser', where='bglib/image/css.py'),
               dict(name='BaseElement.apply, __getattr__ and the attribute classes', where='bglib/image/base.py')],
     'exhaustive enumeration of style sheets on real trees against an independent cascade', TRUST + 'and keeps to sheets of one valid rule to a line, values without spaces.')

prop('C20', 'The tree of a board picture tells the board, whole and in its place',
     '''Every group of chequers of a board is one element with its owner and number on its point, bar or home (those borne off are the rest of fifteen); the
     cube lies where its owner has it, or before the player it is offered to at its new value; the dice lie right and left on the side of the one to move;
     match length, Crawford, scores and the words saying whose turn it is for what agree with the board, which is not changed. The XML
     says the same.''',
     ['inputs'], 'all placements of up to two groups, all well-formed combinations of turn, dice, double, resignation, cube, score; the stored reference trees',
     '''The reference pictures are of 20 boards, and their tests cannot run without the imaging library.''',
     IMG[:1], [dict(name='ElementTree.set, create_tree, xml', where='bglib/image/base.py')],
     'exhaustive enumeration of placements and states against a tree made from the board independently, itself checked on stored references',
     TRUST + 'and the reader of XML. Does not say who acts while your own double awaits its answer (the code and the stored trees disagree).')

prop('C21', 'Pictures show the tree as the style sheet says, at any size, every time',
     '''Painting a board paints, in the order of its tree, exactly what its elements and their style values call for: backgrounds, images (flipped when they are),
     points, piles up to max_count along their offsets with the number beyond it unless hidden, eyes of dice, cube values, texts; scaled by the
     one factor that fits the board into the size asked for, whatever that is. What was painted before, or done to the
     board since, makes no difference, and painting changes nothing.''',
     ['inputs', 'histories', 'configurations'], 'all themes on all boards of a list, all sizes of a range, all small sheets over the properties of each element, all orders of a few paintings and edits',
     '''No test paints a board here: the imaging library is absent, and the stored pictures are at one size.''',
     IMG, [dict(name='draw of each element, set_mag, apply_mag', where='bglib/image/base.py'),
           dict(name='Draw.draw, draw_element', where='bglib/image/draw.py')],
     'exhaustive enumeration of sheets, boards, sizes and painting histories with a recording canvas against an independent painter',
     TRUST + 'and the recording canvas in place of the imaging library.')

prop('C26', 'The Pillow canvas: strokes land where asked, texts fit and are centred',
     '''On the canvas of bglib.image.PIL images, rectangles, ellipses and polygons land in the place and size asked for (images flipped top to bottom when asked,
     with their own mask when they have one); a text is centred in its box in the largest letters, of at least 8, which fit strictly inside, and
     left out when there are none; images and fonts are those asked for, whatever was loaded before; a picture that
     failed for want of a file does not spoil the next.''',
     ['inputs', 'histories', 'fault_sequences'], 'all boxes up to a size for several fonts and texts; all sequences of images and fonts to a length; boards in all themes; a file missing at each step',
     '''The module cannot even be imported by the tests without the imaging library.''',
     ['bglib/image/PIL.py', 'bglib/image/draw.py'], [dict(name='draw_text, calc_font_size, load_image, load_font, paste_image, draw_*', where='bglib/image/PIL.py')],
     'exhaustive enumeration of boxes, load histories and faults against a stand-in imaging library', TRUST + 'and the stand-in library (mc/pilstub), made after its documentation.')

# ---------------------------------------------------------------------- records
prop('C27', 'Match records: accepted just when in order, digested exactly, cut into games',
     '''A match record in Snowie's text form is accepted just when its lines come in order: match length, and for each game its number, the players, and moves
     numbered 1, 2, 3 and so on, with empty lines between games and a result after the moves; any other line is refused, and no later than where the order breaks.
     The digest is the SHA-1 of exactly the bytes; a record not smaller than the limit given is refused. Cut into games, each has the
     match length and all its lines, in order.''',
     ['inputs', 'histories'], 'all sequences of kinds of lines to a length, shapes of moves, sizes; all edits of one line of stored records; all interleavings of two validators',
     '''The tests of records cannot run here (a missing library, and a folder hiding the module), and shuffle lines at random.''',
     ['bglib/record/snowietxt.py'], [dict(name='LineValidator, Validator, chop', where='bglib/record/snowietxt.py')],
     'exhaustive enumeration of line sequences on the real code against a state machine, and of edits of stored records', TRUST + 'and the stand-in for tonic.lineparser.')

prop('C28', 'Pages in reStructuredText and Markdown: all of the text, however it came',
     '''A page in reStructuredText or Markdown is rendered to what the library makes of exactly the text it was given, in the order given, into however many
     pieces it was cut; rendering it, any number of times, changes nothing, text added after that is there the next time, and pages made at the same time do not show up in each other. Level of
     headings, title and encoding are those asked for.''',
     ['histories', 'configurations'], 'all histories of parsing one of 11 pieces and rendering, to a depth, on one and on two pages; all options',
     '''Tests check that the methods are there.''',
     ['bglib/doc/rst.py', 'bglib/doc/mkdn.py'], [dict(name='Formatter', where='bglib/doc/rst.py'), dict(name='Formatter', where='bglib/doc/mkdn.py')],
     'exhaustive enumeration of histories on the real formatters against the libraries applied to the whole text', TRUST + 'and docutils and markdown.')

prop('C29', 'Comparing pages: same just when they are; well-formed just when they are',
     '''The helpers that judge pages can be relied on. Two pages compare as the same whenever they differ in line ends between tags and words and in the order of attributes only, and as different
     whenever a tag, an attribute, a value, a letter or the place of one of these differs (blanks and line ends aside); the assertion for tests passes just then. A fragment is accepted just when it is well-formed XML (closed in order,
     attributes quoted and given once, letters escaped). Escaped text has no <, > or & of its own and reads back as the text.''',
     ['inputs'], 'all pairs of sequences of 2 of 25 tokens, all one-token edits of sequences of 3; all sequences of 2 of 51 tokens (a core: 4) for well-formedness; all texts of 4 of 15 letters',
     '''These helpers are what the tests of pages rest on: where they call different things the same, a test passes for nothing.''',
     ['bglib/doc/html.py'], [dict(name='escape, cmp_tuple, cmp, validate, HtmlTestCase', where='bglib/doc/html.py')],
     'exhaustive enumeration of token sequences and their edits on the real helpers, against a reader written here', TRUST)

prop('C30', 'The document type of pictures: what it declares fits, and every picture is valid',
     '''The document type which the library makes declares each kind of element once, with exactly the children, text and attributes that elements of that kind
     take: anything else given to an element is refused, and leaves it, and what was given, as they were. Kinds registered later count, the last
     under a name. The XML of every board, with any style sheet or none, painted or not, is well-formed, valid by that document type, and reads back
     with the very values and texts of the tree, whatever letters are in them.''',
     ['inputs', 'histories', 'configurations'], 'all pairs (a core: triples) of things given to each kind of element, all attributes of each; all short histories of registering kinds; all states of the game and piles, in all themes; awkward values in every text attribute',
     '''The two tests of the document type need the network (a web site that is gone, and a validator), and never run.''',
     ['bglib/image/base.py', 'bglib/image/css.py'], [dict(name='ElementFactory.make_dtd, BaseElement.append, apply, format', where='bglib/image/base.py')],
     'exhaustive enumeration of what elements are given, and of boards and sheets, on the real code against its own declarations, with a validating XML parser', TRUST + 'and the validating parser of the Java library.')

prop('C31', 'The tree of a page: nodes stand where they are taken, open and closed as asked',
     '''Pages are built with an editor: nodes are entered, appended, left and removed and text is written, by the wiki and by macros, in whatever order. Every node stands, after what
     was put there before, in the nearest open node that takes its kind (the page takes all; lists take items and lists, rows take cells, and so on), the nodes in
     between being closed by that; entering opens it, and appending does not. Leaving closes the nearest open node of the kinds named, with all inside, and nothing
     when none is open. Text is written into what is open, and runs on where it follows text. What is open of a kind, and how often, is told rightly. Visitors are shown every
     node once, around what it holds; the HTML has just these nodes, with all their attributes, escaped, and the texts, in that order. Editors and trees do not
     affect each other.''',
     ['histories', 'inputs'], 'all sequences of some 90 operations on 28 kinds of nodes to a length, of fewer operations to greater lengths; two trees in turn; attributes of every kind',
     '''The tests build three small trees and print them; which of the open nodes takes a new one, and what is closed by that, shows only in sequences.''',
     ['bglib/doc/doctree.py', 'bglib/doc/bgwiki.py', 'bglib/doc/macro.py'], [dict(name='Editor.append, enter, leave, append_text, remove; acceptables; Visitor, HtmlWriter', where='bglib/doc/doctree.py')],
     'exhaustive sequences of operations on the real Editor, in lock step with a model of the tree',
     TRUST + 'and the table of what each kind of node takes.')

prop('C32', 'The fuzzer of pages: all texts can come up, and its verdicts are the truth',
     '''A gene of the fuzzer stands for a text of so many letters out of those of its kind (wiki, reStructuredText, Markdown or plain). Every text of that length can come up, each as often as any other, and
     no other; the same choices give the same text, whenever it is asked for. Formatting a gene gives the formatter exactly that text, and reports success just when the formatter did not fail, keeping the page it
     made, and otherwise the very exception, and where it came from. Verifying says whether that page is well-formed. The shorter genes of a gene are all those
     with one letter left out, of the same kind; the gene stays as it is.''',
     ['schedules', 'histories', 'configurations'], 'all sequences of random choices to a length; all short histories of formatting and verifying with formatters which fail in each way; all genes to a length shortened',
     '''The tests draw one random letter, and try one formatter that fails and one that does not.''',
     ['bglib/doc/fuzzing.py', 'bglib/doc/bgwiki.py', 'bglib/doc/rst.py', 'bglib/doc/mkdn.py'], [dict(name='Gene', where='bglib/doc/fuzzing.py')],
     'exhaustive enumeration of the random choices (taken over by a scheduler) and of histories on the real code',
     TRUST + 'and that choices are made by randint, randrange or choice. fuzz_it needs fork, which Jython lacks; shorter_fails is unfinished (it uses names that do not exist).')
