#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []      # (property object, technique, level note) or (property object, None, reason)


def prop(id, title, statement, over, quant, why, files, mech, tech=None, note=None, na=None, **kw):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if kw.get('state'):
        anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in kw['state']]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                   anchors=anchors), tech, note, na))


AI = 'static analysis: path-sensitive abstract interpretation of the LLVM IR of the current source (finite abstract ' \
     'states, fixpoint), '

prop('C01', 'Plain output reproduces every document as well-formed JSON',
     'When the program prints a parsed document to something that is not a terminal, the text is exactly one JSON value with '
     'the structure of the document: every array item and every object member appears once and in order, with its own key and '
     'value, brackets matched, exactly one comma between siblings, one colon per member, and quotation marks around keys and '
     'string values only. This holds for every kind of value in every position (top level, array item, member value), for '
     'empty containers, and for any nesting depth and any number of items.',
     ['inputs', 'configurations'],
     'every document tree (any shape, depth and width, any kind of node in any position)',
     'tests compare no output at all; punctuation errors depend on combinations of kind, position, depth and sibling count '
     'that samples miss',
     ['src/simpleOutput.cpp', 'include/simpleOutput.hh', 'src/jsonPrimitive.cpp', 'src/jsonObjectEntry.cpp'],
     [('recursive writer', 'SimpleOutput::display / writeContainer / writeObjectEntry / writeKeyName in src/simpleOutput.cpp'),
      ('text of primitives', 'JSonPrimitive<T>::stringify in include/jsonPrimitive.hh and src/jsonPrimitive.cpp')],
     AI + 'a JSON-grammar monitor consumes every character written, over a lazily materialised document',
     'decides structure and punctuation for all trees; the text inside a string or number is the subject of other properties; '
     'absence of escaping is a known finding')

prop('C02', 'Parsing builds exactly the document denoted by the input, or fails',
     'From the sequence of JSON tokens of an input, the parser either builds exactly the denoted document (every object member '
     'and array item attached once, to the right container, with its own key and value and its container as parent; a repeated '
     'key replaces the earlier member and is warned about, or is an error in strict mode) or rejects the input with a parse '
     'error. A token that the grammar does not allow at that point is rejected, and no correct token sequence is, at any '
     'nesting depth and for any number of items.',
     ['inputs', 'configurations'],
     'every sequence of tokens (any depth and width), strict or lenient, keys kept in order or sorted',
     'grammar errors appear only for particular token sequences at particular nesting positions; tests parse two fixed arrays',
     ['src/streamConsumer.cpp', 'src/jsonObject.cpp', 'src/jsonArray.cpp', 'src/jsonContainer.cpp', 'include/jsonObject.hh'],
     [('recursive descent', 'StreamConsumer::read, readNext, readObject, readArray in src/streamConsumer.cpp'),
      ('attachment and lookup', 'JSonObject::push, contains, find, erase; JSonContainer::push; JSonElement::setParent')],
     AI + 'a pushdown JSON-grammar monitor is driven by a nondeterministic token source that replaces the lexer',
     'decides the token level; the lexer is the subject of C03')

prop('C03', 'Every token is read exactly, byte for byte',
     'The lexer consumes exactly the bytes of one token (blanks, control characters and bytes that are not ASCII before it are '
     'skipped; a byte read to find the end of a number or literal is handed back) and returns its exact value: the text between the quotes of a string '
     'with \\\\, \\" and \\/ reduced to the character, \\b \\f \\n \\r \\t kept as they are, and \\uXXXX replaced by the UTF-8 form of the code '
     'unit (kept as they are for surrogates, or always if unicode is to be ignored); the value of all the digits of a number, '
     'an integer without a fraction and a double with one; true, false or null. Literals that are not in lower case and '
     'unknown escapes are accepted with one warning in lenient mode and rejected in strict mode; every other malformed token '
     '(a stray character, a wrong hexadecimal digit, a number without digits or out of range) is reported as a parse error and '
     'by no other exception, and no well-formed token is.',
     ['inputs', 'configurations'],
     'every byte sequence, every token length, strict or lenient, decoding unicode or not',
     'there is no lexer test beyond two fixed arrays; errors concern single byte values, token lengths, ends of input and '
     'combinations of options',
     ['src/streamConsumer.cpp', 'src/unicode.cpp', 'include/unicode.hpp'],
     [('lexer', 'StreamConsumer::consumeToken, consumeString, consumeEscapedChar, consumeBool, consumeNumber, consumeNull'),
      ('code units', 'StreamConsumer::appendUnicode, hexbyte')],
     AI + 'a byte-level token monitor over a nondeterministic byte source with a ghost text widened together with the buffers; '
     'finite-domain evaluation of the digit and code unit decoders',
     'decides the lexical level for tokens of any length; the numeric conversion itself is the C library\'s')

prop('C08', 'The command line selects exactly the documented behaviour',
     'Each argument before "--" is interpreted in order and independently of all others: -W, --ascii, --color, --color=always, '
     '--color=never, --diff, --compress and --keep-order set their own flag and nothing else (a later one wins, all flags start '
     'at their documented defaults: strict, unicode, colour, sorted, no diff, not compressed); --help, -h, --version and -v print their '
     'text and stop without reading any input; --diff-cmd takes the following arguments up to ";" unchanged as the words of the external '
     'command; any other argument with a leading dash, an unknown --color mode, a second --diff-cmd, a file that '
     'cannot be opened and a file named twice are errors; every other argument becomes an input under its own name, in the '
     'order given. Everything after "--" is joined by single blanks into one more input. Without inputs the standard input '
     'is read. A diff needs two or three inputs. No argument is ignored.',
     ['inputs', 'configurations'],
     'every sequence of arguments of any length, in any combination and order, with files that can or cannot be opened',
     'no test touches option parsing, and errors concern combinations and orders of arguments',
     ['src/params.cpp', 'include/params.hh', 'include/fifoMap.hpp', 'src/diffCmd.cpp'],
     [('interpretation', 'Params::Params, Params::read, Params::getInputs in src/params.cpp'),
      ('inputs in order', 'fifoMap::operator[], fifoMap::contains in include/fifoMap.hpp'),
      ('words of the command', 'DiffCmd::add in src/diffCmd.cpp')],
     AI + 'Params::read over an unbounded nondeterministic argument list against a ghost interpreter compared after every argument',
     'decides the interpretation for argument lists of any length; the ordered map of inputs is decided for up to 3 (thorough: 4) entries '
     'with arbitrary keys')

prop('C22', 'Every input is read, displayed and reported as documented',
     'Once the command line is accepted and asks for no external command, the inputs are read one by one, each once, in the order given and with the options of the '
     'command line, up to the first one that is malformed or empty; nothing after it is read. Every document that was read is shown exactly '
     'once, in order: printed to the standard output when that is not a terminal or --compress is given, shown under its '
     'name by the interactive view otherwise; with --diff, the comparison view gets exactly all documents and names in order, and '
     'nothing is shown if an input is malformed. A malformed input is reported on the error output with the names of program and '
     'input, kind, line, column, reason and the text before it; every warning of every document read is reported the same way, '
     'once, in order (left open when a comparison is abandoned). A wrong command line is reported with its reason and the usage, '
     'reads nothing and gives a failure status; otherwise the status is 0 if all inputs are read. Readers, views and options are released exactly once and not '
     'used afterwards, no exception ends the program, and the locale is set before the first input is read exactly if unicode is not ignored.',
     ['inputs', 'configurations', 'histories'],
     'one to three inputs (thorough: four), each read with zero to two warnings, empty, ending prematurely or malformed with any '
     'kind of error, under every combination of options, on a terminal or not',
     'no test runs the program; errors concern combinations of options, the order of good and malformed inputs and their warnings',
     ['src/main.cpp', 'src/warning.cpp', 'include/warning.hh', 'src/jsonException.cpp'],
     [('driver', 'main, run, runStdout, runDiff, readOneFile, readFile in src/main.cpp'),
      ('reports', 'displayException in src/main.cpp; Warning::Warning, Warning::getType in src/warning.cpp')],
     AI + 'an event monitor over readers, displays, messages and releases under a nondeterministic environment',
     'decides the driver of the program for up to 3 (thorough: 4) inputs; reader, views and printer are events here')

prop('C07', 'An external diff gets every document in its own file and leaves nothing behind',
     'With --diff-cmd, every input is read once, in order; when all are read, each document has been written once, completely, to a new '
     'file of its own that no other input and no other process shares, and the command is started once in a child process, '
     'with its words in order, every word {} replaced by the files of all inputs in order and every other word unchanged. The program '
     'waits until the command has ended, by itself or killed, and not longer, and then removes every file it created '
     'exactly once and no other file, on every path: also if a later input is malformed or empty, if a file cannot '
     'be created or no process can be started; the command is not started then. A child in which the command cannot be '
     'started ends at once with a failure status and does nothing else of the program. Malformed inputs and warnings are '
     'reported as in C22, documents and the words of the command are released exactly once.',
     ['inputs', 'configurations', 'fault_sequences'],
     'one to three inputs (thorough: four), each good (with warnings) or not, any outcome of the creation of files and processes, '
     'a command of up to three words (thorough: four) with {} anywhere that fails to start, ends or is killed',
     'needs failing system calls, killed children and inputs whose names are alike; no test runs the external diff',
     ['src/main.cpp', 'src/diffCmd.cpp', 'include/diffCmd.hh'],
     [('external diff', 'runExternalDiff, doRunExternalDiff, getOutputFile in src/main.cpp'),
      ('words of the command', 'DiffCmd::computeArgv, DiffCmd::~DiffCmd in src/diffCmd.cpp')],
     AI + 'an event monitor over files, processes, readers and messages under a nondeterministic operating system',
     'decides the program up to the bounds in the quantifier; assumes that mkstemp creates new files')

prop('C10', 'Errors and warnings are reported at the position of the last byte read',
     'The line, column and text reported for every parse error and every warning are those of the last byte read of the input when it was '
     'found: the line is one more than the number of line breaks (a line feed, a carriage return, or both together) before the line of '
     'that byte, a break being part of the line it ends; the column is the number of bytes of that line read so far, its break not '
     'counted; the text is the last of these bytes (44 or 45 of them when there are more). A byte that is handed back to the input after a '
     'number or a boolean is not counted until it is read again, and the end of the input is not a byte.',
     ['inputs', 'histories'],
     'every sequence of bytes read and handed back, of any length, and every token at any point of it',
     'depends on the length of lines, on what ends a token and on the mix of line breaks before it; the tests compare a few short inputs',
     ['include/wrappedBuffer.hpp', 'src/linearHistory.cpp', 'src/streamConsumer.cpp', 'src/jsonException.cpp'],
     [('line history', 'WrappedBuffer<char, 45> in include/wrappedBuffer.hpp, LinearHistory in src/linearHistory.cpp'),
      ('what is put into it', 'consumeToken, consumeString, consumeEscapedChar, consumeBool, consumeNumber, consumeNull in src/streamConsumer.cpp'),
      ('what errors report', 'JsonException::currentLine, currentCol, getHistory and the constructors in src/jsonException.cpp')],
     AI + 'a ghost line for the ring, a monitor of bytes read against bytes put into the history for the tokenizer',
     'decides all reachable states of the ring with symbolic characters, lines and columns, and tokens of any length')

prop('C19', 'Members of sorted objects are in the order of their keys',
     'In the class of objects used unless --keep-order is given, attaching a member to an object whose members are in ascending order of '
     'their keys (compared byte by byte, bytes taken as unsigned, the whole key counting) puts it where that order is kept. Exactly one '
     'member is added, with the key and the value given and the object as its parent, and the members that were there stay where they are.',
     ['inputs', 'histories'],
     'every object of any number of members, all keys',
     'depends on all keys of an object and on the order in which they come; the tests do not look at the order of members',
     ['src/jsonObject.cpp', 'src/jsonObjectEntry.cpp'],
     [('insertion of a member', 'JSonSortedObject::push in src/jsonObject.cpp'),
      ('comparison of keys', 'JSonObjectEntry::operator< in src/jsonObjectEntry.cpp')],
     AI + 'a lazily materialised list of members, comparisons of keys recorded as facts and required at the insertion',
     'decides lists of any length: only the neighbours of the place of insertion matter')

prop('C16', 'Texts are drawn with the attributes of the element they belong to',
     'In the interactive views the flags of an element say that it is selected exactly if it is the selection (comparison: of the window '
     'being drawn; there also the value of the entry that is selected), that it is found exactly if it is among the results '
     'of the search (comparison: in the window being drawn), which kind of value it is (for an entry: its value), and in a comparison what '
     'the comparison says of the element (added if it does not know it). The functions that write a text or a character with such flags '
     'at a place (or where the last text ended) write it exactly once and unchanged, in the window being drawn, at that place less the lines '
     'scrolled away, and not at all if the line is scrolled away. It is reversed and bold exactly if '
     'selected, has the colour of a result if found, else that of its kind if colours are used; afterwards no attribute stays on. In a comparison '
     'an element that differs, and no other, gets one mark of its difference (++, !!, --), in its colour, at the start of the same row.',
     ['inputs', 'histories'],
     'every kind of element in every kind of parent, any selection, any list of results, all flags, any place and scroll position',
     'no test draws anything; errors concern elements that are selected, found, different and scrolled away at the same time',
     ['src/curseSimpleOutput.cpp', 'src/curseSplitOutput.cpp', 'src/outputFlag.cpp'],
     [('flags', 'CurseSimpleOutput::getFlag, CurseSplitOutput::getFlag; OutputFlag in src/outputFlag.cpp'),
      ('writing', 'write (3 overloads) of CurseSimpleOutput and CurseSplitOutput, CurseSplitOutput::displayDiffOp')],
     AI + 'a model of the attributes and cursors of ncurses windows and a monitor of everything printed',
     'decides these functions for all inputs; an element is a result of a search once at most; ncurses behaves as documented')

prop('C17', 'Keys and signals have the effect they are meant to have',
     'While no search text is typed, the capital names of the keys typed in the interactive views, joined by -, form a sequence up to the first '
     'one that does not start with ^; pauses do not matter. Each complete sequence is acted upon once: Q ends the view, K/KEY_UP '
     'moves up, J/KEY_DOWN down, KEY_PPAGE and KEY_NPAGE to the previous and next sibling, L/KEY_RIGHT expands, H/KEY_LEFT collapses, / starts a '
     'search, N goes to the next result, ^W-W to the next window, starting again after the last, ^W-L/^W-KEY_RIGHT and ^W-H/^W-KEY_LEFT one '
     'window further or back without starting again; other sequences do nothing. What an action asks for is done: the next keys are '
     'awaited, or the view is ended, or it is drawn, again until it is completely drawn, before the next keys are awaited. SIGINT and '
     'SIGTERM end the view as soon as no key is typed for a moment; SIGWINCH takes over the size of the terminal and draws the '
     'view; this also holds for later signals.',
     ['inputs', 'histories', 'schedules'],
     'every sequence of keys, with pauses and signals in between, and whatever the actions ask for',
     'no test types a key or sends a signal; errors concern sequences of keys, pauses within them and signals at certain moments',
     ['src/curseOutput.cpp', 'src/inputSequence.cpp'],
     [('keys', 'InputSequence::read, CurseOutput::readInput, CurseOutput::evalKey'),
      ('views', 'CurseOutput::loop'),
      ('signals', 'CurseOutput::init, _resizeFnc, CurseOutput::onsig')],
     AI + 'the keyboard, pauses, signals and actions are nondeterministic events; a monitor decides what has to happen next',
     'signals arrive while keys are awaited (not in the middle of drawing); up to three (thorough: four) keys and pauses, which reach every '
     'state of the loops')

prop('C15', 'A search finds every match once; the next result follows the selection',
     'In the interactive views, once a search text is confirmed, the results of every window are exactly: the members whose key or simple '
     'value (text, number, true, false, null) matches, and the simple values outside of members that match, in the order of the document, '
     'collapsed or not; the results of the search before are forgotten. If the prompt is aborted they are kept; an empty text '
     'finds nothing. Searching itself does not move the selection; then, and with N, the view goes to the next result: the '
     'first one after the selection in the order of the document, or, if there is none, the very first result with the message '
     '"Search hit BOTTOM, continuing at TOP". It becomes the selection and every container around it is expanded. Without results the message '
     '"Pattern not found" is shown and the selection stays. A message is only written over a completely drawn view.',
     ['inputs', 'histories'],
     'every document, every set of matching elements, any selection and any results of an earlier search, in both views and each window',
     'no test searches; errors concern matches in collapsed or nested places, the last result, several windows and repeated searches',
     ['src/curseSimpleOutput.cpp', 'src/curseSplitOutput.cpp', 'src/curseOutput.cpp'],
     [('search', 'initSearch and search of CurseSimpleOutput and CurseSplitOutput'),
      ('next result', 'nextResult, jumpToNextSearch of both, CurseOutput::unfold'),
      ('messages', 'CurseOutput::redraw(const std::string &)')],
     AI + 'recursive calls are replaced by a contract that is checked for every kind of element; which elements match and which are results is nondeterministic',
     'documents as they are read (C02); the order of the elements tested is compared with the lazily materialised document; a comparison has a selection '
     'in the selected window; containers around a result up to depth six')

prop('C13', 'A search text is read as typed and decides exactly what matches',
     'At the search prompt typed characters are appended and shown, Backspace (127, 8 or the key) deletes the last character (all bytes of a '
     'UTF-8 character), Escape gives up and Enter confirms, after which keys are awaited with pauses again. In the text \\uXXXX with four hex digits '
     'stands for the character, except with --ascii. Leading blanks and tabs are dropped. The pattern goes up to the first / that is not '
     'escaped; \\/ means /, other pairs with a backslash are kept. After the / stand flags: i ignores (ASCII) case, w finds whole words (between blanks or '
     'ends of the text), f whole texts, e takes the pattern as an ECMAScript regular expression (an invalid one matches nothing), b, n, s, o match only booleans, '
     'numbers, strings, member keys (the last one counts); other letters mean nothing. Without e a text matches when it contains the pattern, '
     'a tab in it counting as a blank; an element is matched by its own text and kind.',
     ['inputs'],
     'every search text up to the bound (each character arbitrary), every element text, kind and flag combination; every sequence of keys up to the bound',
     'no test makes a search pattern; errors concern combinations of flags, escapes, ends of texts and control characters',
     ['src/searchPattern.cpp', 'src/curseOutput.cpp', 'src/streamConsumer.cpp', 'src/jsonElement.cpp'],
     [('pattern and flags', 'SearchPattern::SearchPattern, evalFlags, operator(), match'),
      ('prompt', 'CurseOutput::inputSearch()'),
      ('escapes', 'StreamConsumer::extractUnicode'),
      ('elements', 'JSonElement::match')],
     AI + 'the pattern, flags and type kept are compared with a reference reading of the same symbolic characters on every path; the outcome of library '
     'searches is nondeterministic and the answer compared with the searches made',
     'search texts of up to four (thorough five) arbitrary characters, and of one character, / and three flags; up to four (five) keys; a backslash at the '
     'very end, and control characters typed, are not specified; the regular expression library is trusted')

prop('C18', 'The keys move the selection to the right element and keep both windows in step',
     'In the interactive views Up and Down select the neighbours found by drawing (in the plain view Down scrolls by two lines while the next one is not '
     'drawn yet). Page Up selects the previous sibling, or else what encloses the element (its member if it is the value of one); at the document itself nothing '
     'happens. Page Down selects the next sibling of it or of the nearest element around it that has one, or nothing new. Right expands a '
     'collapsed container, else selects the first child of a non-empty one. Left collapses an expanded, non-empty container; otherwise it selects what encloses the element. '
     'Nothing else is selected, collapsed or scrolled. In a comparison the other window selects the counterpart (or nothing, but remembers its last selection), '
     'and collapsing and expanding apply to the counterpart too. Changing the window activates the next (around the end if asked to) or previous one; '
     'if that has no selection its last one is selected again and the other window follows. The view is drawn again after every change.',
     ['inputs', 'histories'],
     'every document shape up to the bound, every selection and collapsing, any counterpart, both views and windows',
     'no test moves a selection; errors concern first and last elements, empty or collapsed containers, members, and elements without counterpart',
     ['src/curseSimpleOutput.cpp', 'src/curseSplitOutput.cpp', 'src/jsonElement.cpp'],
     [('actions', 'selectUp, selectDown, selectPUp, selectPDown, expandSelection, collapseSelection of both views'),
      ('siblings', 'JSonElement::findPrev, findNext'),
      ('comparison', 'CurseSplitOutput::setSelection, changeWindow')],
     AI + 'the state after every action is compared with a reference on the shape of the document',
     'documents of up to four (thorough five) elements, not counting members; the neighbours found by drawing are given')

prop('C14', 'The views show the right lines of the document and find the neighbours',
     'Drawing a view comes to an end. Every row then shows the line of the document that belongs there, whole: a container from its opening to its closing '
     'bracket, or in one line if it is collapsed or the empty value of a member; lines of the same depth begin in the same column, deeper ones not before it. '
     'The selected element, and nothing else, is highlighted and in view, and the view was scrolled no further than that takes. The name of the document is '
     'shown in the first row and nothing is drawn over it. What Up and Down select is the visible element before and after the selection (itself at the '
     'ends), and the plain view scrolls with Down while what follows is not drawn. In a comparison an element that only one document has takes its rows in '
     'both windows, marked in the one that lacks it, so that counterparts are next to each other. Drawing does not change the selection.',
     ['inputs', 'histories'],
     'every document shape up to the bound, every selection and collapsing, several heights of the view and scrolled lines; pairs of documents that are alike '
     'or of which one has an element more',
     'no test draws anything; errors need a particular shape, selection and place of the edge of the view',
     ['src/curseSimpleOutput.cpp', 'src/curseSplitOutput.cpp', 'src/curseOutput.cpp'],
     [('plain view', 'CurseSimpleOutput::redraw, writeContent, writeContainer, writeKey, checkSelection'),
      ('comparison', 'CurseSplitOutput::redraw, redrawOneItemToWorkingWin, isAdded, writeObjectEntry, checkSelection')],
     AI + 'what is printed in every row is compared with the lines of the document',
     'documents of up to four (thorough five) elements, of the largest ones a part; texts of one line; views of at least four lines; the element that only one '
     'document has is not the only one of the value of a member')

prop('C20', 'A comparison pairs the elements of two documents with the fewest changes',
     'Comparing two documents ends normally, whatever they contain, and frees what it allocated. Counterparts are mutual, in the same order in both documents, '
     'inside of containers that are counterparts themselves, and chosen so that the changes are fewest: an element that only one document has is one change, so '
     'is a simple value that differs or a member with another name; a member of the same name changes as its value does; containers cost nothing if they have '
     'fewer changes inside than the longer one has elements, or are both empty (then they are counterparts), otherwise the changes inside; a container in the place of something else costs its '
     'length and one more. A simple value or a member is marked as unchanged exactly if it has a counterpart without a change, and a changed simple value of the '
     'same kind (text, number, boolean, null) as changed. The distance of two texts is the smallest number of characters to add, remove or replace, and what they have in common the share of the '
     'longer text that is left. Counting works for containers of any size.',
     ['inputs'],
     'every pair of document shapes up to the bound, with every answer to which values, kinds and names are alike; texts up to the bound with every pattern of equal characters',
     'the tests compare no documents; what is wrong shows only in particular combinations',
     ['src/levenshtein.cpp', 'include/levenshteinMatrice.hpp', 'src/jsonPrimitive.cpp'],
     [('comparison', 'LevenshteinMatrice_base::Builder::build, LevenshteinMatrice::build, shortestPath, addRoot, getEquivalence'),
      ('texts', 'levenshtein, levenshteinPercent')],
     AI + 'counterparts and marks are compared with the alignments that a reference allows under the same answers',
     'all pairs of documents of up to three elements, not counting members, a part of those of four; texts of up to three (thorough four) characters; '
     'for containers of any size only the type of the cells of the table')

prop('C12', 'Texts take the number of lines that their characters fill',
     'The length of the text of an element is its number of characters in the encoding of the user, or its number of bytes if it is not valid in it, whenever it is '
     'asked for, and finding it needs no memory on the stack that grows with the text and writes past no buffer. A text of that length takes the '
     'smallest number of lines of the given width that hold it, after the column where it begins. In the interactive views what is written as a text, a character or an element '
     'reports the lines that it takes (one if it is scrolled away), and a member with a value in its line moves the cursor on by the lines of its name, separator and value; '
     'every text is written with its own length.',
     ['inputs'],
     'texts of any length and encoding, all widths and columns',
     'tests compute no layout; an error shows only for texts that end at the edge of the view, or with bytes that are no characters',
     ['src/jsonElement.cpp', 'src/curseOutput.cpp', 'src/curseSimpleOutput.cpp', 'src/curseSplitOutput.cpp'],
     [('lengths', 'JSonElement::lazystrlen, strlen'), ('lines', 'CurseOutput::getNbLines'),
      ('writing', 'write, writeKey of CurseSimpleOutput and CurseSplitOutput; CurseOutput::write')],
     AI + 'conversions of texts are nondeterministic and their buffers are compared with what is written; lengths and lines are compared as expressions of the arguments',
     'expressions are compared for sampled values of their leaves, the number of lines for a grid of constant lengths and widths; the lengths of texts in documents of up to three elements')

prop('C04', 'Plain output is laid out as asked',
     'When the program prints a document to something that is not a terminal and compression is asked for (--compress), no white space is written apart from that in the texts of the document. '
     'Otherwise every simple value, every member and every bracket of a container has a line of its own (the opening bracket of the value of a member the one after '
     'the name of the member), which is ended, is indented by four spaces for every container that the element is in, has no other gap, and there are no empty lines. An element is '
     'laid out in the same way whatever was written before it.',
     ['inputs', 'configurations'],
     'documents of any shape, every kind of value in every position, any depth',
     'tests compare no output; depth and separators go wrong only after particular elements or at particular depths',
     ['src/simpleOutput.cpp', 'include/simpleOutput.hh', 'include/config.h'],
     [('writer', 'SimpleOutput::display, write, writeContainer, writeObjectEntry, writePrimitive, getIndent')],
     AI + 'a monitor follows the lines that are written and their indentation; recursive calls are replaced by the contract that is being proved, and analysed as contexts of their own',
     'depth as an expression where it is one, otherwise at depths of 0, 1, 2, 5, 40 and 300')

prop('C21', 'The terminal is set up before use and given back once; no message is lost',
     'A view is drawn on, and takes its keys from, a terminal even if the standard input or output is something else (the controlling terminal is opened then). When '
     'no terminal can be opened or its type is unknown, the program ends with a message and a status that is not zero, it neither draws nor waits for keys. While a view is shown, '
     'keys take effect at once, are not printed, arrow keys are translated, waiting for a key ends after a while, every colour that texts are drawn with is '
     'defined if colours are wanted. In a comparison every document has a frame and a window inside it, side by side, and messages the last line; these and '
     'the size that is used for drawing follow the size of the terminal when that changes. Whatever happens (also if the comparison fails), the terminal is given back exactly once '
     'when a view ends, after the last drawing; everything that was opened is closed once and not used afterwards, not even by a signal that arrives later. No message is written while a '
     'view is on the screen. No member of a view is used before it was given a value.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'redirections of the standard streams, failures to open the terminal, numbers of documents, sizes of the terminal, results of reading',
     'tests open no terminal; failures, redirections and changes of the size need a terminal that misbehaves at one moment',
     ['src/curseOutput.cpp', 'src/curseSimpleOutput.cpp', 'src/curseSplitOutput.cpp', 'src/main.cpp'],
     [('set-up', 'CurseOutput::init, getScreenSizeUnsafe, getScreenSize'), ('windows', 'CurseSplitOutput::run, onResizeHandler, destroyAllSubWin'),
      ('end', 'shutdown, destructors, _resizeFnc'), ('program', 'main, run, runDiff')],
     AI + 'typestate: the calls of the terminal library and of the streams drive an automaton (terminal, windows, streams) over the whole life of a view and of the program',
     'the terminal library is modelled (documented behaviour); windows can always be made')

#NEXT


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, *_ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, tech, note, reason in P:
        i = p['id']
        if reason:
            na.append(dict(property=i, reason=reason))
        else:
            checks.append(dict(property=i, quick_cmd='python3 jsa/run.py %s quick' % i,
                               thorough_cmd='python3 jsa/run.py %s thorough' % i, technique=tech, level='other',
                               level_note=note))
    m = dict(version=1, setup_cmd='python3 jsa/build.py ssa', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import subprocess
    code = ("import json,jsonschema;s=json.load(open('/root/.vp/PROPERTIES.schema.json'));"
            "[jsonschema.validate(json.loads(l),s) for l in open('%s/properties.jsonl')];"
            "jsonschema.validate(json.load(open('%s/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')));"
            "print('valid')" % (HERE, HERE))
    subprocess.run(['python3-vt', '-c', code])


if __name__ == '__main__':
    main()
