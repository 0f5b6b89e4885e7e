"""The list of properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json from it."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
PROPS = []


def prop(ident, title, statement, over, text, why, files, mechanism, note, state=(), observe=()):
    PROPS.append(dict(id=ident, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, note=note, state=list(state), observe=list(observe)))


EDITS = 'all sequences of tree-editing calls on trees built by the API or read from a file'

prop('T01', 'Every edit leaves a well-formed tree and changes only what it should',
     'After any sequence of creating nodes, re-attaching, moving, removing, flattening and taking over nodes from another tree, '
     'the words of a tree are numbered 1..n in word order, every word has exactly one parent inside the same tree, no word dominates itself, '
     'and the children, descendants, parent and root answers agree with each other. '
     'Each edit has exactly its documented effect on words and attachments (e.g. re-attaching changes one parent only, stealing nodes '
     'appends them in order to the new tree, re-attaches orphans to the respective root and renumbers the old tree), and no other tree changes.',
     ['histories', 'inputs'], EDITS,
     'Unit tests edit a handful of fixed trees; the invariant ranges over every tree shape and every sequence of edits.',
     ['udapi/core/node.py', 'udapi/core/root.py', 'udapi/block/read/conllu.py'],
     ['parent setter with its cycle check', 'Node.remove / _shift_before_ord renumbering', 'Root.steal_nodes', 'Root.flatten'],
     'Exhaustive over all trees with up to 4 (thorough: 5) words and every single edit, plus random histories on trees of up to 20 words; '
     'states judged by TLC with the actions of UdTree.tla.')
prop('T02', 'Edits that would break the tree are refused and change nothing',
     'Attaching a word to itself, to one of its descendants, to an empty node, to a node of another tree or to nothing, giving the technical root or an '
     'empty node a parent, moving a word (with its subtree) relative to its own descendant, placing anything before the technical root, moving the technical root, '
     'and stealing nodes of several trees at once all raise an exception, and afterwards every tree is exactly as before. '
     'With the option to skip such moves they are silently ignored, and assigning the parent a node already has is a no-op.',
     ['histories', 'inputs'], 'all trees and all pairs of nodes, reached by arbitrary previous edits',
     'Tests try two or three cycles on one tree and do not look at the state after the refusal.',
     ['udapi/core/node.py', 'udapi/core/root.py'], ['parent setter', 'CycleError', 'shift_* argument checks', 'Root.shift', 'EmptyNode.parent'],
     'Exhaustive over all (tree, node, target) combinations up to 3 words + 1 empty node (thorough: 4+1) and random histories with a high share of illegal calls.')
prop('T03', 'Moving a word puts exactly the requested words in the requested place',
     'Moving a word before or after another word or its whole subtree places the word together with all its descendants (or the word alone when asked) '
     'immediately at that place, keeps the relative order of the moved words and of all other words, changes no attachment, and renumbers all words consecutively. '
     'This holds for any tree, also when subtrees are non-projective and interleave.',
     ['inputs', 'histories'], 'all trees, all nodes, all four kinds of moves with all options, and sequences of them',
     'The tests do a few dozen moves on one small tree; the index arithmetic has separate paths for single nodes, contiguous and gappy subtrees.',
     ['udapi/core/node.py'], ['_shift_before_ord', 'shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree'],
     'Exhaustive over all trees up to 4 words (thorough: 5) with every move and option; random sequences of moves on up to 18 words.')
prop('T04', 'Removing a word removes exactly what was asked for',
     'Removing a word deletes it with all its descendants, or, when re-hanging is asked for, deletes just the word and attaches its children to its parent; '
     'all other words keep their attachments and order and are renumbered consecutively. '
     'No multi-word token, enhanced dependency or empty node refers to a removed word afterwards: dependencies on it disappear, a token shrinks (and vanishes '
     'when fewer than two of its words are left), and empty nodes stay behind the closest remaining word.',
     ['inputs', 'histories'], 'all trees with tokens, empty nodes and enhanced dependencies, all words, all removal modes, and sequences of edits',
     'Tests remove a few nodes from one tree and never with tokens, enhanced dependencies and empty nodes together.',
     ['udapi/core/node.py', 'udapi/core/root.py'], ['Node.remove', '_forget_removed_words', '_reorder_empty_nodes'],
     'Exhaustive over trees up to 4 words (thorough: 5) and trees of 3 words with a token and an empty node; random histories on rich trees.')
prop('T05', 'Empty nodes keep unique ordered IDs and their place in the sentence',
     'An empty node created before or after a word gets an ID a.b directly at that place with the first free b, for any number of empty nodes at one place; '
     'IDs are unique and the list of empty nodes is sorted by them, and the combined list of words and empty nodes follows that order. '
     'When words are moved or removed, every empty node stays behind the closest preceding word that was not moved or removed, in the same relative order, '
     'and removing an empty node closes the gap among those that follow the same word and changes nothing else.',
     ['inputs', 'histories'], 'all trees with empty nodes, including more than nine at one place, and all edit sequences',
     'Tests use at most a few empty nodes; two-digit minors, merging places and removal interplay need long histories.',
     ['udapi/core/node.py', 'udapi/core/root.py'], ['create_empty_child', 'OrdTuple', '_anchor_empty_nodes', '_reorder_empty_nodes', 'EmptyNode.remove'],
     'Exhaustive over trees up to 3 words with 1 (thorough: 2) empty nodes; random histories crowding up to 14 empty nodes at one place.')
prop('T06', 'Enhanced dependencies follow their nodes',
     'Enhanced dependencies, whether set as a list of node references or as text with IDs or read from a file, always refer to the nodes they referred to '
     'when set: after words or empty nodes are moved, inserted or removed, both the list and the text form name the same heads by their current IDs and the same relations. '
     'Dependencies on a removed node disappear and no others do; an emptied list is written as an underscore.',
     ['histories', 'inputs'], 'all trees with empty nodes, all dependency lists (also to the root, to empty nodes and with several colons in the relation), all edit sequences',
     'Tests check two fixed examples; the text is parsed lazily, so the result depends on the order of accesses and edits.',
     ['udapi/core/node.py', 'udapi/core/root.py'], ['deps / raw_deps properties', '_bind_deps', '_forget_removed_words'],
     'Exhaustive over 2-word trees with an empty node and all single-head dependency maps; random histories mixing both ways of setting with all edits.')
prop('T07', 'Multi-word tokens and words agree with each other',
     'Every word belongs to at most one multi-word token, a token lists its words in word order and each of them refers back to it; creating a token dissolves earlier tokens of its words '
     'and moves the no-space-after flag of its last word to the token. '
     'While the words of each token stay next to each other, the list of surface tokens names every token once at its first word and every other word once, in order, '
     'and the token\'s range runs from its first to its last word. '
     'Tokens survive moves of their words, follow them whole into another tree, and disappear when removed without touching words.',
     ['histories', 'inputs'], 'all trees with multi-word tokens and all sequences of edits that keep the words of each token adjacent',
     'Tests only read trees that already contain tokens; the two-way links are maintained by many separate edits.',
     ['udapi/core/mwt.py', 'udapi/core/root.py', 'udapi/core/node.py'],
     ['Root.create_multiword_token', 'MWT.remove', 'Root.token_descendants', 'Root._sort_mwt_words', 'Root.steal_nodes'],
     'Exhaustive over trees of up to 3 words with a token (thorough: 4); random histories with token edits, moves, removals, steals.')
prop('T08', 'Tree queries answer what the tree says',
     'For every node the children, siblings and descendants (in word order, also including the node itself or restricted to preceding or following nodes), '
     'the ancestor test, leaf test, previous and next word, precedence, depth, edge direction and length, non-projectivity, gap membership, neighbour attributes and '
     'the smallest connected subtree containing given nodes are exactly those defined by the parents and the word order. '
     'Asking never changes the tree.',
     ['inputs', 'histories'], 'all trees and all nodes or combinations of up to five nodes, in states reached by arbitrary edits',
     'Tests compare a few answers on one or two trees.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     ['ListOfNodes', 'Node.descendants / children / siblings', 'is_nonprojective', 'is_nonprojective_gap', 'find_minimal_common_treelet', 'get_attrs'],
     'Exhaustive over all trees up to 4 words (thorough: 5) with every query; random trees up to 16 words after random edits.')

prop('A01', 'Attribute mappings and their text form always agree',
     'The attributes of a word (FEATS, MISC), of a multi-word token (MISC) and of a mention can be read and written both as a mapping and as text, in any order: '
     'both views always describe the same attributes, a text is returned as it was assigned until an attribute changes and afterwards sorted by name ignoring case, '
     'an attribute set to nothing or deleted disappears while no other one changes, and copies are independent. '
     'Setting the universal or the specific part of a dependency relation keeps the other part.',
     ['histories', 'inputs'], 'all sequences of reads and writes through either view, on all places that hold such mappings, with flags without value and values containing separators',
     'Both views are kept lazily and refreshed on demand, so the result depends on the order of reads and writes; tests use a few fixed orders.',
     ['udapi/core/dualdict.py', 'udapi/core/feats.py', 'udapi/core/coref.py', 'udapi/core/node.py', 'udapi/core/mwt.py'],
     ['DualDict lazy text/mapping', 'OtherDualDict', 'Node.feats/misc setters', 'udeprel/sdeprel setters', 'get_attrs'],
     'Exhaustive over all sequences of 3 (thorough: 4) calls from a small alphabet on seven kinds of mappings, model-checked against a model of the lazy representation; random histories of up to 14 calls on two mappings.')
prop('F01', 'CoNLL-U files survive reading and writing',
     'Reading a valid CoNLL-U file (also compressed, with a byte order mark, or with surplus blank lines) yields a document with exactly its bundles, trees, words, attachments, empty nodes, multi-word tokens, '
     'sentence IDs, zones, texts, document and paragraph starts, JSON annotations and comments; only a no-space flag on words inside a token moves to the token. '
     'Writing a document prints exactly this content: comments in their original order with missing standard ones added in their standard places, the sentence text as stored or else composed from the tokens, '
     'empty sentences as one artificial word, and nothing but what the options switch off is left out. '
     'The same holds for documents built through the API, and what was written reads back the same.',
     ['inputs', 'configs'], 'all files of one or more trees with any order of comments, tokens, empty nodes (more than nine at one place, before the first word), zones, unusual characters, and all writer options',
     'Tests compare two or three sample files; the comment placeholders, lazy columns and token handling interact in ways a sample does not reach.',
     ['udapi/block/read/conllu.py', 'udapi/block/write/conllu.py', 'udapi/core/root.py', 'udapi/core/basereader.py', 'udapi/core/document.py'],
     ['read_tree_from_lines', 'parse_comment_line', 'write.Conllu.process_tree comment placeholders', 'compute_text', 'Empty=Yes trick'],
     'Exhaustive over all sequences of up to 3 (thorough: 4) comment lines of 11 kinds and all small bodies with a token and empty nodes; random files of up to 20 trees with 14 words in 13 input modes, random API-built documents.')
prop('F02', 'Damaged CoNLL-U attachments are repaired minimally or refused',
     'Reading a sentence whose HEAD column is out of range or no number fails with an exception, and so does one with a cycle unless fixing cycles is switched on. '
     'With it, exactly one word of each cycle is attached to the root and every other word keeps its HEAD, so that the result is a tree over all words. '
     'An underscore as HEAD attaches the word to the root and missing columns are filled with underscores, but both are refused in strict mode.',
     ['inputs', 'configs'], 'all HEAD columns and column counts, strict or not, with or without fixing cycles, in any position in the file',
     'Tests contain no damaged file; cycles of several lengths, several cycles and their order matter.',
     ['udapi/block/read/conllu.py'], ['parents resolution in read_tree_from_lines', 'fix_cycles', 'strict', 'empty_parent'],
     'Exhaustive over all HEAD columns (also out of range and underscore) up to 3 words (thorough: 4) with all options; random columns up to 14 words.')

prop('I01', 'Bundles, zones and sentence IDs stay consistent under every edit',
     'After any sequence of creating and removing bundles and trees, renaming bundles, changing zones and setting sentence IDs, bundles are numbered by their position, '
     'zones within a bundle differ and are valid, the sentence ID of every tree is the ID of its bundle, followed by a slash and the zone unless the zone is empty, and '
     'addresses of all nodes and tokens are that ID, a hash sign and their number. An invalid or already used zone is refused with an exception that changes nothing. '
     'Looking up a tree by its zone finds exactly the tree with that zone, iterating over the document gives the trees and words in order, and comparing the '
     'order of words follows the order of the words within a tree and of bundles across trees of one zone, and is refused across zones.',
     ['histories', 'inputs'], 'all sequences of edits of bundles, trees, zones and identifiers',
     'Tests set one or two identifiers; here numbering, uniqueness and derived identifiers must agree after every step of every history, including refused steps.',
     ['udapi/core/document.py', 'udapi/core/bundle.py', 'udapi/core/root.py', 'udapi/core/node.py'],
     ['Bundle.bundle_id setter', 'Bundle.check_zone', 'Root.zone and Root.sent_id setters', 'Bundle.remove', 'Node.address', 'Node.precedes'],
     'Exhaustive over all histories of 4 (thorough: 5) edits and random histories of up to 40 edits with valid and invalid zones.')
prop('L01', 'Loading divides files into documents without losing or reordering a tree',
     'Whatever the combination of merging files, splitting at document boundaries, a maximal number of bundles per document, filtering by sentence ID, ignoring sentence IDs, '
     'a given zone and a maximal number of documents, the loaded documents contain exactly the selected trees in order, consecutive trees with the same bundle ID in one bundle '
     '(never torn apart), and trees without ID get the number of their bundle. Each file starts a new document unless merging is on, a document boundary does if splitting is on, '
     'the document is named by the boundary it starts with, and loading stops after the maximal number of documents. '
     'The result is the same whether files are loaded at once or tree by tree, by read_documents or in a scenario; a second reader with another zone adds its trees to the existing bundles in order.',
     ['inputs', 'configs'], 'all streams of trees in several files with document boundaries, multi-tree bundles and missing IDs, under all reader options',
     'Two independent loading paths, a buffered tree and six interacting options: tests run a few of the combinations on one file.',
     ['udapi/core/basereader.py', 'udapi/block/read/conllu.py', 'udapi/core/run.py', 'udapi/core/files.py'],
     ['try_fast_load', 'process_document with _buffer', 'filtered_read_tree', 'read_trees with max_docs', 'Run.run_blocks'],
     'Exhaustive over all streams of up to 4 trees (thorough: 5) in two files, sampled (thorough: all) option combinations; random streams of up to four files.')
prop('L02', 'File arguments name exactly the right files in the right order',
     'A string of names separated by spaces or commas, shell wildcards (marked by an exclamation mark; sorted, hidden files and subdirectories not matched), file lists (marked by @; '
     'relative to the directory of the list, absolute names kept, blank lines skipped; @- reads the list from standard input), - for standard input, or a list of names taken as it is, gives '
     'exactly the named files in order, each opened once. Files ending in gz, xz and bz2 are decompressed, '
     'and a wildcard without a match, a missing list or file and an empty argument raise an exception.',
     ['inputs'], 'all directory contents and all combinations of names, wildcards and lists',
     'No test combines wildcards, lists and compressed files or looks at the order.',
     ['udapi/core/files.py'], ['Files._token_to_filenames', 'string_to_filenames', 'next_filehandle'],
     'Exhaustive over all pairs of 16 kinds of tokens with all separators; random directories, patterns, lists and compressed files.')

prop('R01', 'A scenario runs exactly the blocks of the command line, in order, every round',
     'A command line is read as blocks in the given order, each with exactly the key=value arguments written after it (the last value of a key counts, the value goes to the end of the word '
     'and may contain equal signs, digits alone make a number); arguments before the first block are refused, and the shortcuts of udapy (-s, -T, -H, -A, -C, -M, -N, -X) stand for their documented blocks and arguments. '
     'In a run every block is started once before any document and ended once after all; each round gives every block in order, the readers included, one and the same new document, '
     'which all readers of the scenario add their trees to, until every reader has run out; a scenario without a reader reads standard input.',
     ['inputs', 'histories'], 'all sequences of block names and arguments and all mixes of readers with different numbers of documents',
     'The tests run a few fixed scenarios with a single reader.',
     ['udapi/core/run.py', 'bin/udapy', 'udapi/core/basereader.py'], ['_parse_command_line_arguments', 'Run.execute', 'reader loop with finished'],
     'Exhaustive over sequences of up to 3 (thorough: 4) words of the command line and of up to 3 blocks, and all 128 subsets of the shortcuts; random longer ones.')
prop('R02', 'A document is handed to a block tree by tree and node by node exactly once',
     'A block gets each bundle, tree, node or empty node for which it defines a method exactly once, in document, bundle and word order; its zones argument selects exactly the trees of the listed zones, '
     'and trees without words are handed over, skipped, deleted or refused as if_empty_tree says, without affecting the other trees. A block that defines none of the methods is refused. '
     'util.Eval runs each given piece of code exactly at its documented times (start, before_doc, doc, before_bundle, bundle, tree, node, mwt, after_bundle, after_doc, end) with this, node, tree, bundle and doc naming the right objects.',
     ['inputs'], 'all documents (bundles, zones, empty trees, empty nodes), all sets of defined methods or pieces of code, and all options',
     'The tests run blocks on documents with one zone and without empty trees.',
     ['udapi/core/block.py', 'udapi/block/util/eval.py'], ['Block.process_document', 'process_bundle', 'process_tree', '_should_process_tree', 'Eval'],
     'Exhaustive over documents of up to 3 small trees with sampled options; random larger documents. Not promised: empty trees of zones that were not asked for with delete or fail.')
prop('R03', 'Writers put every document exactly where asked and nowhere else',
     'A writer writes each document to the file that follows from its options: the listed files one after another, the docname, the file the document was loaded from, '
     'that name with the directory, stem or extension replaced as path= says, a given filehandle, or standard output; missing directories are made, a file holds nothing but its document, in the requested encoding and newlines, '
     'and a document without the needed name goes to standard output. Afterwards standard output is again what it was, so later blocks print there. '
     'Contradictory options are refused at once, and more documents than listed files raise an exception.',
     ['inputs', 'histories'], 'all sequences of documents with all names and all combinations of options',
     'The tests write one document to one file.',
     ['udapi/core/basewriter.py', 'udapi/core/files.py'], ['BaseWriter.before_process_document', 'after_process_document'],
     'Random sequences of up to 4 documents, seven names, eleven path patterns, five writers; the specification of names is checked by TLC on small paths.')

prop('S01', 'Changing the division into sentences loses no word and keeps the trees',
     'util.SplitSentence cuts a sentence before the given or marked words; util.JoinSentence joins the given or marked sentences to the ones before; '
     'segment.Merge joins a sentence to one that ends with a semicolon. All words stay, in order, with their forms, tokens and spaces; a head in the same new sentence stays '
     '(otherwise the word hangs on the root with deprel root), only used marks vanish, new sentences are named by a letter after the old ID (joined ones keep the first ID), texts are those of the words, '
     'and bundles are numbered from one and belong to the document. util.Split gives consecutive documents of n sentences (or of ceil(count/parts)). '
     'segment.Simple cuts a text after .!? (closing quotes may follow) before an upper-case letter (opening quotes may precede) but not after initials or abbreviations, keeping the text. '
     'util.ResegmentGold gives the sentences of the gold zone with all words in order, one root where all inputs had one, and heads kept inside a new sentence.',
     ['inputs'], 'all documents, marks, sentences to be cut or joined, texts and gold divisions without enhanced dependencies and with no token across a cut',
     'The tests cut no sentence; joined or divided sentences differ by tree, place, tokens and marks.',
     ['udapi/block/util/splitsentence.py', 'udapi/block/util/joinsentence.py', 'udapi/block/segment/merge.py', 'udapi/block/segment/simple.py', 'udapi/block/util/split.py', 'udapi/block/util/resegmentgold.py', 'udapi/core/root.py'],
     ['SplitSentence', 'JoinSentence', 'Merge', 'Simple', 'Split', 'ResegmentGold', 'Root.steal_nodes'],
     'All documents of up to 3 words exhaustively (4 in the thorough tier), random ones of up to about 12 words.')

prop('S02', 'Text, tokens and SpaceAfter agree',
     'The text computed from a tree (or from the words of a subtree) is its tokens with a space after each but those with SpaceAfter=No; multiword tokens count as one, or by words when so asked. '
     'tokenize.OnWhitespace and tokenize.Simple give the text without spaces, cut at spaces (and into runs of word characters and single other characters), with SpaceAfter=No exactly where no space follows and with keep_spaces other spaces kept. '
     'ud.SetSpaceAfterFromText sets SpaceAfter as in the text as long as the tokens follow it; read.AddText the same for a document whose sentences lie in one file, with text and newpar; '
     'ud.SetSpaceAfter removes spaces next to punctuation and paired quotes as documented, sentence by sentence. '
     'read.Sentences and read.Text read one sentence per line or per paragraph with no line lost, invented or joined; write.Sentences writes each text on one line, with empty lines before documents and paragraphs when asked, and treats missing texts as if_missing says.',
     ['inputs'], 'all trees with multiword tokens, texts, files and parameters',
     'The tests tokenize no text and compute the text of a few sample trees.',
     ['udapi/core/node.py', 'udapi/core/root.py', 'udapi/block/tokenize', 'udapi/block/ud/setspaceafterfromtext.py', 'udapi/block/ud/setspaceafter.py', 'udapi/block/read/addtext.py', 'udapi/block/read/sentences.py', 'udapi/block/read/text.py', 'udapi/block/write/sentences.py'],
     ['Node.compute_text', 'Root.get_sentence', 'OnWhitespace', 'Simple', 'SetSpaceAfterFromText', 'SetSpaceAfter', 'AddText', 'Sentences', 'Text'],
     'All texts of 4 characters and sequences of 3 tokens exhaustively (5 and 4 in the thorough tier), random longer ones.')

prop('S03', 'Blocks which join, split or add words keep text, order and heads',
     'ud.RemoveMwt makes every multiword token one word with its form and place in the tree; ud.JoinToken joins marked words to the preceding one; ud.JoinAsMwt makes tokens of words with no space and letters between them; '
     'ud.FixMwtSpace removes tokens whose form is their words with spaces; ud.SplitUnderscoreTokens splits words at underscores and hangs new words on the first with lemmas, upos and the documented deprel; '
     'ud.AddMwt subclasses replace a word by the words of its analysis under one token. The text stays (but for underscores), all other words, forms, SpaceAfter and tokens stay as they were, '
     'dependents of joined or removed words move to the word that took their place or to the nearest remaining word above, and the tree stays a tree. '
     'ud.ComplyWithText never raises on a sentence with text, leaves a sentence that fits alone, changes forms only with the old one in CorrectForm (but for quotes), deletes only punctuation and adds only punctuation or goeswith, each only if allowed, '
     'and keeps order, heads and deprels; with fix_text the text is at the end that of the tokens, without it the text stays. In clear cases (no character twice, and only spaces missing or only spaces added without punctuation, one token misspelt, a word written with spaces, punctuation added or missing at the end, as far as allowed) the tokens get the text.',
     ['inputs'], 'all sentences without enhanced dependencies, marks, texts and parameters',
     'The tests run none of these blocks but one sample of ud.ComplyWithText.',
     ['udapi/block/ud/removemwt.py', 'udapi/block/ud/jointoken.py', 'udapi/block/ud/joinasmwt.py', 'udapi/block/ud/fixmwtspace.py', 'udapi/block/ud/splitunderscoretokens.py', 'udapi/block/ud/addmwt.py', 'udapi/block/ud/complywithtext.py'],
     ['RemoveMwt', 'JoinToken', 'JoinAsMwt', 'FixMwtSpace', 'SplitUnderscoreTokens', 'AddMwt', 'ComplyWithText'],
     'All sentences of 2 words of four forms with all tokens and chain or star trees exhaustively (3 in the thorough tier), random ones of up to 9 words.')

prop('S04', 'Selecting, marking, counting and comparing blocks do what they say',
     'On every document: util.Filter keeps exactly the trees, subtrees and nodes its conditions ask for, in the same order and zones; nodes whose ancestors are deleted by keep_node hang on the nearest kept ancestor (or the root), kept subtrees on the root, everything else keeps its parent and attributes; only keep_tree_if_node with mark marks, and exactly the matching nodes. '
     'util.Mark marks exactly the matching words (and empty nodes with empty=1), deletes marks of the other ones exactly when add=0, and prints how many it marked. '
     'util.Wc counts trees, words, tokens, multi-word tokens, empty nodes, documents and paragraphs of all documents, in both formats. '
     'util.See prints the numbers of matching nodes and trees, and for every statistic the number of values, the n most frequent values among matching nodes, how often they are there, and percentages. '
     'util.MarkDiff aligns words one to one in order, marks exactly the words which are added, deleted or differ in the attributes or (unless ignored) parent, in both trees, marks trees of different length in a comment, stores the alignment as asked, and counts the differences. '
     'util.Normalize numbers bundles as asked, sorts the attributes of words without changing them, numbers empty nodes without losing enhanced dependencies. '
     'util.Eval calls the code given in every parameter once for every object of its kind in the document order and adds up its counts. '
     'util.Split divides a document of any size into the parts asked for, with all bundles in order. '
     'Not promised: several of the keep_subtree, keep_node and keep_tree_if_node conditions together with a condition which the deletions change, order of equally frequent values.',
     ['inputs'], 'all documents and all combinations of the documented parameters',
     'The tests run some of these blocks on one file and check that they do not fail.',
     ['udapi/block/util/filter.py', 'udapi/block/util/mark.py', 'udapi/block/util/wc.py', 'udapi/block/util/see.py', 'udapi/block/util/markdiff.py', 'udapi/block/util/normalize.py', 'udapi/block/util/eval.py', 'udapi/block/util/split.py'],
     ['util.Filter', 'util.Mark', 'util.Wc', 'util.See', 'util.MarkDiff', 'util.Normalize', 'util.Eval', 'util.Split'],
     'All trees with up to 3 (thorough: 4) words and pairs of trees of up to 2 (3) words exhaustively, random documents beyond. Trusted: TLC, its JSON reader, the projection of trees; the values of statistics come from Node.get_attrs (decided by T08).')

prop('S05', 'Blocks fill in goeswith words, translations, lemmas and MWE types as documented',
     'ud.GoeswithFromText, if the stored text differs from the tokens only in spaces: splits each token with inner spaces in the text into its parts, the first keeping tags, head and relation, the others after it attached to it as goeswith with its tags; lemmas are those of the parts or, with keep_lemma, that of the first stays and the others have none; SpaceAfter follows the text, so the tokens give the stored text (without repeated spaces). Otherwise, or without a text, nothing is changed. '
     'ud.SetTranslation gives the k-th tree the k-th line of the file as comment text_en, replacing an existing one only with overwrite, and leaves all other comments. '
     'ud.Lemmatize fills missing lemmas (not of words without UPOS or with Typo=Yes) of closed classes, basic forms of nouns, pronouns and numerals, positive adverbs and infinitives with the lower-cased form (PROPN: the form) and no others. '
     'mwe.Normalize moves the type of each expression to its first word and keeps members; mwe.ToSubDeprels adds the type to relations inside of the expression. '
     'ud.PrintFixed prints every fixed expression, with X for words in between, and occurrences of known expressions which start at words without fixed children. '
     'Not promised: multiword tokens with a space in the text, forms with spaces, adjectives of other degrees, fixed words before the head, annotations of expressions which cannot be read.',
     ['inputs', 'configs'], 'all trees, texts with spaces anywhere, files of translations, features, annotations',
     'The tests run none of these blocks.',
     ['udapi/block/ud/goeswithfromtext.py', 'udapi/block/ud/settranslation.py', 'udapi/block/ud/lemmatize.py', 'udapi/block/ud/printfixed.py', 'udapi/block/mwe/normalize.py', 'udapi/block/mwe/tosubdeprels.py'],
     ['GoeswithFromText.process_tree', 'SetTranslation.process_tree', 'Lemmatize.process_node', 'PrintFixed.process_node', 'Normalize.process_tree', 'ToSubDeprels.process_tree'],
     'All texts of 2 (thorough 3) tokens with spaces anywhere, all annotations of 3 (4) words, random sentences. Trusted: TLC, its JSON reader.')

prop('E01', 'Scores printed by evaluation blocks are those of the trees compared',
     'On all pairs of predicted and gold trees, in any number of bundles and documents and order of zones: eval.Parsing refuses sentences of different lengths and prints the number of words, UAS, and LAS with full and universal relations. '
     'eval.F1 prints the numbers of predicted, gold and correct tokens, where correct ones are a longest common subsequence of the tokens (combinations of the attributes asked for), '
     'or with focus the focused tokens which are common between the tokens out of focus aligned first; precision, recall and F1 follow from them, and so do the lines for the most frequent tokens. '
     'eval.Conll17 and eval.Conll18 align words by lower-cased forms and print counts, or precision, recall, F1 and aligned accuracy, of all their metrics (Words, UPOS, XPOS, features, lemmas, AllTags, UAS, LAS, CLAS, MLAS, BLEX) by the definitions of the shared tasks, '
     'with words marked as Rehanged or FuncChildMissing (by util.ResegmentGold) not counting, and raw counts for every sentence as asked. Gold trees are not compared with themselves. '
     'Not promised: bootstrap resampling scripts, scores of documents with no words, output if a block meets no tree.',
     ['inputs'], 'all pairs of trees with any attributes and relations',
     'The tests do not run the evaluation blocks but for one sentence.',
     ['udapi/block/eval/parsing.py', 'udapi/block/eval/f1.py', 'udapi/block/eval/conll17.py', 'udapi/block/eval/conll18.py'],
     ['eval.Parsing', 'eval.F1', 'eval.Conll17', 'eval.Conll18'],
     'All pairs of trees of up to 2 words and all pairs of up to 3 (thorough: 4) tokens over 3 letters exhaustively, random pairs of up to 6 words. Trusted: TLC, its JSON reader, reading of the printed tables; the alignment for Conll17/18 is the one of longest common runs.')

prop('B01', 'Blocks which repair or transform trees reach their goal and keep a tree',
     'On every tree (also without words), the words and their order stay, the result is a tree, and: '
     'transform.Proj makes it projective, moving words only to former ancestors and marking exactly the moved ones by the universal relation of their original parent (in MISC pproj or the deprel); projective trees stay as they are, a single non-projective edge is lifted only as high as needed. '
     'transform.Deproj moves each marked word under the first word with that relation found breadth-first among its siblings. transform.Flatten hangs all on the root, or all on the first word. '
     'ud.FixChain: each word with a given relation hangs on the closest ancestor with another one. ud.FixRightheaded: no word with a given relation precedes its head; the word, in order, exchanges place and relation with its head and (but for conj) takes its children, as long as needed. '
     'ud.FixRoot: the first word below the root stays as the only one with relation root, other ones below the root hang on it as parataxis, and so is any other root relation. '
     'ud.FixLeaf: children which a function word may not have hang on the closest ancestor which is no function word, and so do their enhanced dependencies on the function word. '
     'ud.FixMultiSubjects: only the first of non-outer subjects of a word stays, others are obl or advcl. ud.FixPunctChild: children of punct hang on its closest other ancestor. '
     'ud.FixCompoundName: all compounds of PROPN on PROPN without digits become flat:name on the first of them. ud.FixPseudoCop: the copula becomes a verb, takes the place and relation of its parent, the parent is its xcomp and gives it clausal dependents. '
     'ud.Basic2Enhanced fills exactly missing enhanced dependencies. ud.FixAdvmodByUpos leaves advmod exactly to adverbs. All other attributes stay. '
     'Not promised: the path strategies of Proj, which of several projective trees Proj chooses when it has to lift more words, pseudocopulas below the root.',
     ['inputs'], 'all trees with any relations and tags, all documented parameters',
     'The tests run none of these blocks.',
     ['udapi/block/transform/proj.py', 'udapi/block/transform/deproj.py', 'udapi/block/transform/flatten.py', 'udapi/block/ud/fixchain.py', 'udapi/block/ud/fixrightheaded.py', 'udapi/block/ud/fixroot.py', 'udapi/block/ud/fixleaf.py',
      'udapi/block/ud/fixmultisubjects.py', 'udapi/block/ud/fixcompoundname.py', 'udapi/block/ud/fixpunctchild.py', 'udapi/block/ud/fixpseudocop.py', 'udapi/block/ud/basic2enhanced.py', 'udapi/block/ud/fixadvmodbyupos.py'],
     ['transform.Proj', 'transform.Deproj', 'transform.Flatten', 'ud.FixChain', 'ud.FixRightheaded', 'ud.FixRoot', 'ud.FixLeaf', 'ud.FixMultiSubjects', 'ud.FixCompoundName', 'ud.FixPunctChild', 'ud.FixPseudoCop', 'ud.Basic2Enhanced', 'ud.FixAdvmodByUpos'],
     'All trees of up to 3 words (4 in the thorough tier) with the three or four relations that matter for each block, all trees of up to 5 (6) words for projectivity, random trees of up to 10 words. Trusted: TLC, its JSON reader, the projection of trees.')

prop('B02', 'ud.FixPunct attaches punctuation projectively to the unit it belongs to',
     'On every tree with any forms, tags and relations ud.FixPunct gives a tree with the same words and exactly one word below the root, with relation root, and does the following: children of punctuation go to the closest other ancestor; '
     'an opening mark and the closing one which matches it (the same mark nested counted; quotes, and with check_paired_punct_upos all, only if tagged PUNCT) hang on the first and last head among the words between them; '
     'other punctuation stays if it is a dot on the previous word, at one of both ends of a subtree which are punctuation of its head, or if its head is an acceptable one; '
     'otherwise it hangs on the highest acceptable head of the neighboring subtree on the left or (but for sentence-final marks after a word) on the right, the lower of both, where acceptable is a head which is not across, and for which neither the punctuation is attached non-projectively nor causes a gap; opening marks are not crossed to the left, closing ones not to the right. '
     'With copy_to_enhanced enhanced dependencies of punctuation are those of the basic tree, other ones stay. '
     'So if the tree is projective with a non-punctuation word as the only root, tags agree with forms, punctuation has no children, pairs do not cross, contain a word and all that is inside hangs inside: the result is projective, no punctuation is in a gap or has children, no other word moves, and both marks around a single subtree hang on its head. '
     'Not promised: reaching this for other trees (the algorithm is a heuristic).',
     ['inputs'], 'all trees with any punctuation, all kinds of paired marks, all parameters',
     'The tests do not run this block.',
     ['udapi/block/ud/fixpunct.py', 'udapi/core/node.py'],
     ['FixPunct.process_tree', 'FixPunct._fix_subord_punct', 'FixPunct._fix_pair', 'FixPunct._causes_gap', 'Node.is_nonprojective', 'Node.is_nonprojective_gap'],
     'All trees of up to 3 words (4 in the thorough tier) over 7 kinds of words, all projective trees of up to 4 (5) words with leaf punctuation, random trees of up to 8 words with all supported pairs of marks. Trusted: TLC, its JSON reader, the projection of trees.')

prop('B03', 'Bug-marking blocks report exactly the suspicious words',
     'On every document ud.MarkBugs adds to the attribute Bug of every word exactly the names of the constructions it is in, each once and after what is there already, and changes nothing else: '
     'chains of aux, fixed, goeswith and list; right-headed flat, fixed, conj, appos, goeswith and list; relations against tags (cop, mark, det, punct); tags without their required feature (VerbForm not in languages that have none); finite verbs against tag and mood; '
     'several subjects (but outer ones) or objects; children of function words; symbols and punctuation made of letters, punctuation with other relations, non-projective or in a gap (unless its parent is too); goeswith with an intruder or a missing space; copula lemmas beyond the most frequent ones of the document (any choice in case of ties). '
     'Parameters tests and skip select by name, and the overview in the metadata of the document counts all reports of this document. '
     'util.MarkMwtBugsAtNodes copies the bug of each multiword token to its words unless they have it. util.FindBug prints the untouched bundle in which another block fails, and raises its exception (or with first_error_only=0 prints all such bundles). '
     'ud.AddPunctType gives words tagged PUNCT the kind and side of their mark, and removes these features from all other words and marks. The feature tests of ud.MarkFeatsBugs mark missing required features, features not allowed, and values not allowed.',
     ['inputs'], 'all documents with any relations, tags, features and bugs marked before, all documented parameters',
     'The tests run none of these blocks.',
     ['udapi/block/ud/markbugs.py', 'udapi/block/util/markmwtbugsatnodes.py', 'udapi/block/util/findbug.py', 'udapi/block/ud/addpuncttype.py', 'udapi/block/ud/markfeatsbugs.py', 'udapi/core/node.py'],
     ['ud.MarkBugs', 'util.MarkMwtBugsAtNodes', 'util.FindBug', 'ud.AddPunctType', 'MarkFeatsBugs.check_required_features / check_allowed_features', 'Node.is_nonprojective_gap'],
     'All trees of up to 3 words (4 in the thorough tier) over 6 kinds of words, random documents of up to 8 words a tree, several trees and documents. Trusted: TLC, its JSON reader, the projection of trees.')

prop('D01', 'A drawn tree can be read back from its drawing',
     'For every tree, with empty nodes and non-projective edges, and every subtree, write.TextModeTrees, draw() and write.TextModeTreesHtml print one line for each node in word order (empty nodes unless print_empty=0), and all lines of the drawing are connected: '
     'following the line from a word to the left and along the vertical line leads to its head and to no other word. With hints (the default) the branch shows on which side of its head a word is, without them it is a plain one; '
     'a leaf is indented by indent+1 columns below its head, other words by at least as much. The label of each node has the given attributes, undefined ones as print_undef_as; with the layouts align-words and align labels (and all attributes) are in columns, with compact and these nothing is drawn after a label. '
     'Nodes with marked MISC attributes are between asterisks, highlighted with colors and in HTML, as are marked comments. Metadata, sent_id, text, comments and empty lines are printed as asked for; marked_only prints only trees with something marked, zones only those of the zones, and HTML all trees of such a bundle with whole_bundle, in one table row with zones_in_rows. '
     'Not promised: minimal crossings, colors, and labels which contain line-drawing characters.',
     ['inputs'], 'all trees with any edges, empty nodes, attributes, comments and marks, all documented parameters',
     'The tests draw two trees with a few parameters.',
     ['udapi/block/write/textmodetrees.py', 'udapi/block/write/textmodetreeshtml.py', 'udapi/core/node.py', 'udapi/core/document.py'],
     ['TextModeTrees.process_tree', 'TextModeTrees.add_node', 'TextModeTrees.print_headers', 'TextModeTrees.should_print_tree', 'TextModeTreesHtml.process_bundle', 'Node.draw', 'Document.draw', 'Node.get_attrs'],
     'All trees of up to 4 words with an empty node in all orders of drawing (5 in the thorough tier), random trees of up to 10 words with all parameters. Trusted: TLC, its JSON reader, removing HTML tags and ANSI codes.')

prop('X01', 'Other formats hold what they are meant to hold',
     'read.Conll with any columns and separator, and read.Conllup with the columns named in the file, give each column to the attribute of its name (other CoNLL-U Plus columns to MISC, capitalized), multiword tokens, and the HEADs with the same repairs and refusals as CoNLL-U. '
     'write.Vislcg writes every token with its words, escaped, and read.Vislcg gives the same words (forms of words in multiword tokens only if the token consists of as many parts), tokens and HEADs. '
     'write.Sdparse lists the words and every edge between words, naming words by form, and by form and position where the form is not unique or always_ord is on. '
     'write.Treex is well-formed XML with the same trees, attributes and ids unique in each tree; write.Tikz has a cell for each attribute of each word with special characters escaped, all edges, the enhanced ones below, comments and the remark, '
     'and with as_tree words at heights by depth; write.Html has as JSON all trees with parents, first children and next siblings; write.SentencesHtml one list item per tree. read.AddSentences stores the k-th line in the k-th tree as text or a comment, and refuses a file with too few lines. '
     'Not promised: empty nodes, node ids across zones in Treex, columns without ord first.',
     ['inputs', 'configs'], 'all trees with any special characters in all attributes, column layouts, damaged HEADs, parameters',
     'The tests have no file in these formats and one call of the writers.',
     ['udapi/block/read/conll.py', 'udapi/block/read/conllup.py', 'udapi/block/read/vislcg.py', 'udapi/block/read/addsentences.py', 'udapi/block/write/vislcg.py', 'udapi/block/write/sdparse.py', 'udapi/block/write/treex.py',
      'udapi/block/write/tikz.py', 'udapi/block/write/html.py', 'udapi/block/write/sentenceshtml.py'],
     ['Conll.parse_node_line', 'Conllup.parse_comment_line', 'Vislcg.read_tree', 'Vislcg._node', 'Sdparse._form', 'Treex.print_subtree', 'Tikz.process_tree', 'Html.print_doc_json', 'AddSentences.process_document'],
     'All trees of up to 3 words over words with special characters, each with multiword tokens, random trees of up to 7 words, random tables. Trusted: TLC, its JSON reader, Python parsers of XML, HTML and JSON.')

prop('C01', 'Conversion of UD version 1 to 2 changes what it should and notes the rest',
     'ud.Convert1to2 renames the relations and tags of version 1, keeping subtypes unless the new relation has one (noted in ToDo); replaces neg by the part of speech, with Polarity=Neg unless PronType has Neg; '
     'makes nmod of predicates obl; converts the documented features; gives flat and goeswith structures with the head after a part a head at the beginning, with the relation of the old head; '
     'replaces remnants by a conj for each level (the one whose correlate ranks highest, the later one if equal) with orphans below it, keeping the relation of the correlate in orig_deprel unless the conj has that of the first conjunct; '
     'attaches conjunctions, commas and semicolons of a coordination to the next conjunct unless a sibling or the head lies between; fills an empty text and replaces one which differs in more than spaces, keeping it in a comment. '
     'What it cannot decide is noted in ToDo of the word, once each, and counted in the overview of that document (rare ones first). skip= leaves out exactly what it names. '
     'Not promised: remnants which govern all other remnants, a second run.',
     ['inputs', 'configs'], 'all trees, relations, tags, features, stored texts, skip lists, documents',
     'The tests run no conversion.',
     ['udapi/block/ud/convert1to2.py'],
     ['Convert1to2.process_tree', 'Convert1to2.change_headfinal', 'Convert1to2._recursive_fix_remnants', 'Convert1to2.reattach_coordinations', 'Convert1to2.log'],
     'All trees of up to 3 words (thorough 4) over small vocabularies for each kind of change, random trees of up to 11 words. Trusted: TLC, its JSON reader.')

prop('K01', 'Coreference edits keep entities, mentions and words consistent',
     'After any sequence of creating entities and mentions, setting the words, span, head or entity of a mention, removing mentions, and editing other attributes and bridging links: '
     'every mention belongs to exactly one entity and is listed there once; a word lists exactly the mentions that contain it and the entities of these; the words of a mention are sorted, contain its head, and equal its span; '
     'document-wide lists hold every mention once in word order and every entity in order of creation. A mention given new words takes its place in word order among the mentions of its new words, and of the entity it is moved to. '
     'An entity created without an ID gets the first free one. Existing IDs and IDs with forbidden characters, mentions without a head, with words and span at once, with a head outside of the words, ill-formed spans, and bridging to the own entity are refused, and what is refused changes nothing. Other attributes agree as mapping and as text, and bridging links can be added, replaced, selected by relation and deleted without touching others. '
     'Not promised: mentions over several sentences, removing the words of a mention, renaming entities.',
     ['histories', 'inputs'], 'all sequences of coreference edits on sentences of any length, with several entities',
     'The tests read one CorefUD file and change a few mentions.',
     ['udapi/core/coref.py', 'udapi/core/node.py', 'udapi/core/document.py'],
     ['CorefEntity.create_mention', 'CorefMention.words / span / head / entity', 'CorefMention.remove', 'BridgingLinks', 'OtherDualDict', 'Document.create_coref_entity'],
     'All edits on all states with 2 words and 2 mentions exhaustively (3 words in the thorough tier), random histories on longer documents.')

prop('K02', 'Coreference annotation survives storing and loading',
     'Writing a document stores its entities in the Entity attributes of words by the CorefUD rules (closings before openings, longer mentions opened first and closed last, single-word mentions in one piece, parts of discontinuous mentions numbered, '
     'the minimal span and head written as the header says, attributes of the entity only at its first mention when documented so), and loading it again gives the same entities, types, mentions with words and heads, other attributes, bridging links and split antecedents, '
     'as far as the header has fields for them. A stored annotation stored again does not change; annotation of deleted entities disappears, as do links to entities without mentions. '
     'Loading gives exactly the entities an annotation describes, for any documented header (eid or eid with group, etype or entity, named fields, other, or only the global header of the first document), '
     'unclosed mentions are dropped, and malformed annotation is refused with an exception. '
     'Not promised: crossing mentions or mentions with the same words within one entity, interleaved discontinuous mentions of one entity, values with separators of the format.',
     ['inputs'], 'all documents with nested, crossing and discontinuous mentions of several entities, bridging and split antecedents; all Entity annotations',
     'The tests store and load one sample file.',
     ['udapi/core/coref.py', 'udapi/block/read/conllu.py', 'udapi/block/write/conllu.py'],
     ['load_coref_from_misc', 'store_coref_to_misc', 'CHAR_BRIDGING / SplitAnte parsing', 'span_to_nodes / nodes_to_span'],
     'All pairs of mentions over 3 words and 2 entities exhaustively (4 words and 3 mentions in the thorough tier), random documents of several sentences, random annotations and headers.')

prop('K03', 'CorefUD blocks do what they say and leave consistent coreference',
     'Each block of the corefud package changes the entities and mentions as documented and nothing else: MoveHead sets heads by the dependency tree, GuessSpan the span to the subtree of the head, FixParentheses adds the missing bracket next to a mention to it, '
     'MarkCrossing, MarkInterleaved, MarkNested and MarkSameSubSpan mark exactly the mentions concerned, MergeSameSpan leaves no two mentions of the same words, FixInterleaved merges interleaved mentions of one entity (if there are at most two of them in a sentence), '
     'RemoveNoCorefEntities removes exactly the entities with IDs NOCOREF... and the links to them, FixEntityAcrossNewdoc gives different IDs in each newdoc, IndexClusters numbers entities, Link2Cluster makes connected components of links into entities, '
     'Delete removes coreference, empty nodes (words below them get enhanced parents in their place) or other attributes as asked, SingleParent keeps one of the highest non-empty enhanced parents of each empty node with several. '
     'After each block every word lists exactly the mentions that contain it, and the document can be stored and loaded again with the same result.',
     ['inputs'], 'all documents with entities, bridging, empty nodes and enhanced dependencies, and all parameters of the blocks',
     'The tests run none of these blocks.',
     ['udapi/block/corefud'],
     ['MoveHead', 'GuessSpan', 'FixParentheses', 'MarkCrossing', 'MarkSameSubSpan', 'MergeSameSpan', 'FixInterleaved', 'RemoveNoCorefEntities', 'FixEntityAcrossNewdoc', 'IndexClusters', 'Link2Cluster', 'Delete', 'SingleParent'],
     'All pairs of mentions over small sentences exhaustively for the operators, random documents for the blocks.')

prop('K04', 'Coreference reports and searches find and count what is asked for',
     'corefud.MarkPairs marks the words of exactly those pairs of mentions of one sentence with the asked-for properties (each may be required, excluded or ignored), the first word of one of them with both entity IDs and spans or forms, and counts mentions, pairs and matching pairs of the document. '
     'corefud.PrintMentions prints exactly the mentions with the asked-for properties, in word order unless shuffled, each with its forms, the most frequent other forms of its entity, its tree with exactly its words marked, at most max_trees of them, then the totals if wanted; no marks stay. '
     'corefud.PrintEntities prints entities with enough mentions whose ID matches, their mentions with heads marked, aggregated by frequency or one by one, with addresses if wanted. '
     'corefud.Stats gives the numbers of sentences, words, entities and mentions, maximal and average lengths and shares by length, empty words, gaps, treelets and tags of heads, for all documents of the run. '
     'corefud.CountGaps counts sequences of sentences and paragraphs without any mention (also of empty nodes) by length for every newdoc, file and in total. '
     'RemoveMisc deletes the named attributes (with any index in brackets), ConcatMentionMisc joins MentionMisc_ attributes of the same index in order, MiscStats counts attributes and their most frequent values, of non-empty words. '
     'Not promised: newdoc without ID, documents not starting with newdoc in CountGaps per newdoc, colors, layout of headers.',
     ['inputs', 'configs'], 'all sentences with any empty nodes, mentions and entities, all documented parameters',
     'The tests run none of these blocks.',
     ['udapi/block/corefud/markpairs.py', 'udapi/block/corefud/printmentions.py', 'udapi/block/corefud/printentities.py', 'udapi/block/corefud/stats.py', 'udapi/block/corefud/countgaps.py',
      'udapi/block/corefud/miscstats.py', 'udapi/block/corefud/removemisc.py', 'udapi/block/corefud/concatmentionmisc.py'],
     ['MarkPairs.process_tree', 'PrintMentions.process_document', 'PrintMentions._is_forest', 'PrintMentions._is_almost_continuous', 'PrintEntities.process_document', 'Stats.process_document', 'Stats.process_end', 'CountGaps.process_document', 'RemoveMisc.process_tree', 'ConcatMentionMisc.process_tree', 'MiscStats.process_node'],
     'All pairs of mentions on all trees of 3 words (thorough: and an empty node), all sequences of 3 (4) sentences, random documents of sentences of up to 22 words. Trusted: TLC, its JSON reader.')

prop('K05', 'Coreference survives CorefUD 0.1 and CoNLL-2012 files and HTML pages',
     'write.OldCorefUD stores every mention at its head word, unnumbered if it is the only one there and otherwise as [1], [2] and so on (by order of entities, then mentions), with ClusterId, MentionSpan, ClusterType, Bridging, SplitAnte and MentionMisc, deletes older annotations of coreference '
     'and keeps other attributes; read.OldCorefUD reads such files (also with IDs with hyphens, which are replaced so that different IDs stay different, + in SplitAnte, spaces in MentionMisc) into the same entities, types, spans in order, heads, bridging links, antecedents and other attributes, '
     'refuses links to the entity itself or to an entity without mentions, and deletes the attributes. '
     'read.Conll2012 reads brackets with numbers (with or without bars, in columns chosen by attributes) of any nesting into mentions of entities NAME_eN with forms, lemmas and names of documents; brackets which close mentions count before those which open them. '
     'write.CorefHtml writes well-formed pages (the first document in the page, the others in docN.html.gz) where every word is shown once and in order, in elements of exactly the mentions (parts of discontinuous ones) it belongs to, heads are marked, crossing mentions are cut at the end of the other one and continue in '
     'an element marked crossing, classes tell type, colour (in turn for entities of one type), part of speech, singletons and empty words, titles name ID, type, head and its UPOS, one element of each entity (its first) has its ID, and the overview has the number of mentions and a representative word. '
     'Not promised: IDs with other special characters, mentions of one entity with the same words, documents without coreference, scripts.',
     ['inputs', 'configs'], 'all sentences with empty nodes, entities, mentions (nested, crossing, discontinuous), all documents of a file',
     'The tests read and write none of these formats.',
     ['udapi/block/read/oldcorefud.py', 'udapi/block/write/oldcorefud.py', 'udapi/block/read/conll2012.py', 'udapi/block/write/corefhtml.py', 'udapi/core/coref.py'],
     ['OldCorefUD.process_document', 'OldCorefUD._fix_id', 'Conll2012.parse_node_line', 'Conll2012.read_trees', 'CorefHtml.process_tree', 'CorefHtml._start_subspan', 'CorefHtml._representative_word', 'CorefMention._subspans'],
     'All pairs of mentions of 3 (4) words with any heads, all columns of 3 (4) words with 3 brackets; random documents of up to 12 words a sentence. Trusted: TLC, its JSON reader, the HTML parser of Python.')

prop('K06', 'CorefUD data prepared for a release have one kind of roots and types',
     'corefud.FixToValidate: afterwards exactly the words below the technical root have the deprel root. Words at the top get it; other words which had it get cc (CCONJ), amod (ADJ below PROPN), obl (NOUN below VERB), by the head they had, or parataxis, '
     'and those below a punctuation mark move to the head of the mark, unless the mark is at the top itself (one step for every word, from the first word to the last). The last word before a sentence which begins a document or a paragraph, and the multiword token it is in, has no SpaceAfter=No. Nothing else changes. '
     'corefud.FixCorefUD02: types of entities are in small letters and renamed (misc to other, date to time, loc and location to place, per to person, org to organization, _ to none); types which begin with gen or spec, in any case, lose this part and dots (spec alone becomes other) and all mentions get gstype; '
     'entities of the type appos lose it and all their mentions but the first get appos=1; relations of all bridging links are in small letters, X-inv becomes iX, hyphens and indirect_ are left out; the header of GUM is replaced by that of CorefUD. Spans, heads, other attributes, antecedents, IDs and other headers stay. '
     'Not promised: types where gen or spec is a part of another word, documents with several zones.',
     ['inputs'], 'all trees, deprels, tags, spaces, multiword tokens, documents and paragraphs, all labels',
     'No test runs these blocks.',
     ['udapi/block/corefud/fixtovalidate.py', 'udapi/block/corefud/fixcorefud02.py'],
     ['FixToValidate._set_root_deprel', 'FixToValidate._unset_root_deprel', 'FixToValidate._space_before_pardoc', 'FixCorefUD02.process_document'],
     'All trees of 3 words with 2 deprels and 3 tags, all pairs (thorough: triples) of sentences of up to 2 words with spaces, all labels made of 2 (4) of 10 parts, random documents of sentences of up to 12 words. Trusted: TLC, its JSON reader.')

prop('U01', 'Language blocks split contractions into the words they stand for',
     'ud.cs, ud.ca, ud.de, ud.el, ud.es, ud.fr, ud.la and ud.pt.AddMwt replace each contraction of their tables (in small letters, capitalized or in capitals, if it has the part of speech asked for) by the words it stands for, '
     'with lemmas, tags, features and deprels of the table (* in it: those of the contraction, _: none) and the case of the contraction, next to each other in a multiword token with its form and MISC; Entity moves to the first word, '
     'a word of a token stays in it with the new ones (ud.cs.AddMwt leaves it). One word keeps the head and all dependents, the others depend on it or on its head. '
     'Also: ud.cs divides old Czech words marked with AddMwt in MISC (jsi, i, t-clitics, prepositions with pronouns), and uses up the mark; ud.es verbs with a pronoun (verbpron=1, not finite, the verb keeps VerbForm, the pronoun gets the other features); ud.pt verbs with -se, -lo, -los, -o; '
     'ud.la a period after an abbreviation; the article of Spanish al, del and French du, des, au, aux moves to the following noun (the first one found upwards from the next word; otherwise to the next word) if what it depends on precedes; '
     'Spanish, Catalan and Portuguese contractions which head something have the article below the preposition; French articles and prepositions become fixed inside a fixed expression. Nothing else changes: other words, the text, their heads and annotation. '
     'Not promised: ud.pt nisto, ud.id, words with capitals inside.',
     ['inputs', 'configs'], 'all sentences, trees, multiword tokens, forms of the tables',
     'No test runs these blocks.',
     ['udapi/block/ud/addmwt.py', 'udapi/block/ud/cs/addmwt.py', 'udapi/block/ud/ca/addmwt.py', 'udapi/block/ud/de/addmwt.py', 'udapi/block/ud/el/addmwt.py', 'udapi/block/ud/es/addmwt.py',
      'udapi/block/ud/fr/addmwt.py', 'udapi/block/ud/la/addmwt.py', 'udapi/block/ud/pt/addmwt.py'],
     ['AddMwt.process_node', 'AddMwt.multiword_analysis', 'AddMwt.postprocess_mwt'],
     'All trees of 3 (4) words of four kinds in five languages; random sentences of up to 11 words in eight languages. Trusted: TLC, its JSON reader.')

prop('U02', 'Language-specific fixes repair what they describe and nothing else',
     'he/ro.FixNeg: deprel neg becomes AUX/cop if VerbType=Cop (which goes, also ToDo=neg), resp. ADV/advmod (pronoun ne: only Polarity=Neg is left). es.FixExclamation: one sign before and after a word (at a letter or digit) becomes a word of its own below it, with the right spaces. '
     'es.FixTenerQue: an auxiliary tener or ir takes the place of its verb, which becomes its xcomp and keeps objects, obliques and parts of multiword units (by universal deprel) while other dependents move up; que and a between them become mark; the same in enhanced dependencies. '
     'kk/ug.FixSpuriousAux: listed auxiliaries take the place of the verb, with its clausal dependents. ga.To2, gl.To2: features, deprels, copulas and heads of case and punct as described in the code, the best dependent (noun, pronoun, adjective or verb, other, punctuation; the first of equals) becomes the head. '
     'ru.FixToEst: mark with a fixed byt is cc, also in the enhanced graph. bg.RemoveDotAfterAbbr: a full stop after a word with one is removed if the text has no two at the end; its dependents move up. es/ca.ElQue(fix=1): el takes the place of the relative clause, prepositions and connectives move to el, also where there is one enhanced dependency. '
     'es.FixVerbFeats: features and lemmas of infinitives, gerunds, participles. pt.AddHyphenMwt: a compound with hyphens with one head and no outer dependents of others becomes a multiword token without hyphens, otherwise the guilty words get ToDo. '
     'en/ro.SetSpaceAfter add spaces rules of the language (contractions, quotes by xpos, hyphens, dollars) to ud.SetSpaceAfter and update the text. Every result is a tree; other words, attributes and the order stay. '
     'Not promised: auxiliaries below the root, el above its preposition or clause in ElQue, hyphens with dependents.',
     ['inputs', 'configs'], 'all sentences and trees, enhanced dependencies, features and MISC',
     'No test runs these blocks.',
     ['udapi/block/ud/he/fixneg.py', 'udapi/block/ud/ro/fixneg.py', 'udapi/block/ud/es/fixexclamation.py', 'udapi/block/ud/es/fixtenerque.py', 'udapi/block/ud/es/elque.py', 'udapi/block/ud/ca/elque.py', 'udapi/block/ud/es/fixverbfeats.py',
      'udapi/block/ud/ga/to2.py', 'udapi/block/ud/gl/to2.py', 'udapi/block/ud/ru/fixtoest.py', 'udapi/block/ud/bg/removedotafterabbr.py', 'udapi/block/ud/kk/fixspuriousaux.py', 'udapi/block/ud/ug/fixspuriousaux.py',
      'udapi/block/ud/pt/addhyphenmwt.py', 'udapi/block/ud/en/setspaceafter.py', 'udapi/block/ud/ro/setspaceafter.py', 'udapi/block/ud/setspaceafter.py'],
     ['process_node', 'process_tree', 'reattach', 'attach', 'fix_pattern', 'mark_no_space'],
     'All trees of 3 (4) words of up to four kinds for seven blocks; random sentences of up to 11 words for all. Trusted: TLC, its JSON reader.')

NOT_APPLICABLE = []


def main():
    from registry import REGISTRY
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as out:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            out.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': p['state'],
                            'mechanism': [m if isinstance(m, dict) else {'name': m} for m in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    checks = []
    skip = {n['property'] for n in NOT_APPLICABLE}
    for p in PROPS:
        if p['id'] in skip:
            continue
        assert p['id'] in REGISTRY, p['id']
        checks.append({'property': p['id'], 'quick_cmd': 'bin/check ' + p['id'],
                       'thorough_cmd': 'env VERIF_TIER=thorough bin/check ' + p['id'],
                       'technique': 'TLA+ specification: TLC model checking, replay into the real code, TLC trace validation',
                       'level': 'model_checking',
                       'level_note': p['note'] + ' Trusted: TLC, its JSON reader, and the projection that reads the state through the public API.'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as out:
        json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
                   'hooks': {'guard': 'UDAPI_TLV (unused: no hooks were needed)', 'enable': 'nothing to enable; the checks use the public API only',
                             'source_commits': []},
                   'notes': 'See DESIGN.md. Language: TLA+ with TLC.'}, out, indent=1)


if __name__ == '__main__':
    main()
