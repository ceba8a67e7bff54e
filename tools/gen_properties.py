"""One-off source of properties.jsonl (kept so that edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['sbclassifier/' + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

p('C01', 'Training history alone determines the counts',
  "After any history of learning and unlearning messages, the totals of trained spam and ham equal the learns minus the unlearns of that kind, and each token's spam (ham) count equals the number of currently learned spam (ham) messages that contain it, one per message however often the token repeats in it. Unlearning a learned message restores exactly the counts it had added, in any order, and a token whose two counts are zero has no record at all. Unlearning a token that has no count of that kind leaves that token's counts as they are.",
  ['histories', 'inputs'], 'every interleaving of learn and unlearn calls over every set of tokens (text or bytes, passed as any iterable, with repetitions)',
  'Tests train a handful of fixed words in two or three fixed orders; the counting rule is about every order, every overlap between messages and every cancellation.',
  ['classifiers/basic.py'],
  [('totals', 'number of spam and ham messages currently trained', 'classifiers/basic.py: nspam, nham'),
   ('token counts', 'spam and ham count per token', 'classifiers/basic.py: wordinfo')],
  [('set of distinct tokens per message', 'classifiers/basic.py: _add_msg/_remove_msg'), ('removal of empty records', 'classifiers/basic.py: _remove_msg')],
  ['learn/unlearn', 'totals', 'per-token record'])

p('C02', 'Rejected or failed training leaves no trace',
  "If a learn or unlearn call raises, because nothing of that kind is left to unlearn or because the source of tokens fails part-way, then the totals, every token's counts and every later score are exactly those from before the call, and so is what a later save writes. This holds for the in-memory and for every persistent classifier.",
  ['fault_sequences', 'histories'], 'every position at which the token source can fail, every state in which an unlearn can be rejected, any training before and after',
  'No test makes a training call fail; a partial update is invisible until a later score or save.',
  ['classifiers/basic.py', 'classifiers/storage.py'],
  [('training state', 'totals and token counts, in memory and on disk', 'classifiers/basic.py')],
  [('tokens are collected and the totals checked before anything is changed', 'classifiers/basic.py: _add_msg/_remove_msg')],
  ['learn/unlearn raising', 'state before and after'])

p('C03', 'Scoring is a read-only function of the training state',
  "Scoring a message never changes the totals, any token's counts or the stored data. The score and the evidence depend only on the totals and on the set of distinct tokens of the message with their counts (for a bigram classifier: on the sequence of tokens): not on the order or repetition of the tokens, on the kind of iterable, on what was scored before, or on the history by which the counts were reached.",
  ['histories', 'inputs'], 'every interleaving of scoring with training, saving, reloading; every permutation and repetition of the tokens; any hash seed',
  'Tests score each fixed message once, right after training it: stale cached probabilities, order dependence or scoring that writes cannot show.',
  ['classifiers/basic.py', 'classifiers/storage.py'],
  [('probability cache', 'probability per pair of counts, valid for the current totals only', 'classifiers/basic.py: _probcache')],
  [('cache is dropped whenever the totals change', 'classifiers/basic.py: _add_msg, _remove_msg, __setstate__; storage.py: load'),
   ('distinct tokens, sorted clues', 'classifiers/basic.py: _getclues')],
  ['spamprob with and without evidence', 'totals and token counts around it'])

p('C04', 'The score is the chi-squared combination of the strongest clues',
  "For a consistently trained classifier that uses single tokens, a token's probability is the ratio of its spam rate to the sum of its spam and ham rates, pulled towards 0.5 with weight 0.45 against its number of occurrences; a message's clues are its distinct known tokens whose probability differs from 0.5 by at least 0.1, and only the 150 most extreme of them if there are more. The score is (S-H+1)/2 of the chi-squared indicators S and H of those clues, always within [0, 1], and 0.5 for a message without clues. The evidence is the two indicators followed by exactly the clues with their probabilities, in ascending order.",
  ['inputs', 'histories'], 'all totals, all token counts consistent with them, messages of any number of tokens including many more than 150',
  'Two tests check that a three-word message lands on the right side of a cutoff; clue selection, the limit of 150, underflow handling and the actual value are not looked at.',
  ['classifiers/basic.py'],
  [('clues', 'selected tokens with their probabilities', 'classifiers/basic.py: _getclues')],
  [('probability of a token', 'classifiers/basic.py: probability'), ('clue selection', 'classifiers/basic.py: _getclues'),
   ('chi-squared combination with scaled products', 'classifiers/basic.py: spamprob, chi2Q')],
  ['spamprob(evidence=True)'])

p('C05', 'Bigrams: every adjacent pair is learned, scoring never overlaps',
  "With bigrams enabled, training on a sequence of tokens counts each distinct token and each distinct pair of adjacent tokens once, whether the tokens come as a list or a one-shot iterator and whether they are text or bytes. Scoring chooses clues among those same tokens and pairs such that no position of the message contributes to two clues and every strong candidate left out overlaps a chosen clue at least as strong (or falls beyond the 150 strongest). Unlearning the same sequence undoes the learning exactly.",
  ['inputs', 'histories'], 'all token sequences of any length (including empty and single-token ones) over any training state',
  'The only bigram test checks two scores against cutoffs, which holds even if the last token is dropped and no pair is ever matched.',
  ['classifiers/basic.py'],
  [('token and pair counts', 'records of unigrams and bigrams', 'classifiers/basic.py: wordinfo')],
  [('sequence to tokens and pairs', 'classifiers/basic.py: _enhance_wordstream'), ('greedy tiling', 'classifiers/basic.py: _getclues')],
  ['learn/unlearn on a bigram classifier', 'spamprob evidence'])

p('C06', 'Persistent classifiers equal the in-memory one and survive a reopen',
  "Under any history of learning, unlearning, scoring, saving, reloading and reopening, each persistent classifier (pickle, shelve, CDB) reports the same totals, token counts and scores as an in-memory classifier given the same training. Saving and then reloading or reopening, in the same or another process, yields exactly the saved state: no token lost, none resurrected, none altered, for any tokens, whether text or bytes. So does pickling any classifier and unpickling it.",
  ['histories', 'inputs'], 'all interleavings of learn, unlearn, score, store, load, close and reopen; any tokens of one type including empty, long, non-ASCII and reserved-looking ones',
  'Tests save a fixed five-word state once and retrain three words; write-through of rare words, pending deletions and changes across several saves have many more combinations.',
  ['classifiers/storage.py', 'safepickle.py', 'cdb.py'],
  [('memory image', 'records and totals held in memory, pending changes and deletions', 'classifiers/storage.py'),
   ('database', 'records and totals in the file', 'classifiers/storage.py')],
  [('pending change and deletion sets', 'classifiers/storage.py: ShelveClassifier'), ('whole-state save', 'classifiers/storage.py: PickleClassifier.store, CDBClassifier.store')],
  ['totals, token counts and scores after each step and after reopening'])

p('C07', 'An abrupt end never leaves an unusable database',
  "A state that has been saved is found again in full even if the process is killed right after the save. If a process ends, between two calls, with training it did not save, reopening gives exactly the last saved state for pickle and CDB databases; for a shelved database every total and every token's counts are then values they had at that save or since, no token count exceeds the total of its kind, and scoring and further training work.",
  ['crash_points', 'histories'], 'every point between two calls at which the process is killed or drops the classifier, after any matched training history with any number of saves',
  'Every test saves and closes properly before it reopens.',
  ['classifiers/storage.py'],
  [('database', 'what reopening finds', 'classifiers/storage.py')],
  [('store reaches the file', 'classifiers/storage.py: ShelveClassifier.store'), ('totals never lag behind token counts on disk', 'classifiers/storage.py: ShelveClassifier._post_training/unlearn')],
  ['reopen in a fresh process after _exit or garbage collection'])

p('C08', 'A pickle file is replaced atomically',
  "At every instant while a pickle is being written, and after a crash of the writer at any point, the file holds either the complete previous value or the complete new value (or does not exist, if it did not exist before); it never holds a partial value. This is so also when the system's temporary directory is on another file system, and a write that fails (for example because the value cannot be pickled) leaves the previous value in place.",
  ['crash_points', 'fault_sequences'], 'every point in the write at which the process can die or an operation can fail; temporary directory on the same or another file system',
  'Tests write pickles that are never interrupted and never look at the file meanwhile.',
  ['safepickle.py'],
  [('target file', 'content visible under the requested name', 'safepickle.py: pickle_write')],
  [('write to a temporary file, then rename', 'safepickle.py: pickle_write')],
  ['content of the target after every step of the write'])

p('C09', 'Pickle readers and writers are serialised and never lose a database',
  "Concurrent reads and writes of one pickle file by several processes or threads behave as if executed one at a time: every read returns the value of the latest write in some order consistent with real time. A caller who cannot get access in time gets an error and has changed nothing. Opening a pickle-backed classifier whose existing file cannot be read (locked by another process, damaged, not permitted) raises instead of presenting an empty classifier that the next save would put in its place.",
  ['schedules', 'fault_sequences'], 'all interleavings of a few readers and writers, including a holder that does not let go; every way in which reading an existing file can fail',
  'Tests use one process and one thread, and no existing file is ever unreadable.',
  ['safepickle.py', 'classifiers/storage.py'],
  [('lock', 'who may touch the file', 'safepickle.py'), ('target file', 'current value', 'safepickle.py')],
  [('file lock around read and write', 'safepickle.py'), ('only a missing or empty file counts as new', 'classifiers/storage.py: PickleClassifier.load')],
  ['call/return history of concurrent reads and writes', 'opening a classifier on an unreadable file'])

p('C10', 'A CDB file gives back exactly what was put in',
  "For any sequence of key/value pairs, the file written is a well-formed constant database: iterating over it yields exactly the pairs in the order given, looking up a key yields the value of its first occurrence, going on from there yields its other values in order, and looking up any other key reports it missing. This holds for empty keys and values, arbitrary text and bytes, repeated keys, and keys whose hashes collide fully or in table or slot.",
  ['inputs'], 'all sequences of pairs, including adversarial hash collisions',
  'The CDB tests are skipped: nothing exercises the file format at all.',
  ['cdb.py'],
  [('hash tables', '256 open-addressing tables', 'cdb.py: cdb_make')],
  [('hash', 'cdb.py: cdb_hash'), ('linear probing', 'cdb.py: cdb_make, Cdb.findnext')],
  ['Cdb lookup and iteration', 'bytes of the file'])

p('C11', 'The message cache is a bounded first-in first-out map',
  "An in-memory corpus with a size limit always holds at most that many messages, namely the most recently first-added ones still not removed; every one of them is found under its key with the value last stored, and keys, values, items, length, iteration and membership agree with each other. Storing again under a present key replaces the value and evicts nothing; removing an absent key changes nothing. A cache supplied by the caller is the one that is used. Messages that were evicted, replaced or removed are not kept in memory.",
  ['histories'], 'all sequences of put, replace, get and remove for every size limit',
  'The tests that touched eviction are skipped; the others never exceed the limit nor store twice under one key.',
  ['corpora/caches.py', 'corpora/base.py'],
  [('entries', 'key to message in insertion order', 'corpora/caches.py: NaiveCache')],
  [('eviction of the oldest key', 'corpora/caches.py: NaiveCache.put')],
  ['corpus get/[]/keys/values/len/in/iteration after every operation'])

p('C12', 'A file corpus mirrors its directory and never loses a message',
  "A file corpus contains exactly the files of its directory that match its name filter: those present when it is opened plus those added minus those removed, however small its memory cache is and however many messages were added. It keeps no more messages in memory than its memory cache may have. Looking up, iterating, counting and membership agree with the directory at every point; a message looked up has its key as identifier and the content that was added, and opening the directory again (even an initially empty one) shows the same messages. A message whose identifier does not match the filter, or that cannot be turned into bytes, is refused without changing anything, and a corpus can always be printed.",
  ['histories', 'configurations'], 'all sequences of add, replace, look up, remove and reopen for every cache size, filter and initial directory content',
  'One test removes a message and two count files right after opening; cache overflow, counting after changes and empty directories are not covered.',
  ['corpora/caches.py', 'corpora/filesystem.py', 'corpora/base.py'],
  [('directory', 'files with messages', 'corpora/caches.py: FileCache'), ('memory cache', 'recently used messages', 'corpora/caches.py: NaiveCache')],
  [('write-through on put, removal on pop', 'corpora/caches.py: FileCache'), ('eviction from memory only', 'corpora/caches.py: NaiveCache.put')],
  ['directory listing and file contents', 'corpus queries'])

p('C13', 'Each corpus change is announced exactly once',
  "Adding a message to a corpus emits the added signal, and removing one emits the removed signal, exactly once, with that corpus as sender and that message, after the change is in effect; with signalling switched off, or if the operation is refused, nothing is emitted. Queries emit nothing and evictions from the memory cache emit nothing. Subscribers of one corpus never hear about another.",
  ['histories'], 'all sequences of operations over several corpora (in-memory, file-backed) and subscribers',
  'One test checks that a subscriber is called at all, by raising from it.',
  ['corpora/base.py', 'corpora/caches.py', 'corpora/filesystem.py'],
  [('signals', 'message added / message removed', 'corpora/base.py')],
  [('emission after the cache operation', 'corpora/base.py: add_message/remove_message')],
  ['signal log interleaved with operations'])

p('C14', 'A trainer keeps its classifier in step with its corpora',
  "While spam and ham trainers watch a set of corpora, the classifier's state equals, after any history of adding new messages to corpora, removing them and moving them between corpora, the training of exactly the messages added to the watched corpora and not removed since, each as the kind its trainer stands for. Evictions from a memory cache and queries train nothing. A message that was just trained is marked with that kind, one that was just untrained is marked untrained. If the classifier raises instead, the message keeps the mark it had. Corpora that are not watched, and operations with signalling switched off, train nothing.",
  ['histories'], 'all histories of additions, removals and moves of messages over several watched and unwatched corpora',
  'The trainer test module is empty.',
  ['trainers.py', 'corpora/base.py', 'classifiers/basic.py'],
  [('trained set', 'messages the classifier currently has learned', 'trainers.py')],
  [('signal subscription of train and untrain', 'trainers.py: Trainer.__init__')],
  ['classifier counts, trained mark and corpus contents after each operation'])

p('C15', 'Expiry removes exactly the messages that are too old',
  "A pass that is due removes from an expiring file corpus exactly the messages older than its age limit and keeps the others, on disk as well as in memory, without untraining them. A pass is skipped only while no message it left behind can have expired, so a pass run after the limit of some message has passed removes it unless it was added after the previous pass less than one age limit ago.",
  ['histories', 'schedules'], 'all sequences of additions, passage of time and expiry passes',
  'The only expiry test is skipped.',
  ['corpora/filesystem.py'],
  [('due time', 'earliest time the next pass does anything', 'corpora/filesystem.py: ExpiryFileCorpus')],
  [('age check per message and next due time', 'corpora/filesystem.py: remove_expired_messages')],
  ['directory and corpus content after each pass'])

p('C16', 'Classification and inserted headers follow the score',
  "A message scored below the ham cutoff (0.2) is classified ham, above the spam cutoff (0.9) spam, otherwise unsure, and the inserted classification header always names the classification the message reports. Score, level, evidence and id headers appear exactly when asked for: the score with the requested digits, one level star per full tenth, the evidence with the two indicators and exactly those clues at most the clue cutoff away from either end, and the id of the message, if it has one. Subject and To are marked exactly when the classification is among those requested for that header, and all other headers and the body stay as they were.",
  ['inputs', 'configurations'], 'all scores in [0, 1], all combinations of options, messages with and without the headers concerned',
  'Tests set one option at a time on one message with three fixed scores.',
  ['message.py', 'classifiers/constants.py'],
  [('classification', 'spam, ham or unsure', 'message.py: Message'), ('headers', 'ordered header list of the message', 'message.py: Message')],
  [('cutoff comparison', 'message.py: set_classification'), ('header insertion', 'message.py: add_sb_headers/add_notations')],
  ['header list and classification after each call'])

p('C17', 'Inserted headers and marks can be removed without residue',
  "Removing the classifier's headers deletes every classification, score, level, evidence, id and training header, however often and by whomever it was inserted, and no other header. The Subject mark and the To mark are removed exactly as selected by their two switches, one mark at most each, so that for a message that has a Subject and a To, adding headers and marks once and removing them again restores the original message. Reporting the current headers returns exactly those of them that are present and changes nothing.",
  ['inputs', 'histories'], 'all messages with Subject and To, all option combinations, any number of insertions and removals',
  'Tests add and remove with both switches on, where exchanging the two switches cannot be seen.',
  ['message.py'],
  [('headers', 'ordered header list', 'message.py: Message')],
  [('removal of headers and marks', 'message.py: remove_sb_headers/remove_notations')],
  ['header list before insertion and after removal'])

p('C18', "A message's identity is assigned once and its state is preserved",
  "Once a message has a non-empty identifier, no call changes it: setting a different one, a reserved one, none, or one that is not text raises and leaves it as it was. Taking the identifier from the message's own header yields that identifier if it can be assigned and nothing otherwise. The training mark is whatever was last remembered, and an identifier, classification and training mark survive saving and restoring the message's state.",
  ['histories', 'inputs'], 'all sequences of identifier, classification and training-mark operations with valid and invalid arguments',
  'Tests call each setter once on a fresh message.',
  ['message.py'],
  [('identifier, classification, training mark', 'persistent state of a message', 'message.py: Message')],
  [('guards in the identifier setter', 'message.py: set_id')],
  ['id(), classification(), is_trained() after each call'])

p('C19', 'Message text always uses CRLF and exception marking keeps the message',
  "Forcing line ends turns every CR LF, lone CR and lone LF into one CR LF and changes nothing else, so that doing it again has no effect, and the text form of a message contains no other line end. Inserting an exception header into the text of a message adds exactly one exception header describing the current exception, plus the id header if an id is given, and leaves every existing header and the body as they were.",
  ['inputs'], 'all texts over any mixture of line ends; all messages with or without body; exceptions with any message text',
  'Tests use LF-only text with one line end style and a fixed one-line exception.',
  ['message.py'],
  [('text', 'characters of the message', 'message.py')],
  [('line end substitution', 'message.py: force_crlf'), ('header insertion before the first blank line', 'message.py: insert_exception_header')],
  ['returned text'])

p('C20', 'Tokenizing succeeds on every message and always gives the same tokens',
  "Every message that can be parsed, however malformed its headers, encodings or body and whichever optional kinds of tokens are switched on, is tokenized without an error into tokens that are all byte strings. Tokenizing the same message again, or the same text parsed again, gives the same tokens in the same order, and tokenizing does not change the message. No message can therefore be scored or trained by one path and refused by another.",
  ['inputs'], 'all messages: any header and body bytes, any content type, transfer encoding and charset declaration',
  'There is no tokenizer test; two fixed clean messages are tokenized in the message tests.',
  ['tokenizer.py', 'strippers.py'],
  [('token stream', 'tokens of a message', 'tokenizer.py: Tokenizer')],
  [('decoding fallbacks', 'tokenizer.py: tokenize_body/tokenize_headers'), ('conversion to bytes', 'tokenizer.py: convert_to_bytes')],
  ['tokens or exception'])

p('C21', 'Body text becomes tokens by fixed word rules',
  "The text of a message body is case-folded, numeric character references are decoded, HTML tags and line-break markup are removed, and the rest is split at white space: words of 3 to 12 bytes are tokens as they stand and shorter words give none. A longer word of less than 40 bytes with a dot and exactly one at-sign gives its two address parts; any other longer word gives one token with its first byte and its length rounded down to a multiple of ten, plus, if it has bytes above 127, one token with their percentage. Markup typical of viruses gives its own tokens.",
  ['inputs'], 'all body texts',
  'There is no tokenizer test.',
  ['tokenizer.py'],
  [('text', 'decoded text of a body part', 'tokenizer.py: tokenize_body')],
  [('word classes', 'tokenizer.py: tokenize_word/tokenize_text'), ('markup removal', 'tokenizer.py: tokenize_body')],
  ['tokens of a body'])

p('C22', 'Embedded sections are cut out exactly and leave their clues',
  "From a body text, every URL, uuencoded section, style sheet, HTML comment and no-frames section is cut out from its start mark to its end mark and everything else is kept unchanged and in order; a start mark without an end mark cuts nothing. URLs begin with a protocol or, when fancy recognition is asked for, also with www. or ftp. at the beginning of a word. A URL leaves its protocol and the separate parts of its host and path, without trailing punctuation, as tokens; a uuencoded section leaves its mode and file name parts. No text outside such a section is lost or duplicated.",
  ['inputs'], 'all texts with any number, order and nesting of complete and incomplete sections',
  'There is no test of the strippers.',
  ['strippers.py', 'tokenizer.py'],
  [('position', 'progress of the scan through the text', 'strippers.py: Stripper.analyze')],
  [('start/end scan', 'strippers.py: Stripper.analyze'), ('URL dissection', 'strippers.py: URLStripper.tokenize')],
  ['returned text and tokens'])

p('C23', 'Following links affects only unsure messages and fetches each once',
  "The pending link is the last http link in the most recently analyzed body text. A link-following classifier without a pending link behaves exactly like the basic one, and so does one whose base score is not unsure or whose message already gives as many clues as can be used; for an unsure message the score changes only if the tokens of the linked page make it sure. A page is fetched at most once: a URL that did not resolve, was not HTML or failed is remembered with its token and not tried again, a fetched page is taken from the cache until it expires, also after a restart. Learning and then unlearning a message with the same link outcome restores the counts. With a proxy configured, nothing is requested past it.",
  ['histories', 'fault_sequences'], 'all histories of scoring, learning and unlearning messages with links, with every outcome of name resolution and retrieval',
  'No test touches this class: it needs a network.',
  ['classifiers/slurping.py', 'corpora/filesystem.py', 'safepickle.py'],
  [('failure caches', 'URL to token for unusable URLs', 'classifiers/slurping.py'), ('page cache', 'fetched pages', 'classifiers/slurping.py')],
  [('unsure test', 'classifiers/slurping.py: spamprob'), ('cache lookup before fetching', 'classifiers/slurping.py: slurp')],
  ['scores, counts, and the log of network calls of a stand-in network'])

p('C24', 'A name lookup leaves the process-wide socket timeout as it was',
  "Whatever the outcome of a forward or reverse name lookup (an answer, no such name, a timeout, any other error), the process-wide default socket timeout afterwards is what it was before, also for nested lookups, and during the lookup it is the lookup limit. A lookup that times out yields an empty result, a reverse lookup of an address without name too.",
  ['fault_sequences', 'histories'], 'all sequences and nestings of lookups with every outcome and any prior timeout value',
  'The DNS tests need the network and are not run; they look only at successful answers.',
  ['dnsutils.py'],
  [('default timeout', 'process-wide socket default timeout', 'dnsutils.py: timed')],
  [('restored in finally', 'dnsutils.py: timed')],
  ['default timeout before, during and after each lookup'])

p('C25', 'Address clues are the exact enclosing networks',
  "The clues of an IPv4 address are, in this order, the enclosing networks with 8, 16, 24 and 32 prefix bits (or exactly the requested prefix lengths), each with all host bits zero, labelled with the given prefix. The same address given as text or as an address object yields the same clues.",
  ['inputs'], 'all IPv4 addresses and all lists of prefix lengths',
  'One test checks one address.',
  ['iputils.py'],
  [('address', 'four octets', 'iputils.py')],
  [('network computation', 'iputils.py: subnets')],
  ['list of clues'])

p('C26', 'A file corpus never touches anything outside its directory',
  "Whatever the identifier of a message, including identifiers taken from a message's own headers that contain path separators, parent references or absolute paths, adding, looking up and removing it creates, reads, changes and deletes no file outside the corpus directory, unless a link that is already in the directory leads there. An identifier that would lead outside is refused, without a signal and without any change. Removing a message whose file is a link to another file leaves that one alone.",
  ['inputs', 'histories'], 'all identifiers, all operations and orders',
  'Tests use single-character identifiers only.',
  ['corpora/caches.py', 'corpora/filesystem.py', 'corpora/base.py'],
  [('directory', 'files of the corpus', 'corpora/caches.py: FileCache')],
  [('check of the key before any file access', 'corpora/caches.py: FileCache')],
  ['file tree around the corpus directory before and after each call'])

p('C27', 'Header lines become tokens by fixed rules',
  "The subject gives its decoded words with their case, its runs of other characters and the charsets it names; each sender and recipient header gives the decoded names in lower case with their charsets, the parts of each address that at signs separate, how many have no name (to the nearest power of two) or that the header is missing, and To and Cc also how many recipients are listed. Of several subject, mailer or message id lines the first counts. The mailer gives its name with case and white space normalized, the message id its host or that it is invalid, each header line of a fixed list its name as spelled and how often it occurs, and each part of the message its content type, type parameter, charset, disposition and file name with the components of the name. There are no other tokens of header lines, except that on request the words of every header line but some become tokens too, with the name of the line.",
  ['inputs'], 'all header lines: any number, order, spelling, encoding and nesting of parts',
  'There is no tokenizer test.',
  ['tokenizer.py', 'strippers.py'],
  [('header lines', 'names and decoded values', 'tokenizer.py: tokenize_headers')],
  [('subject and address tokens', 'tokenizer.py: tokenize_headers'), ('part tokens', 'strippers.py: crack_content_xyz')],
  ['tokens of a message without body text'])

p('C28', 'Optional kinds of tokens follow their options',
  "Each option that adds, replaces or drops a kind of token does exactly that and nothing else, alone and with the others. Counting all header lines gives each name that occurs and how often, and recording absence gives each name of the fixed list that no line has. Received lines give their short complaints in parentheses and, for the first host and the first bracketed address of the line, all ends or beginnings of its components; common prefixes and suffixes of all recipients' addresses give their length relative to the number of recipients. The Habeas lines give which of the nine are right and which are wrong, or one verdict; the posting host of news gives its name, domain and networks, with what the resolver says. Non-ASCII and control characters of the body can be replaced by question marks; a URL taken apart gives its protocol, escapes, user, non-standard port, numeric address, and components with the domain's ends, and, if asked for, the networks of every address that the resolver's cache knows for its host, or that it knows none; tokens of long words can be dropped, the longest run of short words recorded, and images and unknown attachments give the power of two of their size or the first bytes of their content.",
  ['inputs', 'configurations'], 'all messages under every combination of these options',
  'These paths are off by default and no test turns them on.',
  ['tokenizer.py', 'strippers.py'],
  [('messages', 'header lines, text, attachments', 'tokenizer.py: Tokenizer.tokenize'), ('module constants', 'options', 'tokenizer.py: the constants at its top')],
  [('optional header tokens', 'tokenizer.py: tokenize_headers'), ('optional body tokens', 'tokenizer.py: tokenize_body, strippers.py: URLStripper.tokenize'), ('posting host', 'tokenizer.py: mine_nntp')],
  ['tokens of a message with options switched on'])

p('C29', 'A message keeps its tokens and its effect however it is kept',
  "The tokens of a message do not depend on how it got here: whether its lines end with CR LF, LF or CR, whether it was read from bytes, text or a file, and whether it has been written as bytes or text and read again, stored in a file corpus, dropped from memory, looked up after the directory is opened again, scored, trained, or marked with all the classifier's headers and cleaned. So its score depends only on what the classifier has been trained on, and training on a message and untraining it after any of this, also through trainers watching file corpora and after the classifier has been saved and loaded, leaves no trace. This is for messages as read from bytes, however malformed, apart from delivery-status parts that are not blocks of header lines; the text form is for those of ASCII characters, and lines that begin with From are kept only if they are not to be quoted.",
  ['inputs', 'histories'], 'all messages and all histories of reading, passing on, marking, storing, reopening, training and untraining',
  'Tests never write a message and read it again before comparing tokens or untraining.',
  ['message.py', 'corpora/caches.py', 'trainers.py', 'tokenizer.py', 'classifiers/basic.py'],
  [('message', 'object at hand and stored form, with or without marks', 'message.py: Message; corpora/caches.py: FileCache'), ('training', 'what the classifier has learned', 'classifiers/basic.py: wordinfo')],
  [('reading and writing messages', 'message.py: from_bytes, from_string, as_bytes, as_string'), ('write-through of file corpora', 'corpora/caches.py: FileCache.put')],
  ['tokens, score and classifier state after every step'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
