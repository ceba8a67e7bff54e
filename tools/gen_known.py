"""Source of known_findings.json."""
import json, os, subprocess
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
commits = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
F = [
 ('C02', 'fix: failing token sources no longer half-train a classifier', 'a token source that raises part-way left totals and some counts changed'),
 ('C05', 'fix: bigrams of one-shot iterators and of bytes tokens', 'bigrams were lost for iterators and malformed for bytes tokens'),
 ('C06', 'fix: unpickled classifiers know whether they use bigrams', 'an unpickled classifier raised AttributeError on _use_bigrams'),
 ('C08', 'fix: pickle_write replaces the file atomically and leaves no temporary file', 'the temporary file was copied over the target when on another file system; failed writes left it behind'),
 ('C09', 'fix: a pickle that cannot be read is not taken for a new database', 'a locked or damaged pickle was presented as an empty classifier'),
 ('C10', 'fix: constant databases hold bytes, with lengths in bytes', 'writing any CDB file failed; lengths were those of text'),
 ('C06', 'fix: CDB classifiers can be stored and loaded, whatever the tokens', 'CDBClassifier could neither store nor load'),
 ('C06', 'fix: shelved classifiers keep all tokens, also bytes and that of the state key', 'bytes tokens raised, and a token equal to the state key destroyed the totals'),
 ('C06', 'fix: text tokens with lone surrogates can be stored', 'tokens with lone surrogates raised while storing'),
 ('C07', 'fix: a stored shelved classifier is on disk and can be loaded again', 'store() left the data in a buffer, lost when the process was killed; a stored classifier could not be loaded'),
 ('C07', 'fix: totals in a shelved database are never below the counts of its tokens', 'unlearning without saving left token counts above the totals'),
 ('C11', 'fix: a corpus uses the cache it is given even if that is empty', 'an empty cache supplied by the caller was ignored'),
 ('C11', 'fix: storing a cached key again evicts nothing, and caches have items', 'replacing a message evicted another one'),
 ('C12', 'fix: evicting a message from memory does not delete its file', 'messages beyond the cache size were deleted from disk'),
 ('C26', 'fix: a file corpus refuses message identifiers that are not file names', 'identifiers with path separators created and deleted files outside the directory'),
 ('C12', 'fix: file corpora have a representation', 'repr() of a file corpus raised AttributeError'),
 ('C12', 'fix: printing a file corpus does not raise', 'repr() of a file corpus still raised ValueError (a precision for an integer)'),
 ('C15', 'fix: expired messages are removed from file corpora', 'expiry never removed anything (AttributeError)'),
 ('C14', 'fix: removing a message from a watched corpus untrains it', 'removal was not connected to untraining'),
 ('C17', 'fix: the switches for removing the subject mark and the To mark are not swapped', 'the two switches were exchanged'),
 ('C18', 'fix: an identifier header that is not plain text is ignored', 'set_id_from_payload raised TypeError'),
 ('C17', 'fix: marks on headers with non-ASCII bytes', 'marking or unmarking headers with non-ASCII bytes raised or lost bytes'),
 ('C16', 'fix: no identifier header for a message without an identifier', 'a message without identifier raised or got a None header'),
 ('C19', 'fix: exception headers are inserted into the headers, whatever the line ends', 'exception headers ended up in the body or broke the headers'),
 ('C20', 'fix: every message can be tokenized, and embedded sections leave their tokens', 'mixtures of text and bytes made tokenizing raise for many messages (also C21, C22)'),
 ('C20', 'fix: the tokens of a message always come in the same order', 'multipart messages gave their tokens in an arbitrary order'),
 ('C25', 'fix: requested prefix lengths of subnets are respected', 'requested prefix lengths were ignored'),
 ('C12', 'fix: a message looked up in a file corpus has its key as identifier', 'a message added under a key that is not its identifier was looked up with another identifier than its key, and could not be removed or expired'),
 ('C23', 'fix: the link-following classifier works and remembers what it fetched', 'any use of the link-following classifier raised, links were never seen'),
 ('C23', 'fix: a cached page is used even if its host does not resolve any more', 'a page in the cache was not used when its host no longer resolved'),
 ('C28', 'fix: picking URLs apart works on the bytes of a text', 'with URLs picked apart, every text with a URL raised'),
 ('C28', "fix: each address of a URL's host gives its networks", 'with hosts of URLs looked up, every text with a URL whose host has addresses raised'),
 ('C28', 'fix: the absence of a header is recorded for those that are absent', 'the absence of headers was never recorded'),
 ('C28', 'fix: mining the posting host of news works for names, addresses and neither', 'mining the posting host raised for every message that has one'),
 ('C20', 'fix: a posting host that is no address the resolver takes gives no names', 'with news posting hosts mined, an IPv6 address with a scope made tokenizing raise'),
 ('C29', 'fix: a message that is written and read again has the same header lines', 'long header lines were folded when a message was stored, so that it had other tokens when looked up again and untraining it left traces; multipart messages without parts and with non-ASCII bytes, and header lines with control characters, could not be stored at all'),
 ('C29', 'fix: a message has the same tokens with any kind of line ends', 'a folded subject gave other tokens with CR LF than with LF, and a stored message changed from one to the other'),
 ('C20', 'fix: attachments whose encoding cannot be read are tokenized', 'with the first bytes of attachments or the sizes of images as tokens, a text message whose Content-Transfer-Encoding has a lone surrogate made tokenizing raise'),
 ('C28', 'fix: a run of short words at the end of a text is counted', 'with runs of short words as tokens, a run at the end of a text was never counted'),
]
out = []
for prop, msg, what in F:
    h = commits[msg]
    out.append({'property': prop, 'kind': 'fixed', 'commit': h, 'what': what,
                'line': 'fixed: property=%s %s %s' % (prop, h, what)})
for b in ('shelve',):
    for how in ('kill',):
        out.append({'property': 'C07', 'kind': 'known', 'signature': 'unsaved-flood-%s-%s' % (b, how),
                    'what': 'a shelved classifier that learns 1500 messages of 20 new tokens without saving and whose process is then '
                            + ('killed' if how == 'kill' else 'ended without closing') + ' loses its totals: the dbm library (Berkeley DB 1.85) '
                            'writes single pages when its buffer overflows'})
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
json.dump({'findings': out}, open(path, 'w'), indent=1)
print(len(out))
