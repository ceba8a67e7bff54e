"""Source of MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ model checked with TLC; every transition of the bounded state graph replayed in the real code and all recorded histories (replayed and random) validated against the specification by TLC'
C = {
 'C01': ('model_checking', TV, 'Exhaustive over all histories of two tokens and two messages of each kind (model and real code), random beyond; trusts TLC and the projection of the classifier (nspam, nham, per-token record).'),
 'C02': ('model_checking', TV, 'Every failing position of the bounded histories on all four backends plus random histories with eleven kinds of failing sources.'),
 'C03': ('model_checking', TV, 'Scores are compared as a function of the specified state: all histories that reach the same state, and a classifier built directly in that state, have to agree.'),
 'C06': ('model_checking', TV, 'All bounded histories of training, saving, reloading and reopening on each backend plus random histories with exotic tokens; dbm is dbm.ndbm here.'),
 'C07': ('model_checking', TV, 'Processes are really killed between calls; what reopening finds is checked against the nondeterministic specification of an abrupt end. One known finding (buffer overflow of the dbm library).'),
 'C04': ('model_checking', 'TLA+: the scoring rule specified with exact big-number arithmetic, evaluated and compared by TLC on recorded scorings of the real code; histories from the model checked state graph', 'Exact intervals of TLA+ big numbers against the floating-point results, within 1e-9; statistical precision of chi2Q is bounded, not proved.'),
 'C05': ('model_checking', TV, 'Every sequence of up to the bounded length over a small alphabet, random beyond; the chosen clues are checked against the non-overlap and maximality rules, not against one order of ties.'),
 'C08': ('model_checking', 'TLA+ model of the replace protocol checked with TLC (with two defective protocols that it must reject); the real writer is stopped or killed at every system-level step and each observation validated against the specification by TLC', 'Instants are the audit events of the interpreter (open, rename, ...) plus random kill times; durability against power loss is not claimed.'),
 'C09': ('model_checking', 'TLA+ lock protocol model checked with TLC; concurrent histories of real processes and threads searched for a linearization by TLC', 'Schedules are those the machine produced under random delays; every interleaving only in the model.'),
 'C10': ('model_checking', TV, 'Bounded databases of the model with real colliding keys, random beyond; files stay below 16 MB.'),
 'C11': ('model_checking', TV, 'All histories over three keys with two versions and limits 0..2, random beyond.'),
 'C12': ('model_checking', TV, 'All histories over three keys for several cache sizes, random over filters, directories, reopening and failing writes; nobody else changes or removes files of the directory.'),
 'C13': ('model_checking', TV, 'Bounded histories over pairs of corpora, random beyond; removing an absent message may or may not be announced.'),
 'C14': ('model_checking', TV, 'Histories of adding new messages, removing present ones and moving; re-adding a present key and removing an absent or evicted message are outside the property.'),
 'C15': ('model_checking', TV, 'All histories of the bounded time model, random beyond; the clock of the process is simulated and file times are set to it.'),
 'C16': ('model_checking', TV, 'Histories of the bounded header model and random ones over all options; scores are multiples of 1e-6, ties in rounding may go either way.'),
 'C17': ('model_checking', TV, 'The round trip is checked in the model for every small message and on the real code for random messages that have a Subject and a To.'),
 'C18': ('model_checking', TV, 'All transitions of the identity model in the real code, random arguments beyond.'),
 'C19': ('model_checking', TV, 'All texts over four characters up to the bounded length, random messages and exceptions beyond; the text form is compared with that of the standard library.'),
 'C20': ('model_checking', TV, 'Damaged messages of a grammar of hard cases, read by several interleaved readers in several processes with different hash seeds; with the options of the tokenizer at their defaults, all on or mixed (not those that need modules of another project).'),
 'C21': ('model_checking', 'TLA+: the word rules specified over byte sequences (tags, references, white space, words); every text of the bounded model and random texts are tokenized by the real code and TLC compares the tokens', 'All texts of up to the bounded number of pieces, random messages beyond; compared as bags; a percentage may be rounded either way at ties.'),
 'C22': ('model_checking', 'TLA+: the cutting of sections specified over byte sequences and model checked (nothing lost, nothing duplicated, every complete section cut); every text of the bounded models and random ones are cut by the real code and TLC compares rest and tokens', 'All texts of up to the bounded number of pieces for each of the five kinds, random beyond; the clues of a start mark that is never closed are left open.'),
 'C23': ('model_checking', TV, 'The network is a stand-in: a resolver and a web server on the loopback interface that answer as the script says; time passes between processes only; options are changed between histories and at restarts.'),
 'C24': ('model_checking', TV, 'The resolver is a stand-in; lookups nest but do not overlap between threads (for overlapping ones TLC finds the leak of the saved value in MCDnsRace, which the property excludes).'),
 'C25': ('model_checking', 'TLA+: networks specified arithmetically and characterized by their bits (model checked); the real functions are run on every address of the model and random ones and TLC compares the texts', 'Complete over the chosen octets, random over the rest of the address space and of the prefix lengths.'),
 'C27': ('model_checking', 'TLA+: the rules from header values to tokens specified over code points and bytes and model checked (words and punctuation cover the subject, message ids, spellings, rounding); every text of the bounded models and random messages are tokenized by the real code and TLC compares the tokens', 'Encoded words, mailboxes and parameters are generated from known content in many spellings and not taken apart by the specification; characters beyond ASCII come from a fixed list; malformed address lists are left to C20; tokens are compared as sets; options at their defaults.'),
 'C28': ('model_checking', 'TLA+: the rules of the optional kinds of tokens specified over code points and bytes and model checked; every text of the bounded models and random messages under random combinations of options are tokenized by the real code and TLC compares the tokens', 'Options are the constants of the tokenizer module; the resolver is a stand-in; options that need modules of another project (images by OCR, lookup of IP addresses, fancy URLs) are not run; tokens are compared as sets.'),
 'C29': ('model_checking', 'TLA+: keeping, marking and training of messages specified and model checked against a counting classifier; every transition of the model and random walks through it are replayed with malformed messages in the real code and TLC compares tokens, scores and states', 'Two messages and three file corpora at a time; scores may differ by 1e-9; delivery-status parts are not generated.'),
 'C26': ('model_checking', TV, 'File operations are observed with an audit hook and by comparing everything around the corpus directory; no symbolic links are planted.'),
}
checks = [{'property': p, 'quick_cmd': 'VERIF_TIER=quick bin/check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p,
           'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': l, 'level_note': n}
          for p, (l, t, n) in sorted(C.items())]
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [{'property': i, 'reason': 'the check is still being built'} for i in ids if i not in C]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
