From b8f705024fb88eb84c00a4df0c3d5fd59077a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 01/41] fix: failing token sources no longer half-train a
 classifier

---
 sbclassifier/classifiers/basic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 573988b..36a1163 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -438,13 +438,17 @@ class Classifier:
     # in a msg, but distorting spamprob doesn't appear a correct way to exploit
     # it.
     def _add_msg(self, wordstream, is_spam):
+        # Consume the whole stream before changing anything, so that a stream
+        # that fails part-way leaves the classifier as it was.
+        words = set(wordstream)
+
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             self.nspam += 1
         else:
             self.nham += 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is None:
                 record = self.WordInfoClass()
@@ -459,6 +463,9 @@ class Classifier:
         self._post_training()
 
     def _remove_msg(self, wordstream, is_spam):
+        # See _add_msg().
+        words = set(wordstream)
+
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             if self.nspam <= 0:
@@ -469,7 +476,7 @@ class Classifier:
                 raise ValueError("non-spam count would go negative!")
             self.nham -= 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is not None:
                 if is_spam:
-- 
2.43.0


From 34fdb244f5f01e9496806f2b273a2f6aad5af9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 02/41] fix: bigrams of one-shot iterators and of bytes tokens

---
 sbclassifier/classifiers/basic.py | 39 +++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 36a1163..0bc4016 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -41,7 +41,6 @@ of scores, and good cutoff values aren't touchy).
 This implementation is due to Tim Peters et alia.
 
 """
-import itertools
 import math
 
 #: The natural logarithm of two; this is used frequently by a function
@@ -130,6 +129,18 @@ def chi2Q(x2, v):  # , exp=math.exp, min=min):
     return min(result, 1.0)
 
 
+def make_bigram(first, second):
+    """Returns the token for the pair of adjacent tokens `first` and `second`.
+
+    The bigram of two bytes objects, as generated by the tokenizer, is a bytes
+    object again; otherwise it is a string.
+
+    """
+    if isinstance(first, bytes) and isinstance(second, bytes):
+        return b'bi:' + first + b' ' + second
+    return BIGRAM_FORMAT.format(first, second)
+
+
 class WordInfo(object):
     """Represents the number of occurences of a word in spam and in ham.
 
@@ -339,15 +350,13 @@ class Classifier:
         removed, too.
 
         """
-        # For the sake of brevity, create an alias.
-        chain = itertools.chain.from_iterable
-        # Create an iterable of bigrams from `wordstream`.
-        bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
-        # This string interpolation must match the one in _getclues().
-        to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
-        # This interleaves the individual strings from `wordstream` with the
-        # string representation of the bigrams.
-        return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
+        last_token = None
+        for i, token in enumerate(wordstream):
+            yield token
+            if i:
+                # This must match the bigrams in _getclues().
+                yield make_bigram(last_token, token)
+            last_token = token
 
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
@@ -530,16 +539,16 @@ class Classifier:
             # a synthesized bigram token.  The indices are needed to detect
             # overlap later.
             raw = []
-            pair = None
             # Keep track of which tokens we've already seen.
             seen = set()
             for i, token in enumerate(wordstream):
+                candidates = [(token, (i,))]
                 if i:   # not the 1st loop trip, so there is a preceding token
-                    # This string interpolation must match the one in
-                    # _enhance_wordstream().
-                    pair = BIGRAM_FORMAT.format(last_token, token)
+                    # This must match the bigrams in _enhance_wordstream().
+                    pair = make_bigram(last_token, token)
+                    candidates.append((pair, (i - 1, i)))
                 last_token = token
-                for clue, indices in (token, (i,)), (pair, (i - 1, i)):
+                for clue, indices in candidates:
                     if clue not in seen:    # as always, skip duplicates
                         seen.add(clue)
                         tup = self._worddistanceget(clue)
-- 
2.43.0


From e363606d082a915402877a5fb80b471d8b7bb62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 03/41] fix: unpickled classifiers know whether they use
 bigrams

---
 sbclassifier/classifiers/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 0bc4016..ac6aa7c 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -199,12 +199,15 @@ class Classifier:
         self.nham = 0
 
     def __getstate__(self):
-        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
+        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham,
+                self._use_bigrams)
 
     def __setstate__(self, t):
         if t[0] != PICKLE_VERSION:
             raise ValueError("Can't unpickle; version %s unknown".format(t[0]))
-        self.wordinfo, self.nspam, self.nham = t[1:]
+        self.wordinfo, self.nspam, self.nham = t[1:4]
+        # Older states do not tell whether bigrams are used.
+        self._use_bigrams = t[4] if len(t) > 4 else USE_BIGRAMS
         self._probcache = {}
 
     # Implementation note: Across vectors of length n, containing random
-- 
2.43.0


From 41ce3e597b6bc1ce8e4dda2986a664e18d8d1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 04/41] fix: pickle_write replaces the file atomically and
 leaves no temporary file

---
 sbclassifier/safepickle.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 943bc76..9c2a618 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -5,8 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import os
 import pickle
-import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -28,7 +28,15 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
-        # first, then move the data to the requested filename second.
-        with NamedTemporaryFile(delete=False) as fp:
-            pickle.dump(value, fp, protocol)
-        shutil.move(fp.name, filename)
+        # first, then move the data to the requested filename second. Both are
+        # in the same directory, because only a rename within one file system
+        # replaces the file atomically.
+        dirname = os.path.dirname(os.path.abspath(filename))
+        fp = NamedTemporaryFile(dir=dirname, delete=False)
+        try:
+            with fp:
+                pickle.dump(value, fp, protocol)
+            os.replace(fp.name, filename)
+        except BaseException:
+            os.unlink(fp.name)
+            raise
-- 
2.43.0


From fa0713c62b55c1e6bb29ec3ae4c12cfcc3e91ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 05/41] fix: a pickle that cannot be read is not taken for a
 new database

---
 sbclassifier/classifiers/storage.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2477e6b..1a9c2a3 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -154,16 +154,24 @@ class PickleClassifier(StoredClassifierBase):
         # tempbayes object is reclaimed when load() returns.
         logging.debug('Loading state from %s pickle', self.filename)
 
+        # Only a missing or empty file is a new pickle. If an existing file cannot
+        # be read, for example because it is locked or damaged, presenting an
+        # empty classifier would let the next store() destroy the database.
         try:
-            tempbayes = pickle_read(self.filename)
-        except:
-            # new pickle
+            is_new = os.stat(self.filename).st_size == 0
+        except FileNotFoundError:
+            is_new = True
+
+        if is_new:
             logging.debug('%s is a new pickle', self.filename)
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+            self._probcache = {}
             return
 
+        tempbayes = pickle_read(self.filename)
+
         # Copy state from tempbayes.  The use of our base-class __setstate__ is
         # forced, in case self is of a subclass of PickledClassifier that
         # overrides __setstate__.
-- 
2.43.0


From 5a9ae6111e0bb76bdf130fbc0deb766f0d5bf100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 06/41] fix: constant databases hold bytes, with lengths in
 bytes

---
 sbclassifier/cdb.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0f25cbd..eba5f39 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -30,10 +30,17 @@ def cdb_hash(buf):
     h = CDB_HASHSTART
     for c in buf:
         h = (h + (h << 5)) & 0xffffffff
-        h ^= ord(c)
+        h ^= c
     return h
 
 
+def to_bytes(s):
+    """Returns `s`, a key or a value, as bytes; text is encoded as UTF-8."""
+    if isinstance(s, str):
+        return s.encode('utf-8', 'surrogatepass')
+    return s
+
+
 class Cdb(object):
 
     def __init__(self, fp):
@@ -110,6 +117,7 @@ class Cdb(object):
             return 0
 
     def findnext(self, key):
+        key = to_bytes(key)
         if not self.loop:
             u = cdb_hash(key)
             buf = self.read(8, u << 3 & 2047)
@@ -170,10 +178,11 @@ def cdb_make(outfile, items):
     # write keys and data
     outfile.seek(pos)
     for key, value in items:
+        key, value = to_bytes(key), to_bytes(value)
         outfile.write(uint32_pack(len(key)) + uint32_pack(len(value)))
         h = cdb_hash(key)
-        outfile.write(bytes(key, 'utf-8'))
-        outfile.write(bytes(value, 'utf-8'))
+        outfile.write(key)
+        outfile.write(value)
         tables.setdefault(h & 255, []).append((h, pos))
         pos += 8 + len(key) + len(value)
 
-- 
2.43.0


From 793267b44641c2bab372a121ed79c42aa76a7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 07/41] fix: CDB classifiers can be stored and loaded, whatever
 the tokens

---
 sbclassifier/classifiers/storage.py | 73 +++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 1a9c2a3..cc78db8 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -51,21 +51,16 @@ import os
 # import tempfile
 # import errno
 import shelve
+from tempfile import NamedTemporaryFile
+
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
-# from sbclassifier import cdb
+from sbclassifier.cdb import Cdb
+from sbclassifier.cdb import cdb_make
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 
-try:
-    from cdb import cdb_read
-    from cdb import cdb_write
-    cdb_is_available = True
-except ImportError:
-    cdb_is_available = False
-
-
 # A little magic.  We'd like to use ZODB as the default storage,
 # because we've had so many problems with bsddb, and we'd like to swap
 # to new ZODB problems <wink>.  However, apart from this, we only need
@@ -105,6 +100,31 @@ WORD_CHANGED = "C"
 
 STATE_KEY = 'saved state'
 
+
+def token_to_key(token):
+    """Returns the text under which `token`, which may be text or bytes, is
+    stored in a database whose keys are text.
+
+    Different tokens have different keys, and none has the key that is used
+    for the state of the classifier.
+
+    """
+    if isinstance(token, bytes):
+        return '\0b' + token.decode('latin-1')
+    if token == STATE_KEY or token.startswith('\0'):
+        return '\0t' + token
+    return token
+
+
+def key_to_token(key):
+    """Returns the token with the given key; see :func:`token_to_key`."""
+    if key.startswith('\0b'):
+        return key[2:].encode('latin-1')
+    if key.startswith('\0t'):
+        return key[2:]
+    return key
+
+
 # # Make shelve use binary pickles by default.
 # oldShelvePickler = shelve.Pickler
 
@@ -630,15 +650,17 @@ class CDBClassifier(StoredClassifierBase):
 
     def load(self):
         if os.path.exists(self.filename):
-            data = cdb.read(self.filename)
-            self.nham, self.nspam = [int(i) for i in
-                                     data[self.statekey].split(',')]
-            # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
-            #                  for k, v in data.items()
-            #                  if k != self.statekey}
-            from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
-            self.wordinfo = {k: from_string(v) for k, v in data.items()
-                             if k != self.statekey}
+            with open(self.filename, 'rb') as fp:
+                data = Cdb(fp)
+                items = data.items()
+                data.close()
+            # Every value is the number of ham and the number of spam.
+            counts = {k.decode('utf-8', 'surrogatepass'):
+                      tuple(int(n) for n in v.decode('ascii').split(','))
+                      for k, v in items}
+            self.nham, self.nspam = counts.pop(self.statekey)
+            self.wordinfo = {key_to_token(key): WordInfo(nspam, nham)
+                             for key, (nham, nspam) in counts.items()}
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
                           self.filename, self.nham, self.nspam)
         else:
@@ -646,12 +668,23 @@ class CDBClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+        self._probcache = {}
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
-        items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
+        items.extend((token_to_key(word), '{:d},{:d}'.format(info.hamcount,
+                                                             info.spamcount))
                      for word, info in self.wordinfo.items())
-        cdb.write(self.filename, items)
+        # Replace the database only when the new one is complete.
+        dirname = os.path.dirname(os.path.abspath(self.filename))
+        fp = NamedTemporaryFile(dir=dirname, delete=False)
+        try:
+            with fp:
+                cdb_make(fp, items)
+            os.replace(fp.name, self.filename)
+        except BaseException:
+            os.unlink(fp.name)
+            raise
 
 
 # # If ZODB isn't available, then this class won't be useable, but we
-- 
2.43.0


From 80847aaab210674da20ad70099533b796b2473e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 08/41] fix: shelved classifiers keep all tokens, also bytes
 and that of the state key

---
 sbclassifier/classifiers/storage.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index cc78db8..79d18cb 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -262,7 +262,7 @@ class ShelveClassifier(StoredClassifierBase):
         # the naive way.
         for word in self.changed_words:
             val = self.wordinfo[word]
-            self.db[word] = val.__getstate__()
+            self.db[token_to_key(word)] = val.__getstate__()
         for word in self.deleted_words:
             if word in self.wordinfo:
                 msg = ('Should not have a wordinfo for "{}", flagged for'
@@ -270,7 +270,7 @@ class ShelveClassifier(StoredClassifierBase):
                 raise Exception(msg)
             # Word may be deleted before it was ever written.
             try:
-                del self.db[word]
+                del self.db[token_to_key(word)]
             except KeyError:
                 pass
 
@@ -301,7 +301,7 @@ class ShelveClassifier(StoredClassifierBase):
         except KeyError:
             ret = None
             if word not in self.deleted_words:
-                r = self.db.get(word)
+                r = self.db.get(token_to_key(word))
                 if r:
                     ret = self.WordInfoClass()
                     ret.__setstate__(r)
@@ -327,7 +327,7 @@ class ShelveClassifier(StoredClassifierBase):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
         if record.spamcount + record.hamcount <= 1:
-            self.db[word] = record.__getstate__()
+            self.db[token_to_key(word)] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
                 try:
                     wordset.remove(word)
@@ -352,9 +352,8 @@ class ShelveClassifier(StoredClassifierBase):
         self.deleted_words.add(word)
 
     def _wordinfokeys(self):
-        wordinfokeys = list(self.db.keys())
-        del wordinfokeys[wordinfokeys.index(self.statekey)]
-        return wordinfokeys
+        return [key_to_token(key) for key in self.db.keys()
+                if key != self.statekey]
 
 
 # TODO this should be replaced with a SQLAlchemy-backed classifier.
-- 
2.43.0


From c66ae98ae4d2673faf86882f23bc1e8888b0ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 09/41] fix: text tokens with lone surrogates can be stored

---
 sbclassifier/classifiers/storage.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 79d18cb..09e26ee 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -111,8 +111,15 @@ def token_to_key(token):
     """
     if isinstance(token, bytes):
         return '\0b' + token.decode('latin-1')
-    if token == STATE_KEY or token.startswith('\0'):
-        return '\0t' + token
+    is_special = token == STATE_KEY or token.startswith('\0')
+    try:
+        raw = token.encode('utf-8')
+    except UnicodeEncodeError:
+        # There are lone surrogates in it.
+        raw = token.encode('utf-8', 'surrogatepass')
+        is_special = True
+    if is_special:
+        return '\0t' + raw.decode('latin-1')
     return token
 
 
@@ -121,7 +128,7 @@ def key_to_token(key):
     if key.startswith('\0b'):
         return key[2:].encode('latin-1')
     if key.startswith('\0t'):
-        return key[2:]
+        return key[2:].encode('latin-1').decode('utf-8', 'surrogatepass')
     return key
 
 
@@ -654,7 +661,7 @@ class CDBClassifier(StoredClassifierBase):
                 items = data.items()
                 data.close()
             # Every value is the number of ham and the number of spam.
-            counts = {k.decode('utf-8', 'surrogatepass'):
+            counts = {k.decode('utf-8'):
                       tuple(int(n) for n in v.decode('ascii').split(','))
                       for k, v in items}
             self.nham, self.nspam = counts.pop(self.statekey)
-- 
2.43.0


From f09de145a4339759c6b86e05cfdf0c0c121bf5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 10/41] fix: a stored shelved classifier is on disk and can be
 loaded again

---
 sbclassifier/classifiers/storage.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 09e26ee..ddf7d57 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -227,6 +227,7 @@ class ShelveClassifier(StoredClassifierBase):
         self.statekey = STATE_KEY
         self.flag = flag
         self.filename = filename
+        self.db = None
         self.load()
 
     def close(self):
@@ -241,6 +242,9 @@ class ShelveClassifier(StoredClassifierBase):
         #     self.db = shelve.Shelf(self.dbm)
         #
         # Does having a shelved DBM afford any benefit over just a shelf?
+        if self.db is not None:
+            # Opening a database twice loses changes.
+            self.db.close()
         self.db = shelve.open(self.filename, self.flag)
         if self.statekey in self.db:
             t = self.db[self.statekey]
@@ -256,6 +260,7 @@ class ShelveClassifier(StoredClassifierBase):
             self.nspam = 0
             self.nham = 0
         self.wordinfo = {}
+        self._probcache = {}
         self.deleted_words = set()
         self.changed_words = set()
 
@@ -286,7 +291,10 @@ class ShelveClassifier(StoredClassifierBase):
         self.changed_words.clear()
         # Update the global state, then do the actual save.
         self._write_state_key()
-        self.db.sync()
+        # Not every kind of DBM has a sync() method, but closing always brings
+        # everything to the disk.
+        self.db.close()
+        self.db = shelve.open(self.filename, 'w')
 
     def _write_state_key(self):
         self.db[self.statekey] = (PICKLE_VERSION, self.nspam, self.nham)
-- 
2.43.0


From 78b7cd412ef6f489494461772785db6c0287f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 11/41] fix: totals in a shelved database are never below the
 counts of its tokens

---
 sbclassifier/classifiers/storage.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index ddf7d57..052e009 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -266,6 +266,15 @@ class ShelveClassifier(StoredClassifierBase):
 
     def store(self):
         logging.debug('Persisting %s state in database', self.filename)
+        self._write_words()
+        # Update the global state, then do the actual save.
+        self._write_state_key()
+        # Not every kind of DBM has a sync() method, but closing always brings
+        # everything to the disk.
+        self.db.close()
+        self.db = shelve.open(self.filename, 'w')
+
+    def _write_words(self):
         # Iterate over our changed word list.
         #
         # This is *not* thread-safe - another thread changing our changed_words
@@ -289,12 +298,12 @@ class ShelveClassifier(StoredClassifierBase):
         # Reset the changed and deleted word lists.
         self.deleted_words.clear()
         self.changed_words.clear()
-        # Update the global state, then do the actual save.
-        self._write_state_key()
-        # Not every kind of DBM has a sync() method, but closing always brings
-        # everything to the disk.
-        self.db.close()
-        self.db = shelve.open(self.filename, 'w')
+
+    def _remove_msg(self, wordstream, is_spam):
+        super()._remove_msg(wordstream, is_spam)
+        # The state key has been written with the lower number of messages, so
+        # that the lower counts of the words must not stay in memory only.
+        self._write_words()
 
     def _write_state_key(self):
         self.db[self.statekey] = (PICKLE_VERSION, self.nspam, self.nham)
-- 
2.43.0


From fd58b6e1e4529c8fae29c49326636d826cd25935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 12/41] fix: a corpus uses the cache it is given even if that
 is empty

---
 sbclassifier/corpora/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 1b9c2ab..85da239 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -137,7 +137,10 @@ class Corpus:
     """
 
     def __init__(self, cache=None):
-        self.message_cache = cache or NaiveCache(max_size=INFINITY)
+        # An empty cache is false, so compare it with None.
+        if cache is None:
+            cache = NaiveCache(max_size=INFINITY)
+        self.message_cache = cache
         # dict of all messages in corpus; value is None if msg not currently
         # loaded
         #self.msgs = {}
-- 
2.43.0


From 95e6140b8b2a54e7e47860984c12de2952cf18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 13/41] fix: storing a cached key again evicts nothing, and
 caches have items

---
 sbclassifier/corpora/caches.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7cf8953..0865c67 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -40,6 +40,9 @@ class Cache:
     def values(self):
         raise NotImplemented
 
+    def items(self):
+        raise NotImplemented
+
     def put(self, key, value):
         raise NotImplemented
 
@@ -85,11 +88,15 @@ class NaiveCache(Cache):
     def values(self):
         return self.data.values()
 
+    def items(self):
+        return self.data.items()
+
     def put(self, key, value):
         logging.debug('Caching %s', key)
-        self.data[key] = value
         # Here is where we manage the in-memory cache size...
-        self._keys.append(key)
+        if key not in self.data:
+            self._keys.append(key)
+        self.data[key] = value
         # Optimization: only keep the `self.max_size` entries put into the
         # cache most recently.
         if len(self._keys) > self.max_size:
-- 
2.43.0


From ea302c5f53b3d2c21c5112344600accf8d0ace9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 14/41] fix: evicting a message from memory does not delete its
 file

---
 sbclassifier/corpora/caches.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 0865c67..f051da4 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -101,12 +101,15 @@ class NaiveCache(Cache):
         # cache most recently.
         if len(self._keys) > self.max_size:
             key_to_flush = self._keys[0]
-            self.pop(key_to_flush)
+            self._flush(key_to_flush)
 
     def get(self, key, default=None):
         return self.data.get(key, default)
 
     def pop(self, key):
+        return self._flush(key)
+
+    def _flush(self, key):
         logging.debug('Flushing %s from cache', key)
         try:
             ki = self._keys.index(key)
@@ -127,9 +130,6 @@ class FileCache(NaiveCache):
         self.directory = directory
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
-        # Maintain a counter of the number of messages currently stored in the
-        # directory. Scan the directory for existing message files.
-        self.num_files = len(list(iter(self)))
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
@@ -139,7 +139,7 @@ class FileCache(NaiveCache):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
     def __len__(self):
-        return self.num_files
+        return sum(1 for key in self.keys())
 
     def __iter__(self):
         return self.keys()
@@ -148,7 +148,7 @@ class FileCache(NaiveCache):
         if key in self.data:
             return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key)
+            return self._message_from_path(key, message_id=key)
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
@@ -158,15 +158,20 @@ class FileCache(NaiveCache):
         # Need to recreate each message object from the files.
         return (self._message_from_path(f, message_id=f) for f in self.keys())
 
+    def items(self):
+        return ((f, self._message_from_path(f, message_id=f))
+                for f in self.keys())
+
     def put(self, key, value):
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
-        super().put(key, value)
+        content = value.as_bytes()
         logging.debug('Storing %s to file', key)
         with open(os.path.join(self.directory, key), 'wb') as f:
-            f.write(value.as_bytes())
+            f.write(content)
+        super().put(key, value)
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From 71b5b3549496a4975f2d198719af461429d29123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 15/41] fix: a file corpus refuses message identifiers that are
 not file names

---
 sbclassifier/corpora/caches.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index f051da4..c63bdf9 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -162,11 +162,22 @@ class FileCache(NaiveCache):
         return ((f, self._message_from_path(f, message_id=f))
                 for f in self.keys())
 
-    def put(self, key, value):
+    def _check_key(self, key):
+        """Raises :exc:`ValueError` if `key` cannot be the name of a message
+        file in the directory.
+
+        """
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
+        # Keys may come from the headers of a message, so never let them lead
+        # out of the directory.
+        if key != os.path.basename(key) or key in ('', os.curdir, os.pardir):
+            raise ValueError('Message {} is not a file name'.format(key))
+
+    def put(self, key, value):
+        self._check_key(key)
         content = value.as_bytes()
         logging.debug('Storing %s to file', key)
         with open(os.path.join(self.directory, key), 'wb') as f:
@@ -180,6 +191,7 @@ class FileCache(NaiveCache):
             return default
 
     def pop(self, key):
+        self._check_key(key)
         result = super().pop(key)
         logging.debug('Removing file %s', key)
         path = os.path.join(self.directory, key)
-- 
2.43.0


From 99203b33ee0104dfff7bb1a2b1c9e93cf8331495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 16/41] fix: file corpora have a representation

---
 sbclassifier/corpora/filesystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 06104a3..239bab3 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -61,13 +61,14 @@ VERBOSE = True
 class FileCorpus(Corpus):
 
     def __init__(self, directory, namefilter='*', cache_size=256):
+        self.directory = directory
         cache = FileCache(directory, namefilter, max_size=cache_size)
         super().__init__(cache=cache)
 
     def __repr__(self):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
-        lst = ', {}'.format(self.keys()) if VERBOSE and nummsgs > 0 else ''
+        lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
         return ('<{} object at {:8.8x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
                                            self.directory, nummsgs, s, lst)
-- 
2.43.0


From f906837e346d2deb14dd5884e0fcee7ff8ad6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 17/41] fix: expired messages are removed from file corpora

---
 sbclassifier/corpora/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 239bab3..e39562d 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -96,11 +96,12 @@ class ExpiryFileCorpus(FileCorpus):
         # during the loop.
         for key in list(self.keys()):
             msg = self[key]
-            timestamp = msg.createTimestamp()
+            # A message file is written once, when the message is added.
+            timestamp = os.path.getmtime(os.path.join(self.directory, key))
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
                 logging.debug('message %s has expired', msg.id())
-                self.remove_message(msg, do_training=False)
+                self.remove_message(msg, emit_signal=False)
             elif end_time < self.expiry_due:
                 self.expiry_due = end_time
 
-- 
2.43.0


From 8e19db99be00c8f3f22b7fea26fe77eb6d58d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 18/41] fix: removing a message from a watched corpus untrains
 it

---
 sbclassifier/trainers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 80c3871..26ce860 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -48,7 +48,7 @@ class Trainer(object):
         self.is_spam = is_spam
         for corpus in corpora:
             message_added.connect(self.train, sender=corpus)
-            message_removed.connect(self.train, sender=corpus)
+            message_removed.connect(self.untrain, sender=corpus)
 
     def train(self, sender, message):
         """Train the database with the specified message.
@@ -58,7 +58,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('training with %s', message.key())
+        logging.debug('training with %s', message.id())
         self.classifier.learn(tokenize(message), self.is_spam)
         message.remember_trained(self.is_spam)
 
@@ -71,7 +71,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('untraining with %s', message.key())
+        logging.debug('untraining with %s', message.id())
         self.classifier.unlearn(tokenize(message), self.is_spam)
         # can raise ValueError if database is fouled.  If this is the case,
         # then retraining is the only recovery option.
-- 
2.43.0


From bbc62169cc87c29becd6de754870faf23181a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 19/41] fix: the switches for removing the subject mark and the
 To mark are not swapped

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3c9d4..e77c399 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -558,7 +558,7 @@ class Message(_Message):
             del self[name]
         # Also delete notations - typically this is called just before
         # training, and we don't want them there for that.
-        self.remove_notations(remove_to_notations, remove_subject_notations)
+        self.remove_notations(remove_subject_notations, remove_to_notations)
 
 
 # Utility function to insert an exception header into the given RFC822 text.
-- 
2.43.0


From d53811a7af5f3b76c4b00dac695b5f126921d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 20/41] fix: an identifier header that is not plain text is
 ignored

---
 sbclassifier/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index e77c399..355bab5 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -337,7 +337,8 @@ class Message(_Message):
     def set_id_from_payload(self):
         try:
             self.set_id(self[MAILID_HEADER_NAME])
-        except ValueError:
+        except (TypeError, ValueError):
+            # The header is missing, not plain text or not a valid identifier.
             return None
         return self.messageid
 
-- 
2.43.0


From 71b0eada9f74e6aed8a3390bb6bfcf7fe3ec372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 21/41] fix: marks on headers with non-ASCII bytes

---
 sbclassifier/message.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 355bab5..44ecdc4 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -334,6 +334,19 @@ class Message(_Message):
     #     new_me = email.message_from_string(payload, _class=SBHeaderMessage)
     #     self.__dict__.update(new_me.__dict__)
 
+    def _raw_header(self, name):
+        """Returns the value of the first header with the given name, or None.
+
+        In contrast to ``self[name]`` this is always text and can be put back
+        by :meth:`replace_header` without loss, also if there are non-ASCII
+        bytes in it.
+
+        """
+        for header_name, value in self.raw_items():
+            if header_name.lower() == name.lower():
+                return value
+        return None
+
     def set_id_from_payload(self):
         try:
             self.set_id(self[MAILID_HEADER_NAME])
@@ -480,17 +493,19 @@ class Message(_Message):
             # wasn't much use anyway.  So we now convert the classification
             # to an invalid address, and add that.
             address = "{}@spambayes.invalid".format(self.c.name)
+            to = self._raw_header("To")
             try:
-                self.replace_header("To", "{},{}".format(address, self["To"]))
+                self.replace_header("To", "{},{}".format(address, to))
             except KeyError:
                 self["To"] = address
 
         # if isinstance(notate_subject, str):
         #     notate_subject = (notate_subject,)
         if self.c in notate_subject:
+            subject = self._raw_header("Subject")
             try:
                 self.replace_header("Subject", "%s,%s" % (self.c.name,
-                                                          self["Subject"]))
+                                                          subject))
             except KeyError:
                 self["Subject"] = self.c.name
 
@@ -508,7 +523,7 @@ class Message(_Message):
         See also [ 848365 ] Remove subject annotations from message review
                             page
         """
-        subject = self["Subject"]
+        subject = self._raw_header("Subject")
         if subject:
             ham = Classification.ham.name + ','
             spam = Classification.spam.name + ','
@@ -519,7 +534,7 @@ class Message(_Message):
                         self.replace_header("Subject", subject[len(disp):])
                         # Only remove one, maximum.
                         break
-        to = self["To"]
+        to = self._raw_header("To")
         if to:
             ham = "%s@spambayes.invalid," % (Classification.ham.name,)
             spam = "%s@spambayes.invalid," % (Classification.spam.name,)
-- 
2.43.0


From b2a915baba0aebd1af7d4bad27aeb7b578509d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 22/41] fix: no identifier header for a message without an
 identifier

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 44ecdc4..ef50c89 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -465,7 +465,7 @@ class Message(_Message):
                         lineLength = 8
             self[headerName] = "".join(wrappedEvd)
 
-        if add_unique_id:
+        if add_unique_id and self.messageid is not None:
             self[MAILID_HEADER_NAME] = self.messageid
 
         self.add_notations(notate_to or (), notate_subject or ())
-- 
2.43.0


From 40f3065100c8f17dbff8a5c4dcac42aa08cb2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 23/41] fix: exception headers are inserted into the headers,
 whatever the line ends

---
 sbclassifier/message.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index ef50c89..3cd6eea 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -142,6 +142,9 @@ STATS_STORAGE_KEY = "Persistent statistics"
 
 CRLF_RE = re.compile(r'\r\n|\r|\n')
 
+#: Matches the empty line after the headers; there may be no headers at all.
+END_OF_HEADERS_RE = re.compile(r'(?:\A|\r\n|\r(?!\n)|\n)(\r\n|\r|\n)')
+
 
 Classification = Enum('Classification', 'spam ham unsure')
 
@@ -592,7 +595,7 @@ def insert_exception_header(string_msg, msg_id=None):
 
     # Build the header.  This will strip leading whitespace from
     # the lines, so we add a leading space to maintain indentation.
-    detailLines = details.strip().split('\n')
+    detailLines = CRLF_RE.split(details.strip())
     spacedDetails = '\n '.join(detailLines)
     headerName = 'X-Spambayes-Exception'
     header = Header(spacedDetails, header_name=headerName)
@@ -600,14 +603,18 @@ def insert_exception_header(string_msg, msg_id=None):
     # Insert the exception header, and optionally also insert the id header,
     # otherwise we might keep doing this message over and over again.
     # We also ensure that the line endings are /r/n as RFC822 requires.
-    try:
-        headers, body = re.split(r'\n\r?\n', string_msg, 1)
-    except ValueError:
+    end = END_OF_HEADERS_RE.search(string_msg)
+    if end:
+        headers = string_msg[:end.start(1)]
+        body = string_msg[end.end(1):]
+    else:
         # No body - this is a bad message!
         headers = string_msg
         body = ""
-    header = re.sub(r'\r?\n', '\r\n', str(header))
-    headers += "\n%s: %s\r\n" % (headerName, header)
+    if headers and not headers.endswith(('\r', '\n')):
+        headers += '\r\n'
+    header = force_crlf(str(header))
+    headers += "%s: %s\r\n" % (headerName, header)
     if msg_id:
         headers += "%s: %s\r\n" % \
                    (MAILID_HEADER_NAME, msg_id)
-- 
2.43.0


From d6543ecbd39f2cc62bc0514718f09d29fcf29f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 24/41] fix: every message can be tokenized, and embedded
 sections leave their tokens

---
 sbclassifier/strippers.py | 61 ++++++++++++++++++--------
 sbclassifier/tokenizer.py | 91 +++++++++++++++++++++++++--------------
 2 files changed, 100 insertions(+), 52 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c746c89..85c1ccd 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import email.utils
 import math
 import re
 import urllib
@@ -94,31 +95,53 @@ def log2(n, log=math.log, c=math.log(2)):
     return log(n)/c
 
 
+def to_bytes(s):
+    """Returns `s`, which is text or bytes, as bytes."""
+    return s if isinstance(s, bytes) else s.encode('utf-8', 'surrogatepass')
+
+
+def to_text(value):
+    """Returns the value of a header as text.
+
+    It is an instance of :class:`email.header.Header` if there are non-ASCII
+    bytes in it.
+
+    """
+    try:
+        return str(value)
+    except UnicodeError:
+        return ''
+
+
 def crack_filename(fname):
-    yield "fname:" + fname
+    yield b"fname:" + fname
     components = fname_sep_re.split(fname)
     morethan1 = len(components) > 1
     for component in components:
         if morethan1:
-            yield "fname comp:" + component
+            yield b"fname comp:" + component
         pieces = urlsep_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
-                yield "fname piece:" + piece
+                yield b"fname piece:" + piece
 
 
 def crack_content_xyz(msg):
     yield 'content-type:' + msg.get_content_type()
 
-    x = msg.get_param('type')
-    if x is not None:
-        yield 'content-type/type:' + x.lower()
+    try:
+        x = msg.get_param('type')
+        if x is not None:
+            yield ('content-type/type:' +
+                   email.utils.collapse_rfc2231_value(x).lower())
+    except (TypeError, ValueError):
+        yield 'content-type/type:<bogus>'
 
     try:
         for x in msg.get_charsets(None):
             if x is not None:
                 yield 'charset:' + x.lower()
-    except UnicodeEncodeError:
+    except (TypeError, ValueError):
         # Bad messages can cause an exception here.
         # See [ 1175439 ] UnicodeEncodeError raised for bogus Content-Type
         #                 header
@@ -126,14 +149,14 @@ def crack_content_xyz(msg):
 
     x = msg.get('content-disposition')
     if x is not None:
-        yield 'content-disposition:' + x.lower()
+        yield 'content-disposition:' + to_text(x).lower()
 
     try:
         fname = msg.get_filename()
         if fname is not None:
-            for x in crack_filename(fname):
-                yield 'filename:' + x
-    except TypeError:
+            for x in crack_filename(to_bytes(fname)):
+                yield b'filename:' + x
+    except (TypeError, ValueError):
         # bug in email pkg?  see the thread beginning at
         # http://mail.python.org/pipermail/spambayes/2003-September/008006.html
         # and
@@ -215,8 +238,8 @@ class UUencodeStripper(Stripper):
 
     def tokenize(self, m):
         mode, fname = m.groups()
-        return (['uuencode mode:%s' % mode] +
-                ['uuencode:%s' % x for x in crack_filename(fname)])
+        return ([b'uuencode mode:' + mode] +
+                [b'uuencode:' + x for x in crack_filename(fname)])
 
 
 class URLStripper(Stripper):
@@ -232,12 +255,12 @@ class URLStripper(Stripper):
         proto, guts = m.groups()
         assert guts
         if proto is None:
-            if guts.lower().startswith("www"):
-                proto = "http"
-            elif guts.lower().startswith("ftp"):
-                proto = "ftp"
+            if guts.lower().startswith(b"www"):
+                proto = b"http"
+            elif guts.lower().startswith(b"ftp"):
+                proto = b"ftp"
             else:
-                proto = "unknown"
+                proto = b"unknown"
         tokens = [b"proto:" + proto]
         pushclue = tokens.append
 
@@ -299,7 +322,7 @@ class URLStripper(Stripper):
         #     The code is at http://mystuff.org/here?  Didn't resolve.
         # or
         #     I found it at http://mystuff.org/there/.  Thanks!
-        guts.rstrip(b'.:?!/')
+        guts = guts.rstrip(b'.:?!/')
         for piece in guts.split(b'/'):
             for chunk in urlsep_re.split(piece):
                 pushclue(b"url:" + chunk)
diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3260f78..66e286d 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -29,6 +29,8 @@ from sbclassifier.strippers import StyleStripper
 from sbclassifier.strippers import CommentStripper
 from sbclassifier.strippers import NoframesStripper
 from sbclassifier.strippers import crack_content_xyz
+from sbclassifier.strippers import to_bytes
+from sbclassifier.strippers import to_text
 from sbclassifier.iputils import gen_dotted_quad_clues
 
 #: If true, tokenizer.Tokenizer.tokenize_headers() will tokenize the contents
@@ -46,7 +48,7 @@ BASIC_HEADER_TOKENIZE_ONLY = False
 
 #: If basic_header_tokenize is true, then basic_header_skip is a set of headers
 #: that should be skipped.
-BASIC_HEADER_SKIP = ("received date x-.*",)
+BASIC_HEADER_SKIP = ("received", "date", "x-.*")
 
 #: If true, the first few characters of application/octet-stream sections are
 #: used, undecoded.  What 'few' means is decided by octet_prefix_size.
@@ -780,7 +782,7 @@ def convert_to_bytes(f):
     """
     def converted_f(*args, **kw):
         for x in f(*args, **kw):
-            yield x if isinstance(x, bytes) else bytes(x, 'utf-8')
+            yield to_bytes(x)
     return converted_f
 
 
@@ -872,10 +874,10 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
         # Don't want to skip embedded email addresses.
         # An earlier scheme also split up the y in x@y on '.'.  Not splitting
         # improved the f-n rate; the f-p rate didn't care either way.
-        if n < 40 and b'.' in word and word.count('@') == 1:
-            p1, p2 = word.split('@')
-            yield 'email name:' + p1
-            yield 'email addr:' + p2
+        if n < 40 and b'.' in word and word.count(b'@') == 1:
+            p1, p2 = word.split(b'@')
+            yield b'email name:' + p1
+            yield b'email addr:' + p2
 
         else:
             # There's value in generating a token indicating roughly how
@@ -884,13 +886,13 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
             # XXX Figure out why, and/or see if some other way of summarizing
             # XXX this info has greater benefit.
             if GENERATE_LONG_SKIPS:
-                yield "skip:%c %d" % (word[0], n // 10 * 10)
+                yield b"skip:%c %d" % (word[0], n // 10 * 10)
             if has_highbit_char(word):
                 hicount = 0
-                for i in map(ord, word):
+                for i in word:
                     if i >= 128:
                         hicount += 1
-                yield "8bit%%:%d" % round(hicount * 100.0 / len(word))
+                yield b"8bit%%:%d" % round(hicount * 100.0 / len(word))
 
 # Generate tokens for:
 #    Content-Type
@@ -989,7 +991,7 @@ for ch in ' \t\r\n':
     non_ascii_translate_tab[ord(ch)] = ch
 del i, ch
 
-non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
+non_ascii_translate_tab = ''.join(non_ascii_translate_tab).encode('ascii')
 
 # The base64 decoder is actually very forgiving, but flubs one case:
 # if no padding is required (no trailing '='), it continues to read
@@ -1002,7 +1004,7 @@ non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
 # about line length, but other than that are strict.  Group 1 is non-empty
 # after a match iff the last significant char on the line is '='; in that
 # case, it must be the last line of the base64 section.
-base64_re = re.compile(r"""
+base64_re = re.compile(rb"""
     [ \t]*
     [a-zA-Z0-9+/]*
     (=*)
@@ -1023,7 +1025,7 @@ def try_to_repair_damaged_base64(text):
         if m.group(1):
             # This line has a trailing '=' -- the base64 part is done.
             break
-    base64text = ''
+    base64text = b''
     if i:
         base64 = text[:i]
         try:
@@ -1051,6 +1053,18 @@ def log2(n, log=math.log, c=math.log(2)):
 
 crack_uuencode = UUencodeStripper().analyze
 
+
+def decode_header_part(part, charset):
+    """Returns `part` of a header, as given by :func:`decode_header`, as text.
+
+    """
+    if isinstance(part, str):
+        return part
+    try:
+        return part.decode(charset or 'ascii')
+    except (LookupError, ValueError):
+        return part.decode('latin-1')
+
 received_complaints_re = re.compile(r'\([a-z]+(?:\s+[a-z]+)+\)')
 
 #: TODO allow specifying a URLStripper subclass::
@@ -1092,9 +1106,9 @@ numeric_entity_re = re.compile(rb'&#(\d+);')
 
 def numeric_entity_replacer(m):
     try:
-        return chr(int(m.group(1)))
+        return chr(int(m.group(1))).encode('utf-8')
     except:
-        return '?'
+        return b'?'
 
 
 breaking_entity_re = re.compile(rb"""
@@ -1129,7 +1143,9 @@ class Tokenizer:
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
             message = email.message_from_string(message)
-        return itertools.chain(self.tokenize_headers(message),
+        return itertools.chain(self.tokenize_headers(message,
+                                                     basic_header_tokenize,
+                                                     basic_header_tokenize_only),
                                self.tokenize_body(message))
 
     def tokenize_headers(self, msg,
@@ -1172,9 +1188,9 @@ class Tokenizer:
                         break   # do nothing -- we're supposed to skip this
                 else:
                     # Never found a match -- don't skip this.
-                    for w in subject_word_re.findall(v):
-                        for t in tokenize_word(w):
-                            yield "%s:%s" % (k, t)
+                    for w in subject_word_re.findall(to_text(v)):
+                        for t in tokenize_word(to_bytes(w)):
+                            yield to_bytes(k) + b':' + t
             if basic_header_tokenize_only:
                 return
 
@@ -1196,6 +1212,7 @@ class Tokenizer:
             for opt, val in habeas_headers:
                 habeas = msg.get(opt)
                 if habeas is not None:
+                    habeas = to_text(habeas)
                     if X_REDUCE_HABEAS_HEADERS:
                         if habeas == val:
                             valid_habeas += 1
@@ -1219,7 +1236,7 @@ class Tokenizer:
         # Don't ignore case in Subject lines; e.g., 'free' versus 'FREE' is
         # especially significant in this context.  Experiment showed a small
         # but real benefit to keeping case intact in this specific context.
-        x = msg.get('subject', '')
+        x = to_text(msg.get('subject', ''))
         try:
             subjcharsetlist = email.header.decode_header(x)
         except (binascii.Error, email.errors.HeaderParseError, ValueError):
@@ -1229,10 +1246,10 @@ class Tokenizer:
                 yield 'subjectcharset:' + subjcharset
             # this is a workaround for a bug in the csv module in Python
             # <= 2.3.4 and 2.4.0 (fixed in 2.5)
-            x = x.replace('\r', ' ')
+            x = decode_header_part(x, subjcharset).replace('\r', ' ')
             for w in subject_word_re.findall(x):
-                for t in tokenize_word(w):
-                    yield 'subject:' + t
+                for t in tokenize_word(to_bytes(w)):
+                    yield b'subject:' + t
             for w in punctuation_run_re.findall(x):
                 yield 'subject:' + w
 
@@ -1253,6 +1270,7 @@ class Tokenizer:
                 continue
 
             noname_count = 0
+            addrlist = [to_text(x) for x in addrlist]
             for name, addr in email.utils.getaddresses(addrlist):
                 if name:
                     try:
@@ -1261,6 +1279,7 @@ class Tokenizer:
                             ValueError):
                         subjcharsetlist = [(name, 'invalid')]
                     for name, charset in subjcharsetlist:
+                        name = decode_header_part(name, charset)
                         yield "%s:name:%s" % (field, name.lower())
                         if charset is not None:
                             yield "%s:charset:%s" % (field, charset)
@@ -1291,7 +1310,8 @@ class Tokenizer:
         # individual.
         if SUMMARIZE_EMAIL_PREFIXES:
             all_addrs = []
-            addresses = msg.get_all('to', []) + msg.get_all('cc', [])
+            addresses = [to_text(x) for x in (msg.get_all('to', []) +
+                                              msg.get_all('cc', []))]
             for name, addr in email.utils.getaddresses(addresses):
                 all_addrs.append(addr.lower())
 
@@ -1318,7 +1338,8 @@ class Tokenizer:
         #       <design@mojam.com>, <rob@mojam.com>, <skip@mojam.com>
         if SUMMARIZE_EMAIL_SUFFIXES:
             all_addrs = []
-            addresses = msg.get_all('to', []) + msg.get_all('cc', [])
+            addresses = [to_text(x) for x in (msg.get_all('to', []) +
+                                              msg.get_all('cc', []))]
             for name, addr in email.utils.getaddresses(addresses):
                 # flip address code so following logic is the same as
                 # that for prefixes
@@ -1348,7 +1369,7 @@ class Tokenizer:
         for field in ('to', 'cc'):
             count = 0
             for addrs in msg.get_all(field, []):
-                count += len(addrs.split(','))
+                count += len(to_text(addrs).split(','))
             if count > 0:
                 yield '%s:2**%d' % (field, round(log2(count)))
 
@@ -1358,7 +1379,7 @@ class Tokenizer:
         #            rate isn't affected.
         for field in ('x-mailer',):
             prefix = field + ':'
-            x = msg.get(field, 'none').lower()
+            x = to_text(msg.get(field, 'none')).lower()
             yield prefix + ' '.join(x.split())
 
         # Received:
@@ -1368,7 +1389,7 @@ class Tokenizer:
                 # everything here should be case insensitive and not be
                 # split across continuation lines, so normalize whitespace
                 # and letter case just once per header
-                header = ' '.join(header.split()).lower()
+                header = ' '.join(to_text(header).split()).lower()
 
                 for clue in received_complaints_re.findall(header):
                     yield 'received:' + clue
@@ -1390,7 +1411,7 @@ class Tokenizer:
         # Message-Id:  This seems to be a small win and should not
         # adversely affect a mixed source corpus so it's always enabled.
         msgid = msg.get("message-id", "")
-        m = message_id_re.match(msgid)
+        m = message_id_re.match(to_text(msgid))
         if m:
             # looks okay, return the hostname
             yield 'message-id:@%s' % m.group(1)
@@ -1471,7 +1492,7 @@ class Tokenizer:
                     yield "control: octet payload is None"
                     continue
 
-                yield "octet:%s" % text[:OCTET_PREFIX_SIZE]
+                yield b"octet:" + to_bytes(text[:OCTET_PREFIX_SIZE])
 
         parts = imageparts(msg)
         if IMAGE_SIZE:
@@ -1510,8 +1531,12 @@ class Tokenizer:
                 text = part.get_payload(decode=True)
             except:
                 yield "control: couldn't decode"
-                text = part.get_payload(decode=False)
+                try:
+                    text = part.get_payload(decode=False)
+                except:
+                    text = None
                 if text is not None:
+                    text = to_bytes(text)
                     text = try_to_repair_damaged_base64(text)
 
             if text is None:
@@ -1530,7 +1555,7 @@ class Tokenizer:
                 text = text.translate(non_ascii_translate_tab)
 
             for t in find_html_virus_clues(text):
-                yield "virus:%s" % t
+                yield b"virus:" + t
 
             # Get rid of uuencoded sections, embedded URLs, <style gimmicks,
             # and HTML comments.
@@ -1545,7 +1570,7 @@ class Tokenizer:
 
             # Remove HTML/XML tags.  Also &nbsp;.  <br> and <p> tags should
             # create a space too.
-            text = breaking_entity_re.sub(' ', text)
+            text = breaking_entity_re.sub(b' ', text)
             # It's important to eliminate HTML tags rather than, e.g.,
             # replace them with a blank (as this code used to do), else
             # simple tricks like
@@ -1553,7 +1578,7 @@ class Tokenizer:
             # can be used to disguise words.  <br> and <p> were special-
             # cased just above (because browsers break text on those,
             # they can't be used to hide words effectively).
-            text = html_re.sub('', text)
+            text = html_re.sub(b'', text)
 
             for t in self.tokenize_text(text):
                 yield t
-- 
2.43.0


From ecbec240c5cd0248b7ac144f6fdd36cfe64022ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 25/41] fix: the tokens of a message always come in the same
 order

---
 sbclassifier/tokenizer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 66e286d..5549ce5 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -786,21 +786,23 @@ def convert_to_bytes(f):
     return converted_f
 
 
-# textparts(msg) returns a set containing all the text components of msg.
+# textparts(msg) returns a list containing all the text components of msg.
 # There's no point decoding binary blobs (like images).  If a text/plain
 # and text/html part happen to have redundant content, it doesn't matter
 # to results, since training and scoring are done on the set of all
 # words in the msg, without regard to how many times a given word appears.
 def textparts(msg):
-    """Return a set of all msg parts with content maintype 'text'."""
-    return set([part for part in msg.walk()
-                if part.get_content_maintype() == 'text'])
+    """Return a list of all msg parts with content maintype 'text'."""
+    # Don't want a set here because the order of its elements, and so that of
+    # the tokens, would change from one time to the next.
+    return [part for part in msg.walk()
+            if part.get_content_maintype() == 'text']
 
 
 def octetparts(msg):
-    """Return a set of all msg parts with type 'application/octet-stream'."""
-    return set([part for part in msg.walk()
-                if part.get_content_type() == 'application/octet-stream'])
+    """Return a list of all msg parts with type 'application/octet-stream'."""
+    return [part for part in msg.walk()
+            if part.get_content_type() == 'application/octet-stream']
 
 
 def imageparts(msg):
-- 
2.43.0


From 326e8a734996c4295b4b498a78b0442d13ce496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 26/41] fix: requested prefix lengths of subnets are respected

---
 sbclassifier/iputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/iputils.py b/sbclassifier/iputils.py
index 7a16984..bb7b639 100644
--- a/sbclassifier/iputils.py
+++ b/sbclassifier/iputils.py
@@ -28,4 +28,4 @@ def subnets(address, prefix_lengths=None):
     #     net = lambda n: ip_network((address, n), strict=False)
     #
     net = lambda n: ip_network('{}/{}'.format(address, n), strict=False)
-    return (net(num_bits) for num_bits in (8, 16, 24, 32))
+    return (net(num_bits) for num_bits in prefix_lengths)
-- 
2.43.0


From 04ee2a0db829bf8fa5ea746653987161697c7c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 27/41] fix: the link-following classifier works and remembers
 what it fetched

---
 sbclassifier/classifiers/slurping.py | 122 +++++++++++++++++----------
 1 file changed, 79 insertions(+), 43 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b6f60e..208ac3f 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,7 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
-from email import message_from_string
+from email import message_from_bytes
+import hashlib
 import itertools
 import logging
 import os
@@ -19,14 +20,14 @@ from sbclassifier.classifiers.basic import MAX_DISCRIMINATORS
 from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
-#from sbclassifier.corpora.filesystem import FileMessageFactory
+from sbclassifier.message import from_bytes as sb_message_from_bytes
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 from sbclassifier.tokenizer import tokenize
+from sbclassifier.strippers import to_bytes
 from sbclassifier.strippers import URLStripper
 
 DOMAIN_AND_PORT_RE = re.compile(r"([^:/\\]+)(:([\d]+))?")
-HTTP_ERROR_RE = re.compile(r"HTTP Error ([\d]+)")
 URL_KEY_RE = re.compile(r"[\W]")
 
 #: The username to give to the HTTP proxy when required.  If a username is
@@ -99,6 +100,8 @@ X_WEB_PREFIX = ''
 
 REQUEST_TIMEOUTS = 5
 
+#: The protocol and the rest of the last link in the text most recently analyzed
+#: by a :class:`SlurpingURLStripper`, or ``None`` if there was no link in it.
 slurp_wordstream = None
 
 
@@ -110,7 +113,7 @@ def is_unsure(probability):
     return HAM_CUTOFF < probability < SPAM_CUTOFF
 
 
-def base_url(self, url):
+def base_url(url):
     # To try and speed things up, and to avoid following
     # unique URLS, we convert the URL to as basic a form
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
@@ -129,6 +132,15 @@ def base_url(self, url):
 
 
 class SlurpingURLStripper(URLStripper):
+    """Remembers the last link in a text for the :class:`SlurpingClassifier`.
+
+    To have the links in messages followed, replace the stripper that is used
+    by the tokenizer::
+
+        from sbclassifier import tokenizer
+        tokenizer.crack_urls = SlurpingURLStripper().analyze
+
+    """
     # def __init__(self):
     #     URLStripper.__init__(self)
 
@@ -136,6 +148,7 @@ class SlurpingURLStripper(URLStripper):
         # If there are no URLS, then we need to clear the
         # wordstream, or whatever was there from the last message
         # will be used.
+        global slurp_wordstream
         slurp_wordstream = None
         # Continue as normal.
         return URLStripper.analyze(self, text)
@@ -148,14 +161,14 @@ class SlurpingURLStripper(URLStripper):
         #     return tokens
 
         proto, guts = m.groups()
-        if proto != "http":
+        if proto != b"http":
             return tokens
 
         assert guts
-        while guts and guts[-1] in '.:;?!/)':
-            guts = guts[:-1]
+        guts = guts.rstrip(b'.:;?!/)')
 
-        slurp_wordstream = (proto, guts)
+        global slurp_wordstream
+        slurp_wordstream = (proto.decode('ascii'), guts.decode('ascii'))
         return tokens
 
 
@@ -171,11 +184,14 @@ class SlurpingClassifier(Classifier):
 
         # If necessary, enhance it with the tokens from whatever is
         # at the URL's destination.
-        needs_to_slurp = all(len(clues) < MAX_DISCRIMINATORS, is_unsure(prob),
-                             slurp_wordstream)
+        #
+        # The first two clues are the indicators, which are not tokens.
+        tokens = [w for (w, _p) in clues[2:]]
+        needs_to_slurp = (len(tokens) < MAX_DISCRIMINATORS and is_unsure(prob)
+                          and slurp_wordstream)
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
-            slurp_tokens.extend([w for (w, _p) in clues])
+            slurp_tokens.extend(tokens)
             sprob, sclues = super().spamprob(slurp_tokens, True)
             if not is_unsure(sprob):
                 prob = sprob
@@ -185,12 +201,16 @@ class SlurpingClassifier(Classifier):
         return prob
 
     def learn(self, wordstream, is_spam):
+        # The link is known only when all tokens have been generated.
+        wordstream = list(wordstream)
         if self._use_bigrams:
             wordstream = self._enhance_wordstream(wordstream)
         wordstream = itertools.chain(wordstream, self._generate_slurp())
         self._add_msg(wordstream, is_spam)
 
     def unlearn(self, wordstream, is_spam):
+        # The link is known only when all tokens have been generated.
+        wordstream = list(wordstream)
         if self._use_bigrams:
             wordstream = self._enhance_wordstream(wordstream)
         wordstream = itertools.chain(wordstream, self._generate_slurp())
@@ -203,11 +223,16 @@ class SlurpingClassifier(Classifier):
             self.setup()
             self.setup_done = True
         if not hasattr(self, "do_slurp") or self.do_slurp:
+            global slurp_wordstream
             if slurp_wordstream:
                 self.do_slurp = False
-
-                tokens = self.slurp(*slurp_wordstream)
-                self.do_slurp = True
+                link = slurp_wordstream
+                try:
+                    tokens = [to_bytes(t) for t in self.slurp(*link)]
+                finally:
+                    self.do_slurp = True
+                    # The links in the page are not those of the message.
+                    slurp_wordstream = link
                 self._save_caches()
                 return tokens
         return []
@@ -221,9 +246,11 @@ class SlurpingClassifier(Classifier):
             logging.debug("Creating URL cache directory")
             os.makedirs(dir)
 
-        self.urlCorpus = ExpiryFileCorpus(age, dir, cacheSize=20)
+        # The caches for unretrievable urls are in the same directory.
+        self.urlCorpus = ExpiryFileCorpus(age, dir, namefilter='*.page',
+                                          cache_size=20)
         # Kill any old information in the cache
-        self.urlCorpus.removeExpiredMessages()
+        self.urlCorpus.remove_expired_messages()
 
         # Setup caches for unretrievable urls
         self.bad_url_cache_name = os.path.join(dir, "bad_urls.pck")
@@ -231,7 +258,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.bad_url_cache_name):
             try:
                 self.bad_urls = pickle_read(self.bad_url_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.warning("Bad URL pickle, using new.")
@@ -246,7 +273,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.http_error_cache_name):
             try:
                 self.http_error_urls = pickle_read(self.http_error_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.debug("Bad HHTP error pickle, using new.")
@@ -290,24 +317,29 @@ class SlurpingClassifier(Classifier):
             if url in self.bad_urls[err]:
                 return [err]
         if url in self.http_error_urls:
-            return self.http_error_urls[url]
+            return [self.http_error_urls[url]]
 
         # We check if the url will resolve first
-        mo = DOMAIN_AND_PORT_RE.match(url)
-        domain = mo.group(1)
-        if mo.group(3) is None:
-            port = 80
-        else:
-            port = mo.group(3)
         try:
+            mo = DOMAIN_AND_PORT_RE.match(url)
+            if mo is None:
+                raise ValueError('no domain in {}'.format(url))
+            domain = mo.group(1)
+            if mo.group(3) is None:
+                port = 80
+            else:
+                port = mo.group(3)
             socket.getaddrinfo(domain, port)
-        except OSError:
+        except (OSError, ValueError):
             self.bad_urls["url:non_resolving"] += (url,)
             return ["url:non_resolving"]
 
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
-        url_key = URL_KEY_RE.sub('_', url)
+        #
+        # Different URLs have different keys, and file names are not too long.
+        digest = hashlib.sha1(to_bytes(url)).hexdigest()
+        url_key = '{}-{}.page'.format(URL_KEY_RE.sub('_', url)[:100], digest)
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
@@ -320,18 +352,21 @@ class SlurpingClassifier(Classifier):
                 return ["url:non_html"]
 
             url_with_proto = '{}://{}'.format(proto, url)
-            proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
-                          PROXY_PORT)
-            proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
+            proxies = None
+            if PROXY_SERVER:
+                proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
+                              PROXY_PORT)
+                proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
             logging.debug("Slurping %s", url)
             try:
                 f = requests.get(url_with_proto, proxies=proxies,
                                  timeout=REQUEST_TIMEOUTS)
-            except requests.exceptions.RequestException as exception:
-                mo = HTTP_ERROR_RE.match(str(exception))
-                if mo:
-                    self.http_error_urls[url] = "url:http_" + mo.group(1)
-                    return ["url:http_" + mo.group(1)]
+                f.raise_for_status()
+            except requests.exceptions.HTTPError as exception:
+                token = "url:http_{}".format(exception.response.status_code)
+                self.http_error_urls[url] = token
+                return [token]
+            except (requests.exceptions.RequestException, OSError, ValueError):
                 self.bad_urls["url:unknown_error"] += (url,)
                 return ["url:unknown_error"]
 
@@ -342,19 +377,20 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:non_html"] += (url,)
                 return ["url:non_html"]
 
-            fake_message_string = str(f.headers) + "\r\n" + f.text
+            headers = "".join("{}: {}\r\n".format(*item)
+                              for item in f.headers.items())
+            content = to_bytes(headers) + b"\r\n" + f.content
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-            message = self.urlCorpus.makeMessage(url_key,
-                                                 fake_message_string)
-            self.urlCorpus.addMessage(message)
-        else:
-            fake_message_string = cached_message.as_string()
+            cached_message = sb_message_from_bytes(content, url_key)
+            self.urlCorpus.add_message(cached_message)
 
-        msg = message_from_string(fake_message_string)
+        # A page leaves the same tokens when it is retrieved and when it is
+        # taken from the cache.
+        msg = message_from_bytes(cached_message.as_bytes())
 
         tokens = tokenize(msg, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-        tokens = ['{}{}'.format(X_WEB_PREFIX, tok) for tok in tokens]
+        tokens = [to_bytes(X_WEB_PREFIX) + tok for tok in tokens]
         return tokens
-- 
2.43.0


From 081383b6b8390d14d3ac03f4376685f2f7f57b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 28/41] fix: printing a file corpus does not raise

---
 sbclassifier/corpora/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index e39562d..67f1d5f 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -69,7 +69,7 @@ class FileCorpus(Corpus):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
         lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
-        return ('<{} object at {:8.8x}, directory: {},'
+        return ('<{} object at {:08x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
                                            self.directory, nummsgs, s, lst)
 
-- 
2.43.0


From 945efe398ca86120d4f517992cc92407a5e730f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 29/41] fix: a cached page is used even if its host does not
 resolve any more

---
 sbclassifier/classifiers/slurping.py | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 208ac3f..0292838 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -319,21 +319,6 @@ class SlurpingClassifier(Classifier):
         if url in self.http_error_urls:
             return [self.http_error_urls[url]]
 
-        # We check if the url will resolve first
-        try:
-            mo = DOMAIN_AND_PORT_RE.match(url)
-            if mo is None:
-                raise ValueError('no domain in {}'.format(url))
-            domain = mo.group(1)
-            if mo.group(3) is None:
-                port = 80
-            else:
-                port = mo.group(3)
-            socket.getaddrinfo(domain, port)
-        except (OSError, ValueError):
-            self.bad_urls["url:non_resolving"] += (url,)
-            return ["url:non_resolving"]
-
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
         #
@@ -343,6 +328,21 @@ class SlurpingClassifier(Classifier):
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
+            # We check if the url will resolve first
+            try:
+                mo = DOMAIN_AND_PORT_RE.match(url)
+                if mo is None:
+                    raise ValueError('no domain in {}'.format(url))
+                domain = mo.group(1)
+                if mo.group(3) is None:
+                    port = 80
+                else:
+                    port = mo.group(3)
+                socket.getaddrinfo(domain, port)
+            except (OSError, ValueError):
+                self.bad_urls["url:non_resolving"] += (url,)
+                return ["url:non_resolving"]
+
             # We're going to ignore everything that isn't text/html,
             # so we might as well not bother retrieving anything with
             # these extensions.
-- 
2.43.0


From 4b6edb914fa64500713be55da3b98032dd9255fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 30/41] fix: picking URLs apart works on the bytes of a text

---
 sbclassifier/strippers.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 85c1ccd..77e938d 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -8,7 +8,7 @@
 import email.utils
 import math
 import re
-import urllib
+import urllib.parse
 
 # Tell SpamBayes where to cache IP address lookup information.
 # Only comes into play if lookup_ip is enabled. The default
@@ -265,30 +265,35 @@ class URLStripper(Stripper):
         pushclue = tokens.append
 
         if X_PICK_APART_URLS:
-            url = proto + "://" + guts
+            # Each byte of the text is one character here.
+            url = (proto + b"://" + guts).decode('latin-1')
 
-            escapes = re.findall(r'%..', guts)
+            escapes = re.findall(b'%..', guts)
             # roughly how many %nn escapes are there?
             if escapes:
-                pushclue("url:%%%d" % int(log2(len(escapes))))
+                pushclue(b"url:%%%d" % int(log2(len(escapes))))
             # %nn escapes are usually intentional obfuscation.  Generate a
             # lot of correlated tokens if the URL contains a lot of them.
             # The classifier will learn which specific ones are and aren't
             # spammy.
-            tokens.extend(["url:" + escape for escape in escapes])
+            tokens.extend([b"url:" + escape for escape in escapes])
 
             # now remove any obfuscation and probe around a bit
-            url = urllib.parse.unquote(url)
-            scheme, netloc, path, params, query, frag = \
-                urllib.parse.urlparse(url)
+            url = urllib.parse.unquote(url, 'latin-1')
+            try:
+                scheme, netloc, path, params, query, frag = \
+                    urllib.parse.urlparse(url)
+            except ValueError:
+                # There is no host in there, for example "http://[".
+                scheme = netloc = ''
 
             if X_LOOKUP_IP:
                 ips = cache.lookup(netloc)
                 if not ips:
-                    pushclue("url-ip:lookup error")
+                    pushclue(b"url-ip:lookup error")
                 else:
                     for clue in gen_dotted_quad_clues("url-ip", ips):
-                        pushclue(clue)
+                        pushclue(to_bytes(clue))
 
             # one common technique in bogus "please (re-)authorize yourself"
             # scams is to make it appear as if you're visiting a valid
@@ -303,20 +308,20 @@ class URLStripper(Stripper):
             # another website.
             user_pwd, host_port = urllib.parse.splituser(netloc)
             if user_pwd is not None:
-                pushclue("url:has user")
+                pushclue(b"url:has user")
 
             host, port = urllib.parse.splitport(host_port)
             # web servers listening on non-standard ports are suspicious ...
             if port is not None and (scheme == "http" and port != '80' or
                                      scheme == "https" and port != '443'):
-                    pushclue("url:non-standard %s port" % scheme)
+                    pushclue(to_bytes("url:non-standard %s port" % scheme))
 
             # ... as are web servers associated with raw ip addresses
-            if re.match("(\d+\.?){4,4}$", host) is not None:
-                pushclue("url:ip addr")
+            if re.match(r"(\d+\.?){4,4}$", host) is not None:
+                pushclue(b"url:ip addr")
 
             # make sure we later tokenize the unobfuscated url bits
-            proto, guts = url.split("://", 1)
+            guts = url.split("://", 1)[1].encode('latin-1')
 
         # Lose the trailing punctuation for casual embedding, like:
         #     The code is at http://mystuff.org/here?  Didn't resolve.
-- 
2.43.0


From 091d8c51bf9f1ec7139b6ed7080ff968a75dbf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 31/41] fix: the absence of a header is recorded for those that
 are absent

---
 sbclassifier/tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 5549ce5..45d1de3 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1441,8 +1441,9 @@ class Tokenizer:
         for x in list(x2n.items()):
             yield "header:%s:%d" % x
         if RECORD_HEADER_ABSENCE:
-            for k in x2n:
-                if not k.lower() in SAFE_HEADERS:
+            present = set(x.lower() for x in msg.keys())
+            for k in SAFE_HEADERS:
+                if k not in present:
                     yield "noheader:" + k
 
     def tokenize_text(self, text, maxword=SKIP_MAX_WORD_SIZE):
-- 
2.43.0


From 855175bb6c99c0ceda4515596f18c677cf80f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 32/41] fix: the table for replacing non-ASCII characters
 exists

---
 sbclassifier/tokenizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 45d1de3..679336d 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -814,6 +814,11 @@ def imageparts(msg):
 
 has_highbit_char = re.compile(rb"[\x80-\xff]").search
 
+# Keeps printable ASCII characters and white space; everything else becomes a
+# question mark.
+non_ascii_translate_tab = bytes(c if 32 <= c < 127 or c in b'\t\n\r' else ord('?')
+                                for c in range(256))
+
 # Cheap-ass gimmick to probabilistically find HTML/XML tags.
 # Note that <style and HTML comments are handled by crack_html_style()
 # and crack_html_comment() instead -- they can be very long, and long
-- 
2.43.0


From 6f7904678fc369ba1227a9c5c80182d1237a11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 33/41] fix: mining the posting host of news works for names,
 addresses and neither

---
 sbclassifier/tokenizer.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 679336d..0cc0546 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1604,16 +1604,19 @@ class Tokenizer:
 # Usenet.  My initial testing (also hardly more than anecdotal) suggests
 # there are useful clues awaiting extractiotn from this header.
 def mine_nntp(msg):
-    nntp_headers = msg.get_all("nntp-posting-host", ())
-    for address in nntp_headers:
+    for address in msg.get_all("nntp-posting-host", ()):
+        address = to_text(address).strip()
         # Determine if the address is an IP address or a host name.
         try:
-            address = ipaddress.ip_address(address)
-            # If we have reached this point, then we have an IP address.
-            return clues_from_ipaddress(address)
+            ipaddress.ip_address(address)
         except ValueError:
             # If we have reached this point, then we have a domain name.
-            return clues_from_domainname(address)
+            clues = clues_from_domainname(address)
+        else:
+            # If we have reached this point, then we have an IP address.
+            clues = clues_from_ipaddress(address)
+        for clue in clues:
+            yield clue
 
 
 def top_two(name):
@@ -1642,16 +1645,19 @@ def clues_from_ipaddress(address):
 def clues_from_domainname(name):
     host_clues = ['nntp-host-name:{}'.format(name),
                   'nntp-host-domain:{}'.format(top_two(name))]
-    addresses = dns_lookup(name)
-    ip_clues = []
-    if addresses:
-        # For the sake of brevity, rename this function.
-        chain = itertools.chain.from_iterable
-        ip_clues = chain(gen_dotted_quad_clues('nntp-host-ip', address)
-                         for address in addresses)
-        if reverse_dns_lookup(addresses[0], qType='PTR') == name:
-            ip_clues.append('nntp-host-ip:has-reverse')
-    return itertools.chain(host_clues, ip_clues)
+    try:
+        addresses = sorted(dns_lookup(name))
+    except (OSError, UnicodeError):
+        # There is no such host.
+        addresses = []
+    # For the sake of brevity, rename this function.
+    chain = itertools.chain.from_iterable
+    ip_clues = chain(gen_dotted_quad_clues('nntp-host-ip', address)
+                     for address in addresses)
+    reverse_clues = []
+    if any(name in reverse_dns_lookup(address) for address in addresses):
+        reverse_clues = ['nntp-host-ip:has-reverse']
+    return itertools.chain(host_clues, ip_clues, reverse_clues)
 
 
 tokenize = Tokenizer()
-- 
2.43.0


From 98c2e4690eca835be4a320da04961dd877c66a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 34/41] fix: a posting host that is no address the resolver
 takes gives no names

---
 sbclassifier/tokenizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 0cc0546..247ae09 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1633,7 +1633,11 @@ def top_two(name):
 
 def clues_from_ipaddress(address):
     ip_clues = gen_dotted_quad_clues('nntp-host', address)
-    names = reverse_dns_lookup(address)
+    try:
+        names = reverse_dns_lookup(address)
+    except (OSError, UnicodeError):
+        # There is no such address.
+        names = ()
     host_clues = []
     if names:
         host_clues = ['nntp-host-ip:has-reverse',
-- 
2.43.0


From 50a6722d6557d5621a6e6f0cf49ac0edf1a8aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 35/41] fix: a message looked up in a file corpus has its key
 as identifier

---
 sbclassifier/corpora/caches.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index c63bdf9..69d3bb5 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -182,7 +182,12 @@ class FileCache(NaiveCache):
         logging.debug('Storing %s to file', key)
         with open(os.path.join(self.directory, key), 'wb') as f:
             f.write(content)
-        super().put(key, value)
+        if value.id() == key:
+            super().put(key, value)
+        else:
+            # A message that is looked up has its file name as identifier, so
+            # read it from the file then.
+            self._flush(key)
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From f9e66c54049de6746211331de58aa95034ce5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 36/41] fix: a message that is written and read again has the
 same header lines

---
 sbclassifier/message.py | 63 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3cd6eea..75e51dd 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -73,10 +73,13 @@ __author__ = "Tim Stone <tim@fourstonesExpressions.com>"
 __credits__ = "Mark Hammond, Tony Meyer, all the spambayes contributors."
 
 import email
+from email.generator import BytesGenerator
 from email.generator import Generator
 from email.header import Header
 from email.message import Message as _Message
+from email.policy import Compat32
 from enum import Enum
+from io import BytesIO
 from io import StringIO
 import math
 import re
@@ -172,6 +175,58 @@ def force_crlf(data):
     return CRLF_RE.sub('\r\n', data)
 
 
+class _AsRead(Compat32):
+    """The policy for writing messages: header lines are written as they were
+    read, so that a message that is written and read again is the same message
+    (and has the same tokens).
+
+    """
+
+    def _unfolded(self, name, value, errors):
+        return '{}: {}{}'.format(name, value, self.linesep).encode('ascii',
+                                                                   errors)
+
+    def fold(self, name, value):
+        if isinstance(value, str):
+            try:
+                return self._unfolded(name, value, 'strict').decode('ascii')
+            except UnicodeEncodeError:
+                pass
+        return super().fold(name, value)
+
+    def fold_binary(self, name, value):
+        if isinstance(value, str):
+            try:
+                return self._unfolded(name, value, 'surrogateescape')
+            except UnicodeEncodeError:
+                pass
+        return super().fold_binary(name, value)
+
+
+AS_READ = _AsRead()
+
+
+class _SameMultipart:
+    """Mixin for generators that writes the payload of a multipart message
+    without parts as it was read, also if there are non-ASCII bytes in it.
+
+    """
+
+    def _handle_multipart(self, msg):
+        if isinstance(msg._payload, str):
+            self.write(msg._payload)
+        else:
+            super()._handle_multipart(msg)
+
+
+class _TextGenerator(_SameMultipart, Generator):
+    pass
+
+
+class _BytesGenerator(_SameMultipart, BytesGenerator):
+    pass
+
+
 class Message(_Message):
     '''An email.Message.Message extended for SpamBayes'''
 
@@ -269,6 +324,12 @@ class Message(_Message):
     # def tokenize(self):
     #     return tokenize(self)
 
+    def as_bytes(self, unixfrom=False, policy=AS_READ):
+        fp = BytesIO()
+        g = _BytesGenerator(fp, mangle_from_=False, policy=policy)
+        g.flatten(self, unixfrom)
+        return fp.getvalue()
+
     def as_string(self, unixfrom=False, mangle_from_=True):
         # The email package stores line endings in the "internal" Python
         # format ('\n').  It is up to whoever transmits that information to
@@ -277,7 +338,7 @@ class Message(_Message):
         # append function), but does not, so we do it here
         try:
             fp = StringIO()
-            g = Generator(fp, mangle_from_=mangle_from_)
+            g = _TextGenerator(fp, mangle_from_=mangle_from_, policy=AS_READ)
             g.flatten(self, unixfrom)
             return force_crlf(fp.getvalue())
         except TypeError:
-- 
2.43.0


From 46dc504f75f404dbb397c6a1c9834a48fb6aaf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 37/41] fix: a message has the same tokens with any kind of
 line ends

---
 sbclassifier/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 75e51dd..afe37eb 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -158,12 +158,15 @@ def from_path(filename, message_id=None):
 
 
 def from_bytes(b, message_id=None):
+    # Lines end with '\n', as in messages that are written by as_bytes().
+    b = b.replace(b'\r\n', b'\n').replace(b'\r', b'\n')
     message = email.message_from_bytes(b, _class=Message)
     if message_id is not None:
         message.set_id(message_id)
     return message
 
 def from_string(s, message_id=None):
+    s = s.replace('\r\n', '\n').replace('\r', '\n')
     message = email.message_from_string(s, _class=Message)
     if message_id is not None:
         message.set_id(message_id)
-- 
2.43.0


From 2180841ec97658f6f6ebe5bf8347b10a8a026398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 38/41] fix: each address of a URL's host gives its networks

---
 sbclassifier/strippers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 77e938d..c0919c2 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -292,8 +292,9 @@ class URLStripper(Stripper):
                 if not ips:
                     pushclue(b"url-ip:lookup error")
                 else:
-                    for clue in gen_dotted_quad_clues("url-ip", ips):
-                        pushclue(to_bytes(clue))
+                    for ip in ips:
+                        for clue in gen_dotted_quad_clues("url-ip", ip):
+                            pushclue(to_bytes(clue))
 
             # one common technique in bogus "please (re-)authorize yourself"
             # scams is to make it appear as if you're visiting a valid
-- 
2.43.0


From 41038e9faf3a6d6a6812f50198a8dd734537fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 39/41] fix: only one table for replacing non-ASCII characters

Reverts 855175b: the table existed already, further down.
---
 sbclassifier/tokenizer.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 247ae09..7680b20 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -814,11 +814,6 @@ def imageparts(msg):
 
 has_highbit_char = re.compile(rb"[\x80-\xff]").search
 
-# Keeps printable ASCII characters and white space; everything else becomes a
-# question mark.
-non_ascii_translate_tab = bytes(c if 32 <= c < 127 or c in b'\t\n\r' else ord('?')
-                                for c in range(256))
-
 # Cheap-ass gimmick to probabilistically find HTML/XML tags.
 # Note that <style and HTML comments are handled by crack_html_style()
 # and crack_html_comment() instead -- they can be very long, and long
-- 
2.43.0


From d738baaaff9877e36d7f7698c3eb655c0b2c0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 40/41] fix: attachments whose encoding cannot be read are
 tokenized

---
 sbclassifier/tokenizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 7680b20..0b4c4d4 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1489,7 +1489,10 @@ class Tokenizer:
                     text = part.get_payload(decode=True)
                 except:
                     yield "control: couldn't decode octet"
-                    text = part.get_payload(decode=False)
+                    try:
+                        text = part.get_payload(decode=False)
+                    except:
+                        text = None
 
                 if text is None:
                     yield "control: octet payload is None"
@@ -1508,7 +1511,10 @@ class Tokenizer:
                     text = part.get_payload(decode=True)
                 except:
                     yield "control: couldn't decode image"
-                    text = part.get_payload(decode=False)
+                    try:
+                        text = part.get_payload(decode=False)
+                    except:
+                        text = None
 
                 total_len += len(text or "")
                 if text is None:
-- 
2.43.0


From 7410b4b5d4239883e97cb7f2af981fb1b3dd7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:17 +0000
Subject: [PATCH 41/41] fix: a run of short words at the end of a text is
 counted

---
 sbclassifier/tokenizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 0b4c4d4..4b80b1a 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1470,6 +1470,9 @@ class Tokenizer:
                 elif n >= 3:
                     for t in tokenize_word(w):
                         yield t
+        # The text may end with short words.
+        if short_count:
+            short_runs.add(short_count)
         if short_runs and X_SHORT_RUNS:
             yield "short:%d" % int(log2(max(short_runs)))
 
-- 
2.43.0

