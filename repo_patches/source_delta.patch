From 6917f62186a17aac3ed4b7360cb0692f3feec602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 01/51] fix: do not exhaust an iterator of pairs while
 validating its keys

IntKeyDict.update looped over the given iterable to validate the keys
before handing it to dict.update. An iterator (zip, generator) was then
already consumed, so pack.names = zip(...) left names empty.
---
 channelpack/pack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f61ae42..e457b71 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -36,6 +36,8 @@ class IntKeyDict(dict):
 
         elif args and (hasattr(args[0], '__iter__') and not
                        isinstance(args[0], str)):
+            if iter(args[0]) is args[0]:  # would be exhausted by the check
+                args = (list(args[0]),) + args[1:]
             for seq in args[0]:
                 if hasattr(seq, '__len__') and len(seq) > 2:
                     break       # not our problem
-- 
2.43.0


From a9bbe291a3b65cb690b75f89404b1bddcdae89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 02/51] fix: validate keys and convert values in the |=
 operator too

dict grew |= in python 3.9, which does not call update, so
pack.data |= {...} let any key and any value in.
---
 channelpack/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index e457b71..8e3f1b8 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -51,6 +51,10 @@ class IntKeyDict(dict):
 
         super(IntKeyDict, self).update(*args, **kwargs)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
             raise TypeError(self._key_error_message)
-- 
2.43.0


From 516769420f31aad285d6847ccf9d050bfc2c8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:03 +0000
Subject: [PATCH 03/51] fix: require the whole reference to be a fallback
 string

'ch4foo' or 'ch4 ' resolved to channel 4. The documentation says that
everything after the prefix is a number.
---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 8e3f1b8..5de17e8 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -555,7 +555,7 @@ class ChannelPack(object):
         # not in data, not a good name in names, last chance is a
         # fallback string
 
-        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)'
+        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)\Z'
         m = re.match(prefix_rx, ch)
 
         if m:
-- 
2.43.0


From b5adc1b4264dbe29e1fa950d644fa7e151d2c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 04/51] fix: startstop result is a bool array with empty data
 too

np.array(()) is a float array, so startstop on zero length data raised
TypeError from mask &= result.
---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 5de17e8..c992178 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -395,7 +395,8 @@ class ChannelPack(object):
 
         """
 
-        result = np.array(tuple(datautils.startstop_bool(startb, stopb)))
+        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
+                          dtype=bool)
         if apply:
             self.mask &= result
         return result
-- 
2.43.0


From 893631d1bbd6ee7181dfef93de43ff180078716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 05/51] fix: mask_reset sets all elements True with nan in the
 data too

The mask was made by comparing the array with itself, which is False
where there is nan. The mask is documented to be all True and boolean.
---
 channelpack/pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index c992178..eb0fce4 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -322,10 +322,10 @@ class ChannelPack(object):
         """
 
         if not self.data:
-            self.mask = np.array([])
+            self.mask = np.array([], dtype=bool)
         else:
             lowest = sorted(self.data)[0]
-            self.mask = self.data[lowest] == self.data[lowest]
+            self.mask = np.ones(len(self.data[lowest]), dtype=bool)
 
     def duration(self, duration, samplerate=1, mindur=True):
         """Require each true part to be at least duration long.
-- 
2.43.0


From b7f2674807668bb9a8f74a5204948ed8a3f9d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 06/51] fix: reset the mask when data is set to another pack's
 data dict

Setting pack.data is documented to call mask_reset automatically, but
it did not when given a NpDict, as in pack.data = other.data, leaving a
mask of some other length.
---
 channelpack/pack.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index eb0fce4..90539d0 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -218,13 +218,12 @@ class ChannelPack(object):
 
         """
         self.FALLBACK_PREFIX = 'ch'
-        self.data = NpDict(data or {})
+        self.mindur = None
+        self.data = NpDict(data or {})  # sets self.mask
         self.filenames = []
         self.fn = ''             # Possible file name
         self.names = IntKeyDict(names or {})
         self.nof = None
-        self.mindur = None
-        self.mask_reset()       # set self.mask
 
     def __setattr__(self, name, value):
         if name == 'nof' and value not in ChannelPack.nofvalids:
@@ -245,8 +244,10 @@ class ChannelPack(object):
             object.__setattr__(self, name, value)
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-        elif name == 'data' and not isinstance(value, NpDict):
-            object.__setattr__(self, name, NpDict(value))
+        elif name == 'data':
+            if not isinstance(value, NpDict):
+                value = NpDict(value)
+            object.__setattr__(self, name, value)
             self.mask_reset()
         elif name == 'names' and not isinstance(value, IntKeyDict):
             object.__setattr__(self, name, IntKeyDict(value))
-- 
2.43.0


From f7624d280c5401b162b9adbc7edd6fc05ba1801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:18 +0000
Subject: [PATCH 07/51] fix: keep a copy of the array set as mask

The mask is altered in place by duration, mindur and startstop, so with
pack.mask = pack('bools') those altered the data of that channel.
---
 channelpack/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 90539d0..79de1cb 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -233,7 +233,8 @@ class ChannelPack(object):
         elif name == 'mask' and not isinstance(value, np.ndarray):
             raise TypeError('Expected a numpy array')
         elif name == 'mask':
-            object.__setattr__(self, name, value)
+            # a copy, the mask is altered in place, value might be in data
+            object.__setattr__(self, name, value.copy())
             self._cached_slicelist = self._slicelist()
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-- 
2.43.0


From 091809be7b8d54a82a09ed15a4e8d847210c7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:13 +0000
Subject: [PATCH 08/51] fix: records(fallback=True) picks the channels by key

The fallback strings were looked up as names first, so with a channel
named like the fallback string of another one (names={0: 'ch1'}) the
record fields held the data of the wrong channel.
---
 channelpack/pack.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 79de1cb..c2eee54 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -510,18 +510,20 @@ class ChannelPack(object):
 
         """
 
-        names = [self.names[key] for key in sorted(self.names)]
+        keys = sorted(self.names)
+        names = [self.names[key] for key in keys]
         if fallback:
-            names = [self.FALLBACK_PREFIX + str(key) for key in
-                     sorted(self.data)]
+            keys = sorted(self.data)
+            names = [self.FALLBACK_PREFIX + str(key) for key in keys]
 
         try:
             Record = namedtuple('Record', names)
         except ValueError:      # bad names
             raise ValueError('Includes invalid names: {}'.format(names))
 
-        for record in map(Record._make, zip(*[self(name, part=part, nof=nof)
-                                              for name in names])):
+        # by key, a name might equal the fallback string of another channel
+        for record in map(Record._make, zip(*[self(key, part=part, nof=nof)
+                                              for key in keys])):
             yield record
 
     def _datakey(self, ch):
-- 
2.43.0


From ddc131e60a56e463199e86f4d4667dbb868d92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:07 +0000
Subject: [PATCH 09/51] fix: append_pack that raises leaves the pack as it was

With data dicts aligned but names not, the data was appended before
ValueError was raised, leaving longer data with the old mask.
---
 channelpack/pack.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index c2eee54..5108f38 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -296,19 +296,22 @@ class ChannelPack(object):
 
         """
 
+        if self.data and other.data:
+            if not set(self.data.keys()) == set(other.data.keys()):
+                raise ValueError('Data dicts set of keys not equal')
+
+        if self.names and other.names:
+            if not set(self.names.keys()) == set(other.names.keys()):
+                raise ValueError('names dicts set of keys not equal')
+
         if not self.data:
             self.data = other.data
         elif other.data:
-            if not set(self.data.keys()) == set(other.data.keys()):
-                raise ValueError('Data dicts set of keys not equal')
             for key in other.data:
                 self.data[key] = np.append(self.data[key], other.data[key])
 
         if not self.names:
             self.names = other.names
-        elif other.names:
-            if not set(self.names.keys()) == set(other.names.keys()):
-                raise ValueError('names dicts set of keys not equal')
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From 178be79c4d8caa3b77e02f8759f0abb100e29ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:07 +0000
Subject: [PATCH 10/51] fix: append_pack into an empty pack copies the data of
 other

The pack held on to the very dicts of other, so appending once more (or
setting an item or a name) altered the other pack as well.
---
 channelpack/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 5108f38..9819a1b 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -305,13 +305,14 @@ class ChannelPack(object):
                 raise ValueError('names dicts set of keys not equal')
 
         if not self.data:
-            self.data = other.data
+            self.data = {key: array.copy() for key, array
+                         in other.data.items()}
         elif other.data:
             for key in other.data:
                 self.data[key] = np.append(self.data[key], other.data[key])
 
         if not self.names:
-            self.names = other.names
+            self.names = dict(other.names)
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From 37e3dd0d2e7bdfbdeef46e3d4c065a4aaff6a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 11/51] fix: textpack takes usecols in any order

Fields come out of a line in column order, but were paired with usecols
in the order given, so usecols=(2, 0) swapped the data (and the names)
of the columns.
---
 channelpack/readtext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f593276..b8b07f0 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -344,6 +344,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
 
     if usecols is not None:
         usecols = (usecols,) if type(usecols) is int else usecols
+        usecols = sorted(set(usecols))  # the order of fields on a line
 
     if names:
         usecols = sorted(names)
-- 
2.43.0


From d2649d58e8faab3cb15cce15825fccf08a44eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:34 +0000
Subject: [PATCH 12/51] fix: read streams whose name is not a string

A tempfile.TemporaryFile has an integer name (the file descriptor) and a
file opened from a Path has the Path, which made setting pack.fn raise
TypeError after all data was read.
---
 channelpack/readtext.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index b8b07f0..daafd61 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -214,10 +214,9 @@ class contextopen(object):
             self.name = fname
         else:
             self.fo = fname
-            try:
+            # a temporary file has an integer for a name
+            if isinstance(getattr(fname, 'name', None), str):
                 self.name = fname.name
-            except AttributeError:
-                pass
 
         tell = self.fo.tell()
         self.bytehint = type(self.fo.read(1)) is bytes
-- 
2.43.0


From 3e9e343d217c441703f9aca81498aa416eba2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 13/51] fix: textpack(debug=True) lets the error of the first
 data line through

With an error on the first line of data the debug output raised KeyError
('linum') in place of the original exception.
---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index daafd61..a59175a 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -360,7 +360,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
                                 bytehint=bytehint, converters=converters,
                                 stripstrings=stripstrings, hasnames=hasnames)
 
-        debugdict = dict(funcs=next(linetupler))
+        debugdict = dict(funcs=next(linetupler), linum=-1)
 
         if hasnames and usecols is not None:
             for col, name in zip(usecols, next(linetupler)):
-- 
2.43.0


From 95491d3c1b7d921920a89cbb0e9677f5c9fde830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:31 +0000
Subject: [PATCH 14/51] fix: lazy_textpack reads a stream from where it
 pre-parsed it

The lines to pre-parse were read from the position of the stream, but
the data from the start of it, so skiprows was applied to other lines.
---
 channelpack/readtext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index a59175a..d399bf1 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -260,6 +260,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     encoding = textkwargs.get('encoding', locale.getpreferredencoding())
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
+        tell = fo.tell()
         if context.bytehint:
             derived = preparse([fo.readline().decode(encoding)
                                 for i in range(parselines)])
@@ -271,7 +272,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                     derived['converters'][key] = _floatit_bytes
         else:
             derived = preparse([fo.readline() for i in range(parselines)])
-        fo.seek(0)
+        fo.seek(tell)
         derived.update(textkwargs)
 
         if 'usecols' in textkwargs and 'names' not in textkwargs:
-- 
2.43.0


From 8907ff09e50da34cdeef4a99971ff1ddd818b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:29 +0000
Subject: [PATCH 15/51] fix: lazy_textpack of a blank file raises ValueError

preparse is documented to return an empty dict on failure, but raised
IndexError when there was not a single line with content.
---
 channelpack/readtext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index d399bf1..6da0bea 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -111,6 +111,9 @@ def preparse(lines, firstfieldrx=r'\w'):
         else:
             break
 
+    if not dresults:            # nothing but blank lines
+        return {}
+
     Triplet = namedtuple('Triplet', ('numcnt', 'sepcnt', 'septypcnt'))
     dcounts = [Triplet(len(tup[0]), len(tup[1]), len(set(tup[1]))) for tup
                in dresults]
-- 
2.43.0


From ae4607a38375626d0897871353131c132dd07a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:56 +0000
Subject: [PATCH 16/51] fix: check the surroundings of a lone number on the
 line parsed last

With fewer lines in the file than parselines the check was made on the
empty string read past the end of file, so a text like 'x 5 y' passed
for a column of numbers.
---
 channelpack/readtext.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 6da0bea..93bfd67 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -113,6 +113,7 @@ def preparse(lines, firstfieldrx=r'\w'):
 
     if not dresults:            # nothing but blank lines
         return {}
+    lastline = lines[len(dresults) - 1]
 
     Triplet = namedtuple('Triplet', ('numcnt', 'sepcnt', 'septypcnt'))
     dcounts = [Triplet(len(tup[0]), len(tup[1]), len(set(tup[1]))) for tup
@@ -142,9 +143,9 @@ def preparse(lines, firstfieldrx=r'\w'):
     # any non-numbers, non-whites around the number
     elif exp_septypcnt == 0:
         if ((flag == 'd' and any(m.strip()
-                                 for m in re.split(DNUMRX, lines[-1])))
+                                 for m in re.split(DNUMRX, lastline)))
             or (flag == 'c' and any(m.strip()
-                                    for m in re.split(CNUMRX, lines[-1])))):
+                                    for m in re.split(CNUMRX, lastline)))):
             return {}
 
     # Data starts before line where number of different seps is not 1
-- 
2.43.0


From 9d9c1e132c1f9dde27ff75a7e8439859a5b159a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:09 +0000
Subject: [PATCH 17/51] fix: dbfpack with names reads on at the next record
 after a deleted one

---
 channelpack/dbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 9cd7e25..6edae71 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -127,6 +127,7 @@ def dbfrecords(f, names):
         for field in selfields:
             f.seek(refaddr + field.seekme)
             record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
+        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
 
         if record[0] != b' ':
             continue                        # deleted record
@@ -159,7 +160,6 @@ def dbfrecords(f, names):
             else:
                 value = value.decode('ascii')  # type = 'C' or other type
             result.append(value)
-        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         yield result
 
 
-- 
2.43.0


From d415933cbb66aee21aec48515e9873adc623298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:01 +0000
Subject: [PATCH 18/51] fix: open sheet relations and comments of an xlsx by
 their actual part names

---
 channelpack/xlrd/xlsx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a1ca2dd..0396c40 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -813,7 +813,7 @@ def open_workbook_2007_xml(zf,
 
         rels_fname = 'xl/worksheets/_rels/%s.rels' % fname.rsplit('/', 1)[-1]
         if rels_fname in component_names:
-            zfrels = zf.open(rels_fname)
+            zfrels = zf.open(component_names[rels_fname])
             x12sheet.process_rels(zfrels)
             del zfrels
 
@@ -821,7 +821,7 @@ def open_workbook_2007_xml(zf,
             if reltype == 'comments':
                 comments_fname = x12sheet.relid2path.get(relid)
                 if comments_fname and comments_fname in component_names:
-                    comments_stream = zf.open(comments_fname)
+                    comments_stream = zf.open(component_names[comments_fname])
                     x12sheet.process_comments_stream(comments_stream)
                     del comments_stream
 
-- 
2.43.0


From 17b78a8c8283406ec79a38a1e2f7dd4a25bd42f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:46 +0000
Subject: [PATCH 19/51] fix: count the length of a formula's string result in
 code units

---
 channelpack/xlrd/sheet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a831398..6ef9720 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1515,6 +1515,7 @@ class Sheet(BaseObject):
         offset = lenlen
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
+        flag = 0
         nchars_found = 0
         result = UNICODE_LITERAL("")
         while 1:
@@ -1522,9 +1523,10 @@ class Sheet(BaseObject):
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+            chunk = data[offset:]
+            result += unicode(chunk, enc)
+            # counted in bytes or utf-16 code units, not in characters
+            nchars_found += len(chunk) >> flag
             if nchars_found == nchars_expected:
                 return result
             if nchars_found > nchars_expected:
-- 
2.43.0


From fc5165ae491b1738a07f8031130a427b7406d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:07 +0000
Subject: [PATCH 20/51] fix: cellreference refuses an address with trailing
 characters

---
 channelpack/readxl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readxl.py b/channelpack/readxl.py
index fa06214..be70110 100644
--- a/channelpack/readxl.py
+++ b/channelpack/readxl.py
@@ -40,7 +40,7 @@ def cellreference(row=0, col=0, xladdr=None):
     if not xladdr:
         return CellRef(int(row), int(col))
 
-    m = re.match(r'([A-Za-z]+)(\d*)', xladdr)
+    m = re.match(r'([A-Za-z]+)(\d*)\Z', xladdr)
     if not m:
         raise ValueError('Invalid notation:', xladdr)
     if not m.group(2):
-- 
2.43.0


From 72b678783a1442b612678dbceab6fa1e9f33eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:14 +0000
Subject: [PATCH 21/51] fix: colname of columns from AAA

---
 channelpack/xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index e26639b..93c094c 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -2104,7 +2104,7 @@ def colname(colx):
         return alphabet[colx]
     else:
         xdiv26, xmod26 = divmod(colx, 26)
-        return alphabet[xdiv26 - 1] + alphabet[xmod26]
+        return colname(xdiv26 - 1) + alphabet[xmod26]
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-- 
2.43.0


From 9ac79a3ecce8b4a9951742cfdd44997e928555af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:51 +0000
Subject: [PATCH 22/51] fix: dbfpack with names reads a stream from its current
 position

---
 channelpack/dbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 6edae71..0965074 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -191,9 +191,10 @@ def dbfpack(dbf, names=None):
 
     with contextopen(dbf, 'rb') as context:
         fo = context.fo
+        startpos = fo.tell()
         sniffnames = dbfreader(fo)
         allnames = next(sniffnames)
-        fo.seek(0)
+        fo.seek(startpos)
         dbfrecs = dbfrecords(fo, names)
         next(dbfrecs)
         next(dbfrecs)
-- 
2.43.0


From 273db151b41920fdb47439e3c41352498884b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:39 +0000
Subject: [PATCH 23/51] fix: close a text file whose first read fails

---
 channelpack/readtext.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 93bfd67..c17404f 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -222,9 +222,13 @@ class contextopen(object):
             if isinstance(getattr(fname, 'name', None), str):
                 self.name = fname.name
 
-        tell = self.fo.tell()
-        self.bytehint = type(self.fo.read(1)) is bytes
-        self.fo.seek(tell)
+        try:
+            tell = self.fo.tell()
+            self.bytehint = type(self.fo.read(1)) is bytes
+            self.fo.seek(tell)
+        except Exception:       # no __exit__ then
+            self.__exit__(None, None, None)
+            raise
 
     def __enter__(self):
         return self
-- 
2.43.0


From f52d18fb67fdabb10c79228b83e6558c7412a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:49 +0000
Subject: [PATCH 24/51] fix: close the file of an xlsx workbook once it is read

---
 channelpack/xlrd/__init__.py | 62 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/channelpack/xlrd/__init__.py b/channelpack/xlrd/__init__.py
index 5153bf2..34d0af3 100644
--- a/channelpack/xlrd/__init__.py
+++ b/channelpack/xlrd/__init__.py
@@ -112,37 +112,39 @@ def open_workbook(filename=None,
             peek = f.read(peeksz)
     if peek == b"PK\x03\x04": # a ZIP file
         if file_contents:
-            zf = zipfile.ZipFile(timemachine.BYTES_IO(file_contents))
+            zipstream = timemachine.BYTES_IO(file_contents)
         else:
-            zf = zipfile.ZipFile(filename)
-
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = dict([(X12Book.convert_filename(name), name)
-                                for name in zf.namelist()])
-
-        if verbosity:
-            logfile.write('ZIP component_names:\n')
-            pprint.pprint(component_names, logfile)
-        if 'xl/workbook.xml' in component_names:
-            from . import xlsx
-            bk = xlsx.open_workbook_2007_xml(
-                zf,
-                component_names,
-                logfile=logfile,
-                verbosity=verbosity,
-                use_mmap=use_mmap,
-                formatting_info=formatting_info,
-                on_demand=on_demand,
-                ragged_rows=ragged_rows,
-            )
-            return bk
-        if 'xl/workbook.bin' in component_names:
-            raise XLRDError('Excel 2007 xlsb file; not supported')
-        if 'content.xml' in component_names:
-            raise XLRDError('Openoffice.org ODS file; not supported')
-        raise XLRDError('ZIP file contents not a known type of workbook')
+            zipstream = open(filename, "rb")
+        with zipstream:
+            zf = zipfile.ZipFile(zipstream)
+
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = dict([(X12Book.convert_filename(name), name)
+                                    for name in zf.namelist()])
+
+            if verbosity:
+                logfile.write('ZIP component_names:\n')
+                pprint.pprint(component_names, logfile)
+            if 'xl/workbook.xml' in component_names:
+                from . import xlsx
+                bk = xlsx.open_workbook_2007_xml(
+                    zf,
+                    component_names,
+                    logfile=logfile,
+                    verbosity=verbosity,
+                    use_mmap=use_mmap,
+                    formatting_info=formatting_info,
+                    on_demand=on_demand,
+                    ragged_rows=ragged_rows,
+                )
+                return bk
+            if 'xl/workbook.bin' in component_names:
+                raise XLRDError('Excel 2007 xlsb file; not supported')
+            if 'content.xml' in component_names:
+                raise XLRDError('Openoffice.org ODS file; not supported')
+            raise XLRDError('ZIP file contents not a known type of workbook')
 
     from . import book
     bk = book.open_workbook_xls(
-- 
2.43.0


From 32893e79c15d1a22046dcec912449faa38f9ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:33 +0000
Subject: [PATCH 25/51] fix: refuse an OLE2 stream with a sector missing in the
 middle

---
 channelpack/xlrd/compdoc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 412a89e..489c4ea 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -302,6 +302,7 @@ class CompDoc(object):
                         "OLE2 stream %r: sector allocation table invalid entry (%d)" %
                         (name, s)
                     )
+                self._check_sector(sectors[-1], sec_size, s, name)
             assert s == EOCSID
         else:
             todo = size
@@ -323,6 +324,7 @@ class CompDoc(object):
                         "OLE2 stream %r: sector allocation table invalid entry (%d)" %
                         (name, s)
                     )
+                self._check_sector(sectors[-1], grab, s, name)
             assert s == EOCSID
             if todo != 0:
                 fprintf(self.logfile,
@@ -331,6 +333,11 @@ class CompDoc(object):
 
         return b''.join(sectors)
 
+    def _check_sector(self, sector, size, next_sid, name):
+        # Only the end of a stream can be missing without shifting the rest
+        if len(sector) < size and next_sid >= 0:
+            raise CompDocError("OLE2 stream %r: file is truncated" % name)
+
     def _dir_search(self, path, storage_DID=0):
         # Return matching DirNode instance, or None
         head = path[0]
@@ -442,6 +449,7 @@ class CompDoc(object):
                 # start new slice
                 if p >= 0:
                     # not first time
+                    self._check_sector(mem[start_pos:end_pos], end_pos - start_pos, s, qname)
                     slices.append((start_pos, end_pos))
                 start_pos = base + s * sec_size
                 end_pos = start_pos + sec_size
-- 
2.43.0


From 979bc3100df3ae61861a72cf80971fece86e8c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:04 +0000
Subject: [PATCH 26/51] fix: resolve dot segments in relationship targets of
 xlsx workbooks

---
 channelpack/xlrd/xlsx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 0396c40..894786a 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -8,6 +8,7 @@
 
 from __future__ import print_function, unicode_literals
 
+import posixpath
 import re
 import sys
 from os.path import join, normpath
@@ -307,7 +308,8 @@ class X12Book(X12General):
             if target.startswith('/'):
                 self.relid2path[rid]  = target[1:] # drop the /
             else:
-                self.relid2path[rid] = 'xl/' + target
+                # a relative reference, '.' and '..' are resolved
+                self.relid2path[rid] = posixpath.normpath('xl/' + target)
 
     def do_defined_name(self, elem):
         #### UNDER CONSTRUCTION ####
-- 
2.43.0


From 53043b9c3c386298749774969e64850aaf4c29f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:44 +0000
Subject: [PATCH 27/51] fix: read the window options of a BIFF2 sheet as stored

---
 channelpack/xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 6ef9720..0ab364d 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1488,7 +1488,7 @@ class Sheet(BaseObject):
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
                     for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                        setattr(self, attr, int(BYTES_ORD(char) != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From 76a8474a70578ce4405f8d71c7d23a6ab99f4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:44 +0000
Subject: [PATCH 28/51] fix: read a hyperlink whose URL has characters outside
 the BMP

---
 channelpack/xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 0ab364d..75cf254 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1785,7 +1785,7 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From e913c914618d0cfbda79d43f36d149609d6e7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:44 +0000
Subject: [PATCH 29/51] fix: read empty and escaped authors of xlsx comments

---
 channelpack/xlrd/xlsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 894786a..1c1147a 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -536,7 +536,7 @@ class X12Sheet(X12General):
         root = ET.parse(stream).getroot()
         author_list = root[0]
         assert author_list.tag == U_SSML12 + 'authors'
-        authors = [elem.text for elem in author_list]
+        authors = [unescape(ensure_unicode(elem.text or '')) for elem in author_list]
         comment_list = root[1]
         assert comment_list.tag == U_SSML12 + 'commentList'
         cell_note_map = self.sheet.cell_note_map
-- 
2.43.0


From 964b01ba1a0d9078077e94fc2257a05cc3f89f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:44 +0000
Subject: [PATCH 30/51] fix: resolve the relationships of an xlsx sheet from
 its own folder

---
 channelpack/xlrd/xlsx.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 1c1147a..db890cb 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -11,7 +11,6 @@ from __future__ import print_function, unicode_literals
 import posixpath
 import re
 import sys
-from os.path import join, normpath
 
 try:
     import defusedxml.ElementTree as ET
@@ -518,19 +517,21 @@ class X12Sheet(X12General):
                 self.do_merge_cell(elem)
         self.finish_off()
 
-    def process_rels(self, stream):
+    def process_rels(self, stream, folder='xl/worksheets'):
         if self.verbosity >= 2:
             fprintf(self.logfile, "\n=== Sheet Relationships ===\n")
         tree = ET.parse(stream)
         r_tag = U_PKGREL + 'Relationship'
         for elem in tree.findall(r_tag):
             rid = elem.get('Id')
-            target = elem.get('Target')
+            target = X12Book.convert_filename(elem.get('Target'))
             reltype = elem.get('Type').split('/')[-1]
             if self.verbosity >= 2:
                 self.dumpout('Id=%r Type=%r Target=%r', rid, reltype, target)
             self.relid2reltype[rid] = reltype
-            self.relid2path[rid] = normpath(join('xl/worksheets', target))
+            # relative to the folder of the sheet, or absolute
+            self.relid2path[rid] = posixpath.normpath(
+                posixpath.join(folder, target)).lstrip('/')
 
     def process_comments_stream(self, stream):
         root = ET.parse(stream).getroot()
@@ -813,10 +814,11 @@ def open_workbook_2007_xml(zf,
         x12sheet.process_stream(zflo, heading)
         del zflo
 
-        rels_fname = 'xl/worksheets/_rels/%s.rels' % fname.rsplit('/', 1)[-1]
+        folder, basename = posixpath.split(fname)
+        rels_fname = posixpath.join(folder, '_rels', basename + '.rels')
         if rels_fname in component_names:
             zfrels = zf.open(component_names[rels_fname])
-            x12sheet.process_rels(zfrels)
+            x12sheet.process_rels(zfrels, folder)
             del zfrels
 
         for relid, reltype in x12sheet.relid2reltype.items():
-- 
2.43.0


From dbb9108b0459d3cb2164a1da81dc6750bd353920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 31/51] fix: open workbooks whose names calculate with errors
 or text

---
 channelpack/xlrd/formula.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 93c094c..a03f83c 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -796,11 +796,18 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+            result = func(aval, bval)
+        except (ArithmeticError, TypeError, ValueError):
+            # an error value in Excel, or operands of different kinds
+            stk.append(resop)
+            return
         if result_kind == oBOOL:
             result = 1 if result else 0
+        elif isinstance(result, complex):
+            result = None
         resop.value = result
         stk.append(resop)
 
@@ -817,7 +824,10 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             sym2,
         ])
         if val is not None:
-            val = func(val)
+            if aop.kind in (oNUM, oBOOL):
+                val = func(val)
+            else:
+                val = None
         stk.append(Operand(result_kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
-- 
2.43.0


From bb08f3c4e4066b06eda5b7774da33b406a16e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 32/51] fix: keep the parentheses of a right operand in the
 text of a name

---
 channelpack/xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index a03f83c..20b3a48 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -782,9 +782,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank],
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         try:
-- 
2.43.0


From 206057d566d5fd2704a24420e7c7adfeca47d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 33/51] fix: open workbooks with nested reference operators in
 a name

---
 channelpack/xlrd/formula.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 20b3a48..6f29610 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -893,17 +893,13 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     # res.kind = oREF
                     pass
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if aop.value and bop.value and len(aop.value) == len(bop.value) == 1:
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if aop.value and bop.value and len(aop.value) == len(bop.value) == 1:
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
@@ -938,8 +934,6 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if aop.kind == oREL or bop.kind == oREL:
                         res.kind = oREL
                     if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) >= 1
-                        assert len(bop.value) == 1
                         res.value = aop.value + bop.value
                 else:
                     pass
@@ -963,19 +957,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if aop.value and bop.value and len(aop.value) == len(bop.value) == 1:
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
-                    if aop.value is not None and bop.value is not None:
-                        assert len(aop.value) == 1
-                        assert len(bop.value) == 1
+                    if aop.value and bop.value and len(aop.value) == len(bop.value) == 1:
                         coords = do_box_funcs(
                             tRangeFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
-- 
2.43.0


From 7912f751ff318834e6e31b9b2510e69350a352af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 34/51] fix: open workbooks with a function without arguments
 in a name

---
 channelpack/xlrd/formula.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 6f29610..b9c03f1 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -1085,7 +1085,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                args = stack[len(stack) - nargs:]
+                argtext = listsep.join(arg.text for arg in args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1118,7 +1119,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[len(stack) - nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 6711eb64ada14d701d2c38483d08e568c5d5c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 35/51] fix: open workbooks with CHOOSE of an unknown number in
 a name

---
 channelpack/xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index b9c03f1..62239fe 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -1112,7 +1112,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
                     testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
                             chosen = stack[-nargs + int(testarg.value)]
                             if chosen.kind == oMSNG:
-- 
2.43.0


From 84d7f2f897c317bf33b45a17f23a0913b9e7101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 36/51] fix: open workbooks with a name local to a macro or
 chart sheet

---
 channelpack/xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 62239fe..425d265 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -1143,7 +1143,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(tgtobj.stack) == 1
                 res = copy.deepcopy(tgtobj.stack[0])
             res.rank = LEAF_RANK
-            if tgtobj.scope == -1:
+            if tgtobj.scope < 0: # global, or of no worksheet
                 res.text = tgtobj.name
             else:
                 res.text = "%s!%s" \
@@ -1322,7 +1322,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     assert len(tgtobj.stack) == 1
                     res = copy.deepcopy(tgtobj.stack[0])
                 res.rank = LEAF_RANK
-                if tgtobj.scope == -1:
+                if tgtobj.scope < 0: # global, or of no worksheet
                     res.text = tgtobj.name
                 else:
                     res.text = "%s!%s" \
-- 
2.43.0


From 8dc6ccb12b96395cff744fe04e1302bd561fc1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 37/51] fix: open workbooks with an array constant in a name

---
 channelpack/xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/formula.py b/channelpack/xlrd/formula.py
index 425d265..fb8fe39 100644
--- a/channelpack/xlrd/formula.py
+++ b/channelpack/xlrd/formula.py
@@ -100,8 +100,8 @@ listsep = ',' #### probably should depend on locale
 sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 8, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
 sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
 sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
-sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
-sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
+sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
+sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
 
 szdict = {
     20 : sztab0,
-- 
2.43.0


From 50c87d0c46d93000400d393a9b345272a6cf2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 38/51] fix: raise XLRDError for a name whose reference depends
 on cell data

---
 channelpack/xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 4851236..c005e34 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -227,7 +227,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -264,7 +264,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From 6be70fabb9a7ee7dc962172f30e61aa01a555621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 39/51] fix: count all sheets in the scope of an xlsx name

---
 channelpack/xlrd/xlsx.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index db890cb..5ed0e63 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -325,6 +325,13 @@ class X12Book(X12General):
         map_attributes(_defined_name_attribute_map, elem, nobj)
         if nobj.scope is None:
             nobj.scope = -1 # global
+        elif nobj.scope < len(bk._all_sheets_map):
+            # localSheetId counts all sheets, not only worksheets
+            nobj.scope = bk._all_sheets_map[nobj.scope]
+            if nobj.scope == -1: # not a worksheet
+                nobj.scope = -2
+        else:
+            nobj.scope = -3 # invalid
         if nobj.name.startswith("_xlnm."):
             nobj.builtin = 1
         if self.verbosity >= 2:
@@ -351,7 +358,9 @@ class X12Book(X12General):
         if reltype != 'worksheet':
             if self.verbosity >= 2:
                 self.dumpout('Ignoring sheet of type %r (name=%r)', reltype, name)
+            bk._all_sheets_map.append(-1)
             return
+        bk._all_sheets_map.append(sheetx)
         state = elem.get('state')
         visibility_map = {
             None: 0,
-- 
2.43.0


From 536f80693aacdb0c2c6f085f0149d05a3e0b951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:52 +0000
Subject: [PATCH 40/51] fix: keep times as they are in a channel masked with
 nan

---
 channelpack/datautils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/channelpack/datautils.py b/channelpack/datautils.py
index e918e37..87b6c1f 100644
--- a/channelpack/datautils.py
+++ b/channelpack/datautils.py
@@ -28,6 +28,12 @@ def masked(a, b):
     if a.dtype.kind in ('i', 'u', 'f', 'c'):
         return np.where(b, a, np.full(len(a), np.nan))
     else:
+        if a.dtype.kind in ('m', 'M'):  # times python has no type for
+            times = np.array(a, dtype=object)  # are made integers by numpy
+            for i, time in enumerate(a):
+                if isinstance(times[i], int):
+                    times[i] = time
+            a = times
         return np.where(b, a, np.full(len(a), None))
 
 
-- 
2.43.0


From 9402bb275ad7447136643bc6c453e4b49bad00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:37 +0000
Subject: [PATCH 41/51] fix: skip blank lines with tabs in white space
 delimited text

With no delimiter given, a line of nothing but a tab made a row of no
fields, by which all data was lost.
---
 channelpack/readtext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c17404f..dc825e8 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -469,11 +469,11 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
 
     # don't strip off tabs or some possible white space delimiter
     if not bytehint:
-        stripchars = string.whitespace.replace(delimiter or '\t', '')
+        stripchars = string.whitespace.replace(delimiter or '', '')
     elif bytehint:
         whites = string.whitespace.encode('ascii')
         # assuming delimiter is bytes or None
-        stripchars = whites.replace(delimiter or b'\t', b'')
+        stripchars = whites.replace(delimiter or b'', b'')
 
     if hasnames:
         fieldnames = [field.strip() for field in
-- 
2.43.0


From 4d0ba2ddb1c4d0a038835383c4d10fae1a6fb99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:42 +0000
Subject: [PATCH 42/51] fix: read array formulas of less than four bytes in old
 xls files

---
 channelpack/xlrd/sheet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 75cf254..8617d01 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -954,8 +954,9 @@ class Sheet(BaseObject):
                             if rc2 == XL_STRING or rc2 == XL_STRING_B2:
                                 gotstring = 1
                             elif rc2 == XL_ARRAY:
-                                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                                    local_unpack("<HHBBBxxxxxH", data2[:14])
+                                # before BIFF5, the record can be less than 14 bytes
+                                row1x, rownx, col1x, colnx, array_flags = \
+                                    local_unpack("<HHBBB", data2[:7])
                                 if blah_formulas:
                                     fprintf(self.logfile, "ARRAY: %d %d %d %d %d\n",
                                         row1x, rownx, col1x, colnx, array_flags)
@@ -1149,8 +1150,9 @@ class Sheet(BaseObject):
                 )
                 assert pos == data_len
             elif rc == XL_ARRAY:
-                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                    local_unpack("<HHBBBxxxxxH", data[:14])
+                # before BIFF5, the record can be less than 14 bytes
+                row1x, rownx, col1x, colnx, array_flags = \
+                    local_unpack("<HHBBB", data[:7])
                 if blah_formulas:
                     print("ARRAY:", row1x, rownx, col1x, colnx, array_flags, file=self.logfile)
                     # dump_formula(bk, data[14:], tokslen, bv, reldelta=0, blah=1)
-- 
2.43.0


From 8a681a546ba80f557318e99cf8d0fa4bb13bf6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:42 +0000
Subject: [PATCH 43/51] fix: read an xlsx formula without text as empty text

---
 channelpack/xlrd/xlsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 5ed0e63..3efaa9c 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -697,7 +697,7 @@ class X12Sheet(X12General):
                         bad_child_tag(child_tag)
                 # assert tvalue is not None and formula is not None
                 # Yuk. Fails with file created by gnumeric -- no tvalue!
-                self.sheet.put_cell(rowx, colx, XL_CELL_TEXT, tvalue, xf_index)
+                self.sheet.put_cell(rowx, colx, XL_CELL_TEXT, tvalue or '', xf_index)
             elif cell_type == "b":
                 # b = boolean
                 # <v> child contains "0" or "1"
-- 
2.43.0


From 1424464bc19336c68362bd25aa83b7110add297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:56 +0000
Subject: [PATCH 44/51] fix: join characters of xls text split between CONTINUE
 records

---
 channelpack/xlrd/book.py  | 22 +++++++++++-----------
 channelpack/xlrd/sheet.py | 21 +++++++++++++--------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index c005e34..13531ef 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1438,7 +1438,7 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        accraw = b'' # as UTF-16; a surrogate pair may be split between records
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1447,22 +1447,14 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1472,6 +1464,14 @@ def unpack_SST_table(datatab, nstrings):
             datalen = len(data)
             options = local_BYTES_ORD(data[0])
             pos = 1
+        try:
+            accstrg = unicode(accraw, "utf_16_le")
+        except:
+            # Probable cause: dodgy data e.g. unfinished surrogate pair.
+            # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
+            # unichr(i) for i in range(0x100000)
+            # so this will include 0xD800 etc
+            raise
 
         if rtcount:
             runs = []
diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 8617d01..1cb0706 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1517,20 +1517,24 @@ class Sheet(BaseObject):
         offset = lenlen
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
+        else:
+            enc = "utf_16_le"
         flag = 0
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        result = b"" # a character may be split between records
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
             chunk = data[offset:]
-            result += unicode(chunk, enc)
+            if bv >= 80 and not flag:
+                result += unicode(chunk, "latin_1").encode("utf_16_le")
+            else:
+                result += chunk
             # counted in bytes or utf-16 code units, not in characters
             nchars_found += len(chunk) >> flag
             if nchars_found == nchars_expected:
-                return result
+                return unicode(result, enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
@@ -2031,7 +2035,7 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        raw = b'' # as UTF-16; a surrogate pair may be split between records
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2042,10 +2046,11 @@ class Sheet(BaseObject):
             if nb:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+                raw += data2[1:]
+            else:
+                raw += unicode(data2[1:], "latin_1").encode("utf_16_le")
             totchars += nchars
+        o.text = unicode(raw, "utf_16_le")
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From 6980ea6cec4191fa5fb34a85dea8330e42ce68af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 45/51] fix: read a workbook stream far down in the OLE2
 directory

The id of a directory entry beyond 249 did not fit in the table of seen
sectors (OverflowError).
---
 channelpack/xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 489c4ea..fbe89ed 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From 87876486b3ac0903b40612818859b84775e1f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 46/51] fix: tell zero bytes behind the records as padding in
 any file layout

dump and count_records compared the rest of the file, not of the stream,
with zero bytes, so the padding counted as records or not depending on
where in the file the stream was.
---
 channelpack/xlrd/biffh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/biffh.py b/channelpack/xlrd/biffh.py
index 07ac629..60a4648 100644
--- a/channelpack/xlrd/biffh.py
+++ b/channelpack/xlrd/biffh.py
@@ -559,7 +559,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 dummies = stream_end - pos
                 savpos = pos
                 pos = stream_end
@@ -602,7 +602,7 @@ def biff_count_records(mem, stream_offset, stream_len, fout=sys.stdout):
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 break
             recname = "<Dummy (zero)>"
         else:
-- 
2.43.0


From 8f4385bc705d9511985ba45b5963c496c6947cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 47/51] fix: refuse a short OLE2 stream whose chain of sectors
 is circular

Opening the file never ended, and took ever more memory.
---
 channelpack/xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index fbe89ed..1bc8dfe 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -316,6 +316,8 @@ class CompDoc(object):
                 if grab > todo:
                     grab = todo
                 todo -= grab
+                if len(sectors) >= len(sat):
+                    raise CompDocError("OLE2 stream %r: sector chain without an end" % name)
                 sectors.append(mem[start_pos:start_pos+grab])
                 try:
                     s = sat[s]
-- 
2.43.0


From dda548f43cbf2edf0a4c781de8f2da2858d2fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:18 +0000
Subject: [PATCH 48/51] fix: a sheet list of an external workbook cut inside a
 name does not keep the workbook from being read

---
 channelpack/xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 13531ef..741d7cf 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1142,7 +1142,7 @@ class Book(BaseObject):
         for x in range(num_sheets):
             try:
                 shname, pos = unpack_unicode_update_pos(data, pos, lenlen=2)
-            except struct.error:
+            except (struct.error, IndexError, UnicodeDecodeError):
                 # #### FIX ME ####
                 # Should implement handling of CONTINUE record(s) ...
                 if self.verbosity:
-- 
2.43.0


From 782e4942e580c9b446150c15741e3859355ae1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:18 +0000
Subject: [PATCH 49/51] fix: skip phonetic data of a shared string over any
 number of records

---
 channelpack/xlrd/book.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 741d7cf..7c90ee1 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1486,8 +1486,8 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
-            # adjust to correct position in next record
+        while pos >= datalen:
+            # adjust to correct position in a following record
             pos = pos - datalen
             datainx += 1
             if datainx < ndatas:
@@ -1495,5 +1495,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From 1ae53df231ceb96120c7741764080af73c1952a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:18 +0000
Subject: [PATCH 50/51] fix: read the standard East Asian and Thai date formats
 of xlsx workbooks as dates

---
 channelpack/xlrd/xlsx.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 3efaa9c..e3c0fe1 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -22,7 +22,9 @@ from .biffh import (
     error_text_from_code,
 )
 from .book import Book, Name
-from .formatting import XF, Format, is_date_format_string
+from .formatting import (
+    FDT, XF, Format, is_date_format_string, std_format_code_types,
+)
 from .sheet import Sheet
 from .timemachine import *
 
@@ -448,8 +450,9 @@ class X12Styles(X12General):
         self.xf_counts = [0, 0]
         self.xf_type = None
         self.fmt_is_date = {}
-        for x in list(range(14, 23)) + list(range(45, 48)): #### hard-coding FIX ME ####
-            self.fmt_is_date[x] = 1
+        for x, ty in std_format_code_types.items():
+            if ty == FDT:
+                self.fmt_is_date[x] = 1
         # dummy entry for XF 0 in case no Styles section
         self.bk._xf_index_to_xl_type_map[0] = 2
         # fill_in_standard_formats(bk) #### pre-integration kludge
-- 
2.43.0


From 91424aa972c08c0411abca2ec58b3df49863edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:20 +0000
Subject: [PATCH 51/51] fix: lazy_textpack takes None for usecols and encoding,
 as textpack does

---
 channelpack/readtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index dc825e8..5cf9d42 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -265,7 +265,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
         keyword arguments if duplicated.
 
     """
-    encoding = textkwargs.get('encoding', locale.getpreferredencoding())
+    encoding = textkwargs.get('encoding') or locale.getpreferredencoding()
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
         tell = fo.tell()
@@ -283,8 +283,8 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
         fo.seek(tell)
         derived.update(textkwargs)
 
-        if 'usecols' in textkwargs and 'names' not in textkwargs:
-            usecols = textkwargs['usecols']
+        usecols = textkwargs.get('usecols')
+        if usecols is not None and 'names' not in textkwargs:
             usecols = (usecols,) if type(usecols) is int else usecols
             for key in list(derived.get('names', {})):  # no names no loop
                 if key not in usecols:
-- 
2.43.0

