From 187da822ef074fd31082055ef19da1571b1d6b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:32 +0000
Subject: [PATCH 01/17] fix: do not drop all text when typing with an empty
 layout

A layout without any text has a lookup buffer of zero characters, so
Writer.type() read zero characters, took that for the end of input and
silently dropped the text instead of reporting its characters as unknown.
---
 lulua/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/writer.py b/lulua/writer.py
index a186315..fc0bdee 100644
--- a/lulua/writer.py
+++ b/lulua/writer.py
@@ -189,7 +189,8 @@ class Writer:
     def type (self, fd):
         buf = ''
         while True:
-            buf += fd.read (self.layout.bufferLen-len (buf))
+            # layouts without any text still have to consume their input
+            buf += fd.read (max (self.layout.bufferLen, 1)-len (buf))
             if not buf:
                 break
 
-- 
2.43.0


From a51cad1a6dba8dab6556927f26ab0264005e68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:47 +0000
Subject: [PATCH 02/17] fix: (de)serializing buttons must not modify buttons or
 input data

Button.serialize() replaced the windows scancode tuple of the live button with
a list, so a keyboard was not usable for rendering (unhashable scancodes) after
serializing it. Button.deserialize() and the constructor modified the data they
were given, so it could not be deserialized a second time with the same result.
---
 lulua/keyboard.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index eed58a7..b73109a 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -47,7 +47,8 @@ class Button:
         self.isMarked = isMarked
         # scancode map, although they are not all technically scancodes, they
         # are some low-level representation of the physical key
-        self.scancode = scancode
+        # do not modify the caller’s data below
+        self.scancode = dict (scancode) if scancode else scancode
         # special case for windows
         if self.scancode and 'windows' in self.scancode:
             self.scancode['windows'] = tuple (self.scancode['windows'])
@@ -71,11 +72,8 @@ class Button:
     def deserialize (self, data: Dict):
         kindMap = dict (map (lambda x: (x.serializedName, x),
                 (Button, LetterButton, MultiRowButton)))
-        try:
-            kind = data['kind']
-            del data['kind']
-        except KeyError:
-            kind = 'standard'
+        data = dict (data)
+        kind = data.pop ('kind', 'standard')
         return kindMap[kind] (**data)
 
     def serialize (self):
@@ -86,7 +84,7 @@ class Button:
             d['isMarked'] = self.isMarked
         # turn the tuple back into a list
         if d['scancode'] and 'windows' in d['scancode']:
-            d['scancode']['windows'] = list (d['scancode']['windows'])
+            d['scancode'] = dict (d['scancode'], windows=list (d['scancode']['windows']))
         return d
 
 class LetterButton (Button):
-- 
2.43.0


From ae2a5a038dcd88ab1e30afece516b143f1f55ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:20 +0000
Subject: [PATCH 03/17] fix: pickle buttons by name, ids are only valid within
 one process

---
 lulua/keyboard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index b73109a..27dc4ac 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -64,6 +64,10 @@ class Button:
     def __hash__ (self):
         return hash (self.i)
 
+    def __reduce__ (self):
+        # ids are valid for the current process only, pickle by name
+        return Button.deserialize, (self.serialize (), )
+
     @property
     def name (self):
         return Button._idToName[self.i]
-- 
2.43.0


From a68e91703c142c6fb66480b67432aaeec56c74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:47 +0000
Subject: [PATCH 04/17] fix: credit finger runs to the finger that made them
 and merge them

---
 lulua/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 9d6c537..c90da04 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -76,7 +76,8 @@ class RunlenStats (Stats):
     def __eq__ (self, other):
         if not isinstance (other, RunlenStats):
             return NotImplemented
-        return self.perHandRunlenDist == other.perHandRunlenDist
+        return self.perHandRunlenDist == other.perHandRunlenDist and \
+                self.fingerRunlenDist == other.fingerRunlenDist
         
     def process (self, event):
         if isinstance (event, ButtonCombination):
@@ -90,7 +91,7 @@ class RunlenStats (Stats):
 
             fingerKey = (thisHand, thisFinger)
             if self.lastFinger and fingerKey != self.lastFinger:
-                self.fingerRunlenDist[fingerKey][self.fingerRunlen] += 1
+                self.fingerRunlenDist[self.lastFinger][self.fingerRunlen] += 1
                 self.fingerRunlen = 0
             self.fingerRunlen += 1
             self.lastFinger = fingerKey
@@ -106,6 +107,7 @@ class RunlenStats (Stats):
 
     def update (self, other):
         updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)
+        updateDictOp (self.fingerRunlenDist, other.fingerRunlenDist, operator.add)
 
 class SimpleStats (Stats):
     __slots__ = ('buttons', 'combinations', 'unknown')
-- 
2.43.0


From f37a8e56a3311bc8b88ac26ce96430f802dd8d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:13 +0000
Subject: [PATCH 05/17] fix: report energy of the best layout, not of the last
 accepted one
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The optimizer writes the best layout found, but the energy written along was
that of the annealer’s current state, which may be worse.
---
 lulua/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index facba17..33a6d1d 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -342,6 +342,8 @@ def optimize ():
             opt.mutate (withEnergy=False)
     try:
         state, relEnergy = opt.run (steps=args.steps)
+        # the current state is not necessarily the best one
+        opt.state = state
         energy = opt.energy ()
         optimalButtonMap = state.buttonMap
     except KeyboardInterrupt:
-- 
2.43.0


From cef4faf920e1002db9b61a5ea9886b6866c747ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:22 +0000
Subject: [PATCH 06/17] fix: do not treat tar metadata as documents

GNU tar stores long file names as separate members, whose content, the file
name, ended up in the corpus.
---
 lulua/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index ea91139..3ea60a1 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -157,11 +157,15 @@ def filterTar (fd):
             break
         assert header[256:256+8] == b'\0ustar  ', (header[256:256+8])
         size = int (header[124:124+12].rstrip (b'\0'), base=8)
+        typeflag = header[156:156+1]
 
         # read body
         if size > 0:
-            yield BytesIO (fd.read (size))
+            body = fd.read (size)
             pos += size
+            # metadata, like long file names, has a body too
+            if typeflag in (b'0', b'\0'):
+                yield BytesIO (body)
 
         # align to next 512 byte block
         into = pos%blocksize
-- 
2.43.0


From b50cdcf200ebc2659c3b65408fba210c6a4ae923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:22 +0000
Subject: [PATCH 07/17] fix: do not wait forever for the rest of truncated
 brotli streams

---
 lulua/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 3ea60a1..31270d2 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -128,7 +128,10 @@ class BrotliFile:
         while not self.decompressor.is_finished ():
             if num is not None and len (self.buf) >= num:
                 break
-            self.buf += self.decompressor.process (self.fd.read (self.readchunk))
+            chunk = self.fd.read (self.readchunk)
+            if not chunk:
+                raise EOFError ('truncated brotli stream')
+            self.buf += self.decompressor.process (chunk)
         if num is not None:
             b = self.buf[0:num]
             self.buf = self.buf[num:]
-- 
2.43.0


From 1b771c4bba02ffc1c2896ab4abca5d2a7bade52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:51 +0000
Subject: [PATCH 08/17] fix: do not lose text following nested selected
 elements

---
 lulua/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 31270d2..43ceb5f 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -61,7 +61,8 @@ class Select (Filter):
             if ttype == 'StartTag':
                 tname = token['name']
                 tdata = token['data']
-                if self.f (token):
+                # may be nested, do not lose track of the outer element
+                if self.inside is None and self.f (token):
                     self.inside = 0
                 if tname in {'script', 'style'}:
                     isScript = 0
-- 
2.43.0


From d1beb9d8843673309317bad581952514b909d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 09/17] fix: give keys their own key codes

The right Windows key shared its X11 key code with the right control key,
thus xmodmap exports contained no entry for it. Likewise left shift and caps
lock on macOS.
---
 lulua/data/keyboards/ibmpc105.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index 0938262..b2453ed 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -372,7 +372,7 @@ rows:
 - - - name: El_shift
       scancode:
         keyman: SHIFT
-        macos: 57
+        macos: 56
         windows:
         - 42
         xorg: 50
@@ -536,11 +536,11 @@ rows:
     - name: Fr_win
       scancode:
         keyman: K_?5C
-        macos: 55
+        macos: 54
         windows:
         - 224
         - 92
-        xorg: 105
+        xorg: 134
       width: 1.25
     - name: Fr_menu
       scancode:
-- 
2.43.0


From 6fec29a776a53d91f9ac30a74153062a91ff8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:48 +0000
Subject: [PATCH 10/17] fix: keep attributes of the bottom row of Android
 layouts

---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index bc09e4c..7a42a44 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -462,7 +462,7 @@ def renderAsk (args):
             # backspace
             {'ask:isFunctional': 'true', 'android:keyWidth': '25%p', 'android:codes': '-5', 'android:keyEdgeFlags': 'right', 'android:isRepeatable': 'true'},
             ]:
-        ET.SubElement (rowelem, 'Key', )
+        ET.SubElement (rowelem, 'Key', attrib)
 
     tree = ET.ElementTree (kbdelem)
     tree.write (args.output, encoding='utf-8', xml_declaration=True)
-- 
2.43.0


From ae6f88c11d0645e12eb021cda4d0c4984b850fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:53 +0000
Subject: [PATCH 11/17] fix: terminate scancode tables of Windows drivers

---
 lulua/winkbd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lulua/winkbd.py b/lulua/winkbd.py
index 0f4dffc..c35d112 100644
--- a/lulua/winkbd.py
+++ b/lulua/winkbd.py
@@ -450,6 +450,8 @@ def scancodeToVkTables (m):
         f = lambda x: len (x[0]) == 2 and x[0][0] == escape
         for k, v in sorted (filter (f, m.items ()), key=lambda x: x[0]):
             ret.append (f'\t{{ 0x{k[1]:x}, {enumOr (v)} }},')
+        # tables must be zero-terminated
+        ret.append ('\t{ 0, 0 },')
         ret.append ('\t};\n')
 
     return '\n'.join (ret)
-- 
2.43.0


From 9f488be7e93008b9d97fbfbe3df49cd05e045caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:17 +0000
Subject: [PATCH 12/17] fix: import KLC files to existing keys

OEM_3 is not the same key as 1, and neither Cr0 nor Er_altgr exist.
---
 lulua/layout.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 5e021fe..9e7ca76 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -245,7 +245,7 @@ class GenericLayout:
             return unicodedata.normalize ('NFD', chr (n))
 
         vkToButton = {
-            'OEM_3': 'Bl2',
+            'OEM_3': 'Bl1',
             '1': 'Bl2',
             '2': 'Bl3',
             '3': 'Bl4',
@@ -271,7 +271,7 @@ class GenericLayout:
             'P': 'Cr3',
             'OEM_4': 'Cr2',
             'OEM_6': 'Cr1',
-            'OEM_5': 'Cr0',
+            'OEM_5': 'Dr1',
 
             'A': 'Dl1',
             'S': 'Dl2',
@@ -284,7 +284,6 @@ class GenericLayout:
             'L': 'Dr4',
             'OEM_1': 'Dr3',
             'OEM_7': 'Dr2',
-            #Dr1
 
             'OEM_102': 'El1',
             'Z': 'El2',
@@ -336,8 +335,8 @@ class GenericLayout:
                 1: [('El_shift', ), ('Er_shift', )],
                 2: [('Fl_ctrl', ), ('Fr_ctrl', )],
                 3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],
-                4: [('Er_altgr', )],
-                5: [('El_shift', 'Er_altgr')],
+                4: [('Fr_altgr', )],
+                5: [('El_shift', 'Fr_altgr')],
                 }
             return layers, layerSwitches
 
-- 
2.43.0


From 1513c4b364c6aa697c3f1b84f751b075f89d78f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:17 +0000
Subject: [PATCH 13/17] fix: import literal characters of KLC files

---
 lulua/layout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lulua/layout.py b/lulua/layout.py
index 9e7ca76..6fd03b2 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -239,6 +239,9 @@ class GenericLayout:
             # two symbols for NULL? Seriously Microsoft?
             if c == '%%':
                 return None
+            # letters and digits represent themselves
+            if len (c) == 1:
+                return c
             n = int (c, 16)
             if n == -1:
                 return None
-- 
2.43.0


From 682ce7fa36fa8193b9bb0dd9cdc35775893bfcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 14/17] fix: stop reading KLC files at the end of the layout
 section, strip all comments

---
 lulua/layout.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 6fd03b2..149c19c 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -308,15 +308,13 @@ class GenericLayout:
             layers = [{} for i in range (6)]
             for line in fd:
                 # strip comments
-                try:
-                    line = line[:line.index ('//')]
-                    line = line[:line.index (';')]
-                except ValueError:
-                    pass
+                for marker in ('//', ';'):
+                    line = line.split (marker, 1)[0]
                 line = line.strip ()
                 if line.startswith ('LAYOUT'):
                     mode = 'layout'
-                elif line == 'LIGATURE':
+                elif line.split (None, 1)[:1] in (['LIGATURE'], ['DEADKEY'], ['KEYNAME']):
+                    # next section
                     mode = None
                 elif mode == 'layout':
                     try:
-- 
2.43.0


From 4c3226fdb3e8331effad4d9ebe7724091392454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:40 +0000
Subject: [PATCH 15/17] fix: do not wait for failed workers when importing text

---
 lulua/text.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index 43ceb5f..c48c6e2 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -440,9 +440,19 @@ def write ():
             name=f'status')
     statusp.start()
 
+    def put (item):
+        while True:
+            try:
+                inq.put (item, timeout=1)
+                break
+            except queue.Full:
+                # failed workers do not consume any more items
+                if not outq.empty ():
+                    break
+
     try:
         for l in sys.stdin:
-            inq.put (l)
+            put (l)
 
             # something is wrong
             if not outq.empty ():
@@ -453,9 +463,11 @@ def write ():
     # exit workers
     # every one of them will consume exactly one item and write one in return
     for w in workers:
-        inq.put (None)
+        put (None)
         item = outq.get ()
         if isinstance (item, Exception):
+            # nobody is going to read pending items
+            inq.cancel_join_thread ()
             raise item
         if item is not None:
             pickle.dump (item, sys.stdout.buffer, pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 2b967da9310a55b5b865283a0d2a4ef7947669b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:31 +0000
Subject: [PATCH 16/17] fix: keep keyboard when copying layouts

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 149c19c..6c6c480 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -163,7 +163,7 @@ class KeyboardLayout:
 
     def copy (self):
         layers = copy.deepcopy (self.layers)
-        return self.__class__ (self.name[:], layers)
+        return self.__class__ (self.name[:], layers, self.keyboard)
 
     def getText (self, comb: ButtonCombination) -> Text:
         """ Get input text for combination """
-- 
2.43.0


From 84e850cf9a59467684d2a3d8cf1fb50d91b6ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:31 +0000
Subject: [PATCH 17/17] fix: write control characters to macOS keyboard layouts
 as references

---
 lulua/render.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index 7a42a44..4f72229 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -18,7 +18,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 # THE SOFTWARE.
 
-import argparse, sys, logging, pkg_resources, base64, unicodedata
+import argparse, sys, logging, pkg_resources, base64, unicodedata, re
 from collections import namedtuple, defaultdict
 from itertools import chain
 from operator import attrgetter
@@ -548,12 +548,17 @@ def renderKeylayout (args):
     layouts = ET.SubElement (docroot, 'layouts')
     layout = ET.SubElement (layouts, 'layout', first='0', last='0', modifiers=str (modmapId), mapSet=str (keymapSetId))
 
-    decl = b"""<?xml version="1.0" encoding="utf-8"?>
+    decl = b"""<?xml version="1.1" encoding="utf-8"?>
 <!DOCTYPE keyboard PUBLIC "" "file://localhost/System/Library/DTDs/KeyboardLayout.dtd">
 """
+    # control characters like backspace must be references, which requires XML
+    # 1.1
+    doc = re.sub ('[\x01-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f]',
+            lambda m: f'&#x{ord (m.group ()):04x};',
+            ET.tostring (docroot, encoding='unicode'))
     with open (args.output, 'wb') as fd:
         fd.write (decl)
-        fd.write (ET.tostring (docroot, encoding='utf-8'))
+        fd.write (doc.encode ('utf-8'))
 
 def renderKlavaro (args):
     keyboard = defaultKeyboards[args.keyboard]
-- 
2.43.0

