From 1dfe1c605997ed24c7acb69461e51892d788e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 01/31] fix: OriyaSubojinedVa used a malformed regular
 expression and raised on every text

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 581697b..ec103fa 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -139,7 +139,7 @@ def BalineseMoveRepha(Strng):
     return BalineseJavaneseMoveRepha(Strng, 'Balinese', 'ᬃ')
 
 def OriyaSubojinedVa(Strng):
-    Strng = re.sub('(??<![ମବ])(୍ବ)', '୍ୱ', Strng)
+    Strng = re.sub('(?<![ମବ])(୍ବ)', '୍ୱ', Strng)
 
     return Strng
 
-- 
2.43.0


From 1fc8b30ed82b5dccac1e120f7f03b03985af8e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 02/31] fix: removeZW called str.replace with one argument and
 raised on every text

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index ec103fa..979ab57 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1667,7 +1667,7 @@ def normalize(Strng,Source):
 
 # Remove ZWJ/ZWNJ characters
 def removeZW(Strng):
-    Strng = Strng.replace("\u200C").replace("\u200D")
+    Strng = Strng.replace("\u200C", "").replace("\u200D", "")
 
     return Strng
 
-- 
2.43.0


From 56e6d6c31b86b47d9ce736ad0869e074a166159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 03/31] fix: IPAIndic dropped its result and returned None

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 979ab57..0e529fc 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1791,4 +1791,4 @@ def IPAIndic(Strng):
     Strng = Strng.replace("ʊ","u")
     Strng = Strng.replace("ɛ","e")
 
-    return
+    return Strng
-- 
2.43.0


From 3984fed45d2dea3b610371132ed56213d724c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 04/31] fix: TaiThamMoveNnga replaced the whole text by a fixed
 word

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 2c0d907..0e5799d 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -3467,7 +3467,7 @@ def TaiThamHighNga(Strng):
 def TaiThamMoveNnga(Strng):
     Strng = re.sub('(.)(\u1A58)',r'\2\1',Strng) # Probably its u1A59
 
-    return "Vinodh"
+    return Strng
 
 def UrduRemoveShortVowels(Strng):
     ShortVowels = ['\u0652','\u064E','\u0650','\u064F', '\u0658']
-- 
2.43.0


From a3c379c4fbfeb3394ef88b1b78ce69d322398067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 05/31] fix: Baraha to Tamil printed the user's text on
 standard output

---
 aksharamukha/PreProcess.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 0e529fc..5a88ff5 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1340,7 +1340,6 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
 
         if Target == 'Tamil':
             Strng = Strng.replace('n', 'nx').replace('~nx', 'n')
-            print(Strng)
 
     if 'IAST' in Source:
         Strng = Strng.replace("aï", "a_i")
-- 
2.43.0


From e95de99853c7027d23f8ad16c7ae41ba77bbdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 06/31] fix: RemoveDiacritics for Tamil left a used-up iterator
 in place of the post-options, so later options were ignored

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 400eb15..b8dc33b 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -516,7 +516,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
 
     if 'RemoveDiacritics' in postoptions:
       if tgt == 'Tamil':
-        postoptions = map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions)
+        postoptions = list(map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions))
 
     for options in postoptions:
       transliteration = getattr(PostProcess, options)(transliteration)
-- 
2.43.0


From 5215e5c06c859aeaf38626dca10cfc814978c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 07/31] fix: autodetect with script or language codes never
 detected pre-options

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index b8dc33b..d7c8a57 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -701,7 +701,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
 
     if src_tag == 'autodetect':
         src = [(0, auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -826,7 +826,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
     if src_tag == 'autodetect':
         src = [(0,auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
-- 
2.43.0


From 582db258b7746893c46e4c185010d5e520c58f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 08/31] fix: docx conversion passed pre- and post-options in
 each other's place

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1e5e978..e237329 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -100,8 +100,8 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
                                        data['target'],
                                        element.text,
                                        data['nativize'],
-                                       data['post_options'],
-                                       data['pre_options'])
+                                       data['pre_options'],
+                                       data['post_options'])
 
         string = etree.tostring(tree.getroot(),
                                 xml_declaration=True,
-- 
2.43.0


From 51c1fb51d3dfd76c297b926bea5507010d0d5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 09/31] fix: autodetect with language names passed a script
 name where a language code is expected and always raised

---
 aksharamukha/transliterate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index d7c8a57..198349e 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -851,8 +851,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
 def process_lang_name(src_name, tgt_name, txt, nativize, post_options, pre_options):
     if src_name == 'autodetect':
-        src = auto_detect(txt)
-        pre_options = detect_preoptions(txt, src)
+        src = 'autodetect'
     else:
         src = str(langcodes.find(src_name))
 
-- 
2.43.0


From c7557a89a4cd070b358c421e97ed9c20a8446b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 10/31] fix: script detection raised IndexError on a text
 without any named character

---
 aksharamukha/gimeltra.py      | 2 +-
 aksharamukha/transliterate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/gimeltra.py b/aksharamukha/gimeltra.py
index a0a66f6..27a1977 100644
--- a/aksharamukha/gimeltra.py
+++ b/aksharamukha/gimeltra.py
@@ -30,7 +30,7 @@ class Transliterator(object):
 
     def auto_script(self, text):
         sc_count = Counter([ucd.script(c) for c in text])
-        sc = sc_count.most_common(1)[0][0]
+        sc = sc_count.most_common(1)[0][0] if sc_count else ''
         if not sc:
             sc = 'Zyyy'
         return sc
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 198349e..5279145 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -77,7 +77,7 @@ def auto_detect(text, plugin = False):
         else:
             script = ''
 
-    inputScript = script[0].upper() + script[1:]
+    inputScript = script[:1].upper() + script[1:]
 
     laoPali = ['ຆ', 'ຉ', 'ຌ', 'ຎ', 'ຏ', 'ຐ', 'ຑ', 'ຒ', 'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']
 
-- 
2.43.0


From a7ba089a008e5069d35ea64b7243746521843873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 11/31] fix: plugin-mode script detection raised IndexError on
 a text that is all Latin

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 5279145..616694b 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -70,7 +70,7 @@ def auto_detect(text, plugin = False):
     else:
         #print('here')
         if len(script_percent) > 0:
-            if sorted(script_percent)[-1][1] == 'latin':
+            if len(script_percent) > 1 and sorted(script_percent)[-1][1] == 'latin':
                 script = sorted(script_percent)[-2][1]
             else:
                 script = sorted(script_percent)[-1][1]
-- 
2.43.0


From d65985d3bcb1efa1ff911765b0c2998ea5b5996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 12/31] fix: Burmese script detection used an unset name (or
 the previous character's) for a character without a name

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 616694b..8c591a8 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -104,7 +104,7 @@ def auto_detect(text, plugin = False):
             try:
                 char = unicodedata.name(uchar).lower()
             except:
-                pass
+                char = ''
             if 'shan' in char:
                 countSub['Shan'] += 1
             elif 'tai laing' in char:
-- 
2.43.0


From 372f70256d4c878fb4ad6b68a4acf627b804fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 13/31] fix: docx conversion raised on an empty text run

---
 aksharamukha/transliterate_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index e237329..8b5b856 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -95,7 +95,7 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
     with old_archive.open(item, 'r') as xml_file:
         tree = etree.parse(xml_file)
         for element in tree.getroot().iter():
-            if element.tag == MS_WORD_TEXT_SCHEMA:
+            if element.tag == MS_WORD_TEXT_SCHEMA and element.text:
                 element.text = convert(data['source'],
                                        data['target'],
                                        element.text,
-- 
2.43.0


From 396450c99e5fd7fe77da316b5f1251c70abbf5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 14/31] fix: PersianDMG as a source raised AttributeError for
 every target: its source functions did not exist

---
 aksharamukha/PostProcess.py | 5 +++++
 aksharamukha/PreProcess.py  | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 0e5799d..8136328 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -205,6 +205,11 @@ def HebrewSBLSource(Strng):
 
     return Strng
 
+#testcase todo
+def PersianDMGSource(Strng):
+
+    return Strng
+
 #testcase todo
 def PersianDMGSBLSource(Strng):
 
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 5a88ff5..a630dea 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1421,6 +1421,14 @@ def PersianDMGTarget(Strng):
 
     return Strng
 
+def PersianDMGSource(Strng):
+    replacements = [('ḏ', 'ẕ'), ('ḍ', 'ż'), ('ṯ', 's̱'), ('j', 'ǧ'), ('ˀ','ʼ')]
+
+    for x, y in replacements:
+        Strng = Strng.replace(y, x)
+
+    return Strng
+
 def ISO233Source(Strng):
     replacements = [('أ', 'ˈʾ'), ('ء', '¦'), ('إ', 'ˌʾ')]
 
-- 
2.43.0


From 321ae21d01263681546be4b57fb200c0e1e31f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 15/31] fix: Batak from and to LoC romanization raised: no such
 romanization exists, so fall back to ISO as for other scripts

---
 aksharamukha/GeneralMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index bc19824..895405b 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -215,7 +215,7 @@ romanNumeralScripts = ['Tamil', 'Gurmukhi', 'Malayalam', 'Telugu']
 romanPunctscripts = ['Tamil', 'Kannada', 'Malayalam', 'Telugu', 'Gujarati']
 
 ## List of supported LoC scripts
-LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'BatakKaro', 'BatakManda','BatakPakpak','BatakSima','BatakToba','Gurmukhi', 'Tibetan', 'Limbu']
+LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'Gurmukhi', 'Tibetan', 'Limbu']
 
 #Modified Src Input Map for LoC script
 #speicalpostpre process
-- 
2.43.0


From 7a492f403cbe1dcc7a36c846099cd7fa3b04d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 16/31] =?UTF-8?q?fix:=20the=20Latin=20letter=20=C5=8D=20in?=
 =?UTF-8?q?=20a=20Semitic=20or=20Japanese=20text=20was=20not=20kept:=20its?=
 =?UTF-8?q?=20entry=20was=20fused=20with=20the=20following=20capital=20A?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index a630dea..260e989 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -734,7 +734,7 @@ def MalayalamTranscribe(Strng):
 def retainLatin(Strng, reverse=False):
     latn_basic_lower = 'a b c d e f g h i j k l m n o p q r s t u v w x y z ḥ ṭ ṣ ʾ ʿ š ā ī ū ē ō'
     latn_basic_upper = latn_basic_lower.upper()
-    latn_all = latn_basic_lower + latn_basic_upper
+    latn_all = latn_basic_lower + ' ' + latn_basic_upper
     latn_all = latn_all.split(' ')
 
     if not reverse:
-- 
2.43.0


From cded0117570393ac89e2416d57440dc8520e46ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:49 +0000
Subject: [PATCH 17/31] fix: indicDandas from, and romanFullStop and the
 numeral options to, a Semitic or Japanese script raised IndexError or logged
 a traceback

---
 aksharamukha/PostProcess.py   | 6 ++++++
 aksharamukha/transliterate.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 8136328..7a45a7d 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2891,6 +2891,9 @@ def tbadiff(Strng,Target):
     return Strng
 
 def RetainDandasIndic(Strng, Target, reverse=False):
+    if GM.ScriptPath(Target) is None: # no sign table
+        return Strng
+
     Dandas = GM.CrunchList('SignMap', Target)[1:3]
 
     if not reverse:
@@ -2903,6 +2906,9 @@ def RetainDandasIndic(Strng, Target, reverse=False):
     return Strng
 
 def RetainIndicNumerals(Strng,Target, reverse=False):
+    if GM.ScriptPath(Target) is None: # no numeral table
+        return Strng
+
     NativeNumerals = GM.CrunchList('NumeralMap', Target)
     ArabicNumerals = GM.CrunchList('NumeralMap', 'ISO')
 
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 8c591a8..56eb21a 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -408,7 +408,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     if 'indicDandas' in postoptions:
         if src in GeneralMap.pipeScripts and '|' in txt:
             txt = PreProcess.RetainPipeDanda(txt, src)
-        elif GeneralMap.CrunchList('SignMap', src)[1] == '।':
+        elif GeneralMap.ScriptPath(src) is not None and GeneralMap.CrunchList('SignMap', src)[1] == '।':
             preoptions = preoptions + ['RetainDevangariDanda']
         else:
             if tgt not in GeneralMap.Transliteration:
-- 
2.43.0


From d0c7d3c6da914f6f824bbf4d3bed0ca92b18c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 18/31] fix: in Velthuis any three characters between o and m
 as a word were taken for Om: its dot was used as a pattern

---
 aksharamukha/Convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 9a1cf43..83ba40f 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -78,7 +78,7 @@ def convertScript(Strng,Source,Target):
         punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
                     + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
 
-        sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
+        sOm, tOm = re.escape(GM.CrunchList('OmMap', Source)[0]),GM.CrunchList('OmMap', Target)[0]
 
         Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
-- 
2.43.0


From 772e63e7d2f8cb9998faaa9ba2e0c90db2f8b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 19/31] fix: return the text for an empty or Ignore target, and
 for the same ISO scheme, before going through Hebrew or Arabic

---
 aksharamukha/transliterate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 56eb21a..d1bb50d 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -225,6 +225,12 @@ def detect_preoptions(text, inputScript):
 def convert(src, tgt, txt, nativize, preoptions, postoptions):
     tgtOld = ""
 
+    ## nothing to convert, before the schemes that go through another script do it
+    if tgt == "" or tgt == "Ignore":
+        return txt
+    if preoptions == [] and postoptions == [] and nativize == False and src == tgt:
+        return txt
+
     ## ALA-LC Romanizations
     ## process as follows, if source is associated with LoC script
     if tgt == 'RomanLoC' and src in GeneralMap.LoCScripts:
@@ -330,8 +336,6 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
 
         txt = json.dumps(textNew).replace("\\n", "\n")'''
 
-    if tgt == "" or tgt == "Ignore":
-        return txt
     if preoptions == [] and postoptions == [] and nativize == False and src == tgt:
         return txt
 
-- 
2.43.0


From 45c1d0ae60d0e61b1134e705862b4bad06ea36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 20/31] fix: find the language codes that stand after a comma
 and a blank in the list of a script

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index d1bb50d..ebc12b4 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -648,7 +648,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
         # get the popuation of each language of the script
         if 'lang' in data_loaded[scrpt].keys():
             lang_tag = data_loaded[scrpt]['lang'].split(',')[0]
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             population = 0
             lang = ''
@@ -745,7 +745,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
     # iterate through the yaml file
     for scrpt in data_loaded.keys():
         if 'lang' in data_loaded[scrpt].keys():
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             lang = ''
 
-- 
2.43.0


From 7d7d9e5c20ba07e34c3904a231080a778821154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 21/31] fix: Gunjala Gondi, Masaram Gondi and Hanifi Rohingya
 texts were detected as Gong, Gonm and Rohg, which no conversion knows

---
 aksharamukha/transliterate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index ebc12b4..2f2ff99 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -147,6 +147,12 @@ def auto_detect(text, plugin = False):
         inputScript = 'RussianCyrillic'
     elif inputScript == 'Zanabazar':
         inputScript = 'ZanabazarSquare'
+    elif inputScript == 'Gunjala':
+        inputScript = 'GunjalaGondi'
+    elif inputScript == 'Masaram':
+        inputScript = 'MasaramGondi'
+    elif inputScript == 'Hanifi':
+        inputScript = 'HanifiRohingya'
     elif inputScript == 'Syriac':
         inputScript = 'Syre'
         eastern_dia = 'ܲ ܵ ܝܼ ܘܼ ܸ ܹ ܘܿ'.split(' ')
-- 
2.43.0


From 6201e296a7208778386a2ae9248881fa3e874e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 22/31] =?UTF-8?q?fix:=20script=20detection=20counted=20bla?=
 =?UTF-8?q?nks,=20digits=20and=20punctuation=20as=20scripts,=20so=20that?=
 =?UTF-8?q?=20short=20lines=20such=20as=20'1.=20=E0=A4=85'=20were=20not=20?=
 =?UTF-8?q?detected?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/transliterate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 2f2ff99..d91244e 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -42,7 +42,10 @@ def unique_everseen(iterable, key=None):
 def auto_detect(text, plugin = False):
     scripts = []
 
-    for uchar in text:
+    ## blanks, punctuation and digits are not counted, unless there is nothing else
+    letters = [uchar for uchar in text if unicodedata.category(uchar)[0] in 'LM']
+
+    for uchar in letters or text:
         try:
             script_name = unicodedata.name(uchar).split(' ')[0].lower()
             if script_name != 'old':
-- 
2.43.0


From 9aa290e22da4c45bf0ea2dfb61c70d5f32588256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 23/31] fix: detection of Semitic and other scripts by their
 code counted blanks, digits and punctuation

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index d91244e..56816c3 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -200,7 +200,7 @@ def auto_detect(text, plugin = False):
     else:
         from . import gimeltra
         tr = gimeltra.Transliterator()
-        inputScript = tr.auto_script(text)
+        inputScript = tr.auto_script(letters or text)
 
     return inputScript
 
-- 
2.43.0


From 5cd9369c7317e5dfdaf2f3145a1ad231d75436d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 24/31] fix: HTML conversion transliterated scripts, style
 sheets, comments and the document type, and turned the last two into visible
 text

---
 aksharamukha/transliterate_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 8b5b856..1c52008 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -4,6 +4,7 @@ import os
 from lxml import etree
 from zipfile import ZipFile
 from bs4 import BeautifulSoup
+from bs4.element import PreformattedString, Script, Stylesheet
 import warnings
 
 MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}t"
@@ -43,6 +44,10 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     soup = BeautifulSoup(html)
 
     for node in soup.findAll(text=True):
+        ## the document type, comments, scripts and style sheets are not text
+        if isinstance(node, (PreformattedString, Script, Stylesheet)):
+            continue
+
         new_node = node.replace(node.string, convert(src, tgt, node.string, nativize, pre_options, post_options))
         node.replace_with(new_node)
 
-- 
2.43.0


From c1df21586f01c1829bc56ce70c52d0817d55d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 25/31] fix: HTML conversion put blanks into words parts of
 which are marked up

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1c52008..48dfe24 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -52,13 +52,13 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
         node.replace_with(new_node)
 
     if is_api_mode:
-        return soup.prettify()
+        return str(soup)
     else:
         file_parts = os.path.splitext(file)
         new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
         with open(new_file, 'w', encoding='utf8') as f:
-            f.write(soup.prettify())
+            f.write(str(soup))
 
         print('The following file has been created: ' + new_file)
 
-- 
2.43.0


From a1699afa422bc1ca6caec83ac3afca67d8e2366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 26/31] fix: conversion of a text file changed its line breaks

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 48dfe24..c7d181b 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -23,13 +23,13 @@ def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_a
         warnings.warn('Not a file. Please pass a file as an argument')
 
 def convert_txt(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
-    with open(file, 'r', encoding='utf8') as f:
+    with open(file, 'r', encoding='utf8', newline='') as f:
         txt = f.read()
 
     file_parts = os.path.splitext(file)
     new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
-    with open(new_file, 'w', encoding='utf8') as f:
+    with open(new_file, 'w', encoding='utf8', newline='') as f:
         f.write(convert(src, tgt, txt, nativize, pre_options, post_options))
 
     print('The following file has been created: ' + new_file)
-- 
2.43.0


From f1e3fec08c423b5a2512ea7eb697515290b34ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 27/31] fix: the kind of a file was told by its whole path, so
 that notes.txt.docx or a document in a folder my.txt was read as plain text

---
 aksharamukha/transliterate_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index c7d181b..535c95c 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -11,11 +11,13 @@ MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/
 
 def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
     if os.path.isfile(file):
-        if '.txt' in file:
+        extension = os.path.splitext(file)[1]
+
+        if extension.startswith('.txt'):
             convert_txt(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.docx' in file:
+        elif extension.startswith('.docx'):
             convert_docx(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.htm' in file:
+        elif extension.startswith('.htm'):
             convert_html(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
         else:
             warnings.warn('Only .txt, .html, .docx formats are supported for file conversion. Input file not processed.')
-- 
2.43.0


From 14129c35ed06540e0fe4d9be97869af77adaa049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 28/31] fix: the option UrduAlternateUU looked for a backslash
 and the letter u, and so never did anything

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 7a45a7d..7cf53e6 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -3101,7 +3101,7 @@ def SinhalaPali(Strng, reverse = False):
     return Strng
 
 def UrduAlternateUU(Strng):
-    Strng = Strng.replace("\\u064F\\u0648","\u0648\u0657")
+    Strng = Strng.replace("\u064F\u0648","\u0648\u0657")
 
     return Strng
 
-- 
2.43.0


From aeeedb611db07f7557dde6673c4329ab0d18a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 29/31] fix: conversion from Warang Citi put all other letters
 of the text into small letters too

---
 aksharamukha/ConvertFix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index e6e4b2a..f55a5dd 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2507,7 +2507,8 @@ def FixWarangCiti(Strng, reverse = False):
         Strng = Strng.replace("\u02BF", "")
 
     else:
-        Strng = Strng.lower()
+        ## only the capitals of Warang Citi itself
+        Strng = re.sub('[\U000118A0-\U000118BF]', lambda m: m.group().lower(), Strng)
         ## Replace hb -> vQ
         Strng = Strng.replace("𑣙𑣗", "𑣟\u02BF") # Introduce Warang Citi Nukta
         Strng = Strng.replace('\u00D7', '\u200D')
-- 
2.43.0


From d0618195c33ca2fcf9875316632ddf291212e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 30/31] fix: from Mongolian, Santali, Avestan and other
 alphabets to a Semitic script, Latin letters of the text were converted too

---
 aksharamukha/GeneralMap.py    | 4 ++++
 aksharamukha/PreProcess.py    | 5 +++--
 aksharamukha/transliterate.py | 4 ++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index 895405b..b940784 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -188,6 +188,10 @@ IndicScripts = [
 
 SiddhamRanjana = ['Ranjana']
 
+## The alphabets among LatinScripts that are not written in Latin letters
+
+NonLatinAlphabets = ['Avestan', 'HanifiRohingya', 'Mongolian', 'Mro', 'Santali', 'SoraSompeng', 'Wancho', 'WarangCiti']
+
 LatinScripts = [#'BatakLoCRomanLoC', 'BatakKaroRomanLoC', 'BatakMandaRomanLoC','BatakPakpakRomanLoC','BatakSimaRomanLoC','BatakTobaRomanLoC', 'GurmukhiRomanLoC' \
                 'GurmukhiLoCRomanLoC', 'TibetanLoCRomanLoC', 'LimbuLoCRomanLoC', 'BalineseSimpleRomanLoC', 'BalineseRomanLoC', 'JavaneseSimpleRomanLoC', 'JavaneseRomanLoC', 'KannadaRomanLoC', 'TeluguRomanLoC', 'SinhalaRomanLoC', 'OriyaRomanLoC', 'AssameseRomanLoC', 'BengaliRomanLoC', 'GujaratiRomanLoC', 'DevanagariRomanLoC', 'ThamLoCRomanLoC', 'KhmerLoCRomanLoC', 'RomanLoC', 'ShanLoCRomanLoC', 'BurmeseRomanLoC', 'RomanColloquial', 'ISOPali', 'RomanKana', 'BarahaNorth', 'BarahaSouth', 'Mongolian', 'SLP1', 'Wancho', 'Mro', 'IASTPali', 'HanifiRohingya','Ariyaka', 'RomanReadable', 'Aksharaa', 'WarangCiti', 'SoraSompeng','WX-kok','Avestan','ISO','IAST','HK','Titus','Itrans','Velthuis','WX','Inter','IPA','TolongSiki','Santali','RussianCyrillic']
 
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 260e989..c0beaad 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -731,7 +731,7 @@ def MalayalamTranscribe(Strng):
 
     return Strng
 
-def retainLatin(Strng, reverse=False):
+def retainLatin(Strng, reverse=False, exclude=''):
     latn_basic_lower = 'a b c d e f g h i j k l m n o p q r s t u v w x y z ḥ ṭ ṣ ʾ ʿ š ā ī ū ē ō'
     latn_basic_upper = latn_basic_lower.upper()
     latn_all = latn_basic_lower + ' ' + latn_basic_upper
@@ -739,7 +739,8 @@ def retainLatin(Strng, reverse=False):
 
     if not reverse:
         for i, c in enumerate(latn_all):
-            Strng = Strng.replace(c, chr(60929+i))
+            if c not in exclude:
+                Strng = Strng.replace(c, chr(60929+i))
 
         # for disambiguating preprocessed consonants
         Strng = Strng.replace('\uEA01', 'r').replace('\uEA02', 'ʿ').replace('\uEA03', 'm').replace('\uEA04', 'q').replace('\uEA05', 'w').replace('\uEA06', 'd')
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 56816c3..862b14e 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -479,6 +479,10 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
             (src in ['Hiragana', 'Katakana']):
         txt = PreProcess.retainLatin(txt)
 
+    # these write ayin and hamza with the modifier letters
+    if src in GeneralMap.NonLatinAlphabets and tgt in GeneralMap.SemiticScripts:
+        txt = PreProcess.retainLatin(txt, exclude='ʾʿ')
+
     if src == 'Hiragana' or src == 'Katakana':
         txt = PreProcess.JapanesePreProcess(src, txt, preoptions)
         srcOld = 'Japanese'
-- 
2.43.0


From 0a6994a6bf1cf318173e11a9fd01a61336e680bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 31/31] fix: repha and final rules of Kawi, Balinese, Javanese
 and Khmer took exponential time on a long stack of letters

The letter lists hold some letters twice, so that a stack of such letters
could be matched in 2^n ways; KawiMoveRepha took minutes on sixteen.
---
 aksharamukha/PostProcess.py | 2 +-
 aksharamukha/PreProcess.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 7cf53e6..b97432a 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -1859,7 +1859,7 @@ def KawiMoveRepha(Strng):
     tgt = 'Kawi'
     repha = '\U00011F02'
 
-    cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants + GM.Vowels, tgt)) + ')'
+    cons = '(' + '|'.join(dict.fromkeys(GM.CrunchSymbols(GM.Consonants + GM.Vowels, tgt))) + ')'
     vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
     vir = '\U00011F42'
 
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index c0beaad..256bfe5 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -95,7 +95,7 @@ def TibetanLoCRomanLoCFix(Strng):
 def BalineseJavaneseMoveRepha(Strng, tgt, reph):
     repha = '(' + reph + ')'
 
-    cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants, tgt)) + ')'
+    cons = '(' + '|'.join(dict.fromkeys(GM.CrunchSymbols(GM.Consonants, tgt))) + ')'
     vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
     vir = GM.CrunchSymbols(GM.virama, tgt)[0]
 
@@ -1081,7 +1081,7 @@ def RemoveFinal(Strng, Target):
         Cons2 = '(()?' + Cons + ')'
 
     if Target == 'Khmer' or Target == 'KhmerLoC':
-        ListC ='|'.join(GM.CrunchSymbols(sorted(GM.Consonants, key=len, reverse=True),Target))
+        ListC ='|'.join(dict.fromkeys(GM.CrunchSymbols(sorted(GM.Consonants, key=len, reverse=True),Target)))
         ra = Khmer.ConsonantMap[26]
         Strng = re.sub('('+ListC+')'+'\u17CC',ra+'\u17D2'+r'\1',Strng)
 
-- 
2.43.0

