From ff5379fb58643a731c2637bf353b56fb74de53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 01/55] fix: DFXP second fractions longer than three digits
 were scaled wrongly

---
 pycaption/dfxp/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index bef0586..93422e8 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -189,8 +189,9 @@ class DFXPReader(BaseReader):
         microseconds += int(clock_time_match.group('seconds')) * \
                         MICROSECONDS_PER_UNIT["seconds"]
         if clock_time_match.group('sub_frames'):
-            microseconds += int(clock_time_match.group('sub_frames').ljust(
-                3, '0')) * MICROSECONDS_PER_UNIT["milliseconds"]
+            # decimal digits of a second, kept up to microsecond resolution
+            microseconds += int(
+                clock_time_match.group('sub_frames')[:6].ljust(6, '0'))
         elif clock_time_match.group('frames'):
             microseconds += int(clock_time_match.group('frames')) / 30 * \
                             MICROSECONDS_PER_UNIT["seconds"]
-- 
2.43.0


From 07e79dc5edda0fd21fd70ca44db13b816c923c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 02/55] fix: DFXP offset times lost a microsecond to float
 rounding

---
 pycaption/dfxp/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 93422e8..f23897d 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup, NavigableString
@@ -199,7 +200,8 @@ class DFXPReader(BaseReader):
 
     @staticmethod
     def _convert_time_count_to_microseconds(time_count_match):
-        value = float(time_count_match.group('time_count'))
+        # exact arithmetic: float rounding could lose a microsecond
+        value = Fraction(time_count_match.group('time_count'))
         metric = time_count_match.group("metric")
         if metric == "h":
             microseconds = value * MICROSECONDS_PER_UNIT["hours"]
-- 
2.43.0


From 4c7ae2f054a23dee19fd0c6a1557301eac4e2603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 03/55] fix: MicroDVD frame times lost a microsecond to float
 rounding

---
 pycaption/microdvd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index 6c31ca1..1691e76 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -67,7 +68,8 @@ class MicroDVDReader(BaseReader):
         return caption_set
 
     def _framestomicro(self, framenum, fps=25.0):
-        return int(framenum / fps * (10 ** 6))
+        # exact arithmetic: float rounding could lose a microsecond
+        return int(framenum * (10 ** 6) / Fraction(str(fps)))
 
 
 class MicroDVDWriter(BaseWriter):
-- 
2.43.0


From 965a5f060b593038ef30f1269950cdade3e3b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 04/55] fix: SAMI stylesheets with comments or at-rules could
 not be read

---
 pycaption/sami.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index b310bbc..9c4f87e 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -768,6 +768,9 @@ class SAMIParser(HTMLParser):
         style_sheet = {}
 
         for rule in sheet:
+            # comments and at-rules have no selector
+            if rule.type != rule.STYLE_RULE:
+                continue
             new_style = {}
             selector = rule.selectorText.lower()
             if selector[0] in ['#', '.']:
-- 
2.43.0


From 76af1e5c4f7dca25adc7685e9da5296582fb68c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 05/55] fix: SAMI captions sharing the last sync were left
 without an end

---
 pycaption/sami.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 9c4f87e..33b7455 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -230,9 +230,11 @@ class SAMIReader(BaseReader):
                 caption = Caption(start, end, self.line, styles, caption_layout)
                 captions.append(caption)
 
-        if captions and captions[-1].end == 0:
+        for caption in reversed(captions):
+            if caption.end != 0:
+                break
             # Arbitrarily make this last 4 seconds. Not ideal...
-            captions[-1].end = (milliseconds + 4000) * 1000
+            caption.end = (milliseconds + 4000) * 1000
 
         return captions
 
-- 
2.43.0


From 783ad305f9344521888f01884a50a817cdc6bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:15 +0000
Subject: [PATCH 06/55] fix: WebVTT comment or cue id after a cue without text
 was read as its text

---
 pycaption/webvtt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index c3573b2..03141cc 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -92,8 +92,8 @@ class WebVTTReader(BaseReader):
                     raise type(e)(new_msg).with_traceback(tb) from None
 
             elif "" == line:
-                if found_timing and nodes:
-                    found_timing = False
+                found_timing = False
+                if nodes:
                     caption = Caption(start, end, nodes, layout_info=layout_info)
                     captions.append(caption)
                     nodes = []
-- 
2.43.0


From b95bbdfaaeb1a2e0963dd3963017aac00f8df75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:53 +0000
Subject: [PATCH 07/55] fix: DFXP divs of the same language overwrote each
 other's captions

---
 pycaption/dfxp/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index f23897d..6f54c96 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -103,11 +103,16 @@ class DFXPReader(BaseReader):
         default_language = dfxp_document.tt.attrs.get('xml:lang',
                                                       DEFAULT_LANGUAGE_CODE)
 
-        # Each div represents all the captions for a single language.
+        # Each div represents captions for a single language; several divs can
+        # have the same language.
         for div in dfxp_document.find_all('div'):
             lang = div.attrs.get('xml:lang', default_language)
 
-            caption_dict[lang] = self._convert_div_to_caption_list(div)
+            captions = self._convert_div_to_caption_list(div)
+            if lang in caption_dict:
+                caption_dict[lang].extend(captions)
+            else:
+                caption_dict[lang] = captions
 
         for style in dfxp_document.find_all('style'):
             id_ = style.attrs.get('xml:id') or style.attrs.get('id')
@@ -133,7 +138,9 @@ class DFXPReader(BaseReader):
     def _convert_div_to_caption_list(self, div):
         return CaptionList(
             [self._convert_p_tag_to_caption(p_tag)
-             for p_tag in div.find_all('p') if p_tag.get_text().strip()],
+             for p_tag in div.find_all('p')
+             # the captions of nested divs are read with those divs
+             if p_tag.find_parent('div') is div and p_tag.get_text().strip()],
             div.layout_info
         )
 
-- 
2.43.0


From 5676e45684bd3a59b292569d9383038b9767904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:22 +0000
Subject: [PATCH 08/55] fix: SAMI writer emitted non-integer sync starts for
 fractional times

---
 pycaption/sami.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 33b7455..d75e777 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -439,13 +439,13 @@ class SAMIWriter(BaseWriter):
 
         :rtype: BeautifulSoup
         """
-        time = caption.start // 1000
+        time = int(caption.start // 1000)
 
         if self.last_time and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-        self.last_time = caption.end // 1000
+        self.last_time = int(caption.end // 1000)
 
         sami, sync = self._recreate_sync(sami, lang, primary, time)
 
-- 
2.43.0


From 0042a16f1e4245b060bfa9c426b14235e3296fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:22 +0000
Subject: [PATCH 09/55] fix: SAMI writer omitted the blank sync of a cue ending
 at 0 ms

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index d75e777..bfb9a61 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -441,7 +441,7 @@ class SAMIWriter(BaseWriter):
         """
         time = int(caption.start // 1000)
 
-        if self.last_time and time != self.last_time:
+        if self.last_time is not None and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-- 
2.43.0


From dc44930769e38bb37313f69e8eec9076d8634da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:24 +0000
Subject: [PATCH 10/55] fix: SRT writer ended a cue early at consecutive line
 breaks

---
 pycaption/srt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 3351bad..ef8ae50 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -133,8 +133,10 @@ class SRTWriter(BaseWriter):
             for node in caption.nodes:
                 new_content = self._recreate_line(new_content, node)
 
-            # Eliminate excessive line breaks
-            new_content = new_content.strip()
+            # Eliminate excessive line breaks (a blank line would end the cue)
+            new_content = '\n'.join(
+                line for line in new_content.split('\n') if line.strip()
+            ).strip()
 
             srt += f"{new_content}\n\n"
             count += 1
-- 
2.43.0


From ad10ead2beeafa5f1fafb03d0eb2856cffc4f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:26 +0000
Subject: [PATCH 11/55] fix: WebVTT writer emitted an arrow spread over
 adjacent text nodes raw

---
 pycaption/webvtt.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 03141cc..d25ebd7 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -407,7 +407,8 @@ class WebVTTWriter(BaseWriter):
                 if s and current_layout and node.layout_info != current_layout:
                     # If the positioning changes from one text node to
                     # another, a new WebVTT cue has to be created.
-                    layout_groups.append((s, current_layout))
+                    layout_groups.append(
+                        (self._encode_arrows(s), current_layout))
                     s = ""
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
@@ -440,7 +441,7 @@ class WebVTTWriter(BaseWriter):
                 s += "\n"
 
         if s:
-            layout_groups.append((s, current_layout))
+            layout_groups.append((self._encode_arrows(s), current_layout))
         return layout_groups
 
     def _encode_illegal_characters(self, s):
@@ -453,10 +454,6 @@ class WebVTTWriter(BaseWriter):
         s = s.replace("&", "&amp;")
         s = s.replace("<", "&lt;")
 
-        # The substring "-->" is also not allowed according to this:
-        #   - http://dev.w3.org/html5/webvtt/#dfn-webvtt-cue-block
-        s = s.replace("-->", "--&gt;")
-
         # The following characters have escaping codes for some reason, but
         # they're not illegal, so for now I'll leave this commented out so that
         # we stay as close as possible to the specification and avoid doing
@@ -466,3 +463,12 @@ class WebVTTWriter(BaseWriter):
         # s = s.replace('\u200f', '&rlm;')
         # s = s.replace('\u00a0', '&nbsp;')
         return s
+
+    def _encode_arrows(self, s):
+        """
+        The substring "-->" is not allowed in a cue text either:
+            - http://dev.w3.org/html5/webvtt/#dfn-webvtt-cue-block
+        It may span several text nodes, so this works on the whole cue text.
+        :type s: str
+        """
+        return s.replace("-->", "--&gt;")
-- 
2.43.0


From 1a30348ae0abaabd9b9efc34017f43e6cd53b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:12 +0000
Subject: [PATCH 12/55] fix: WebVTT reader stripped unknown tags and missed
 voice tags with a tab or a hyphenated class

---
 pycaption/webvtt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index d25ebd7..f776487 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -17,9 +17,9 @@ from .geometry import HorizontalAlignmentEnum, Layout
 # The following pattern captures [start], [end] and [cue settings] if existent
 TIMING_LINE_PATTERN = re.compile(r"^(\S+)\s+-->\s+(\S+)(?:\s+(.*?))?\s*$")
 TIMESTAMP_PATTERN = re.compile(r"^(\d+):(\d{2})(:\d{2})?\.(\d{3})")
-VOICE_SPAN_PATTERN = re.compile("<v(\\.\\w+)* ([^>]*)>")
+VOICE_SPAN_PATTERN = re.compile(r"<v(\.[^\s.>]+)*[ \t]+([^>]*)>")
 OTHER_SPAN_PATTERN = re.compile(
-    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3})).*?>"
+    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3}))(?:[.\s][^>]*)?>"
 )  # These WebVTT tags are stripped off the cues on conversion
 
 WEBVTT_VERSION_OF = {
-- 
2.43.0


From 3bc6c91f522fd0fad29e4c5767a0e436b4adc589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:14 +0000
Subject: [PATCH 13/55] fix: WebVTT reader left numeric and HTML character
 references undecoded

---
 pycaption/webvtt.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index f776487..2f57ee0 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -1,4 +1,5 @@
 import datetime
+import html
 import re
 import sys
 from copy import deepcopy
@@ -180,15 +181,9 @@ class WebVTTReader(BaseReader):
         # TODO: Add support for other WebVTT tags. For now just strip them
         # off the text.
         s = OTHER_SPAN_PATTERN.sub("", s)
-        # Replace WebVTT special XML codes with plain unicode values
-        s = s.replace("&lt;", "<")
-        s = s.replace("&gt;", ">")
-        s = s.replace("&lrm;", "\u200e")
-        s = s.replace("&rlm;", "\u200f")
-        s = s.replace("&nbsp;", "\u00a0")
-        # Must do ampersand last
-        s = s.replace("&amp;", "&")
-        return s
+        # Replace the character references (named or numeric, as in HTML) with
+        # plain unicode values, each of them exactly once
+        return html.unescape(s)
 
 
 class WebVTTWriter(BaseWriter):
-- 
2.43.0


From bac9a913bd2488f2d6c550c628eab5771f0a0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:53 +0000
Subject: [PATCH 14/55] fix: SAMI reader decoded character references twice

---
 pycaption/sami.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index bfb9a61..d9b5d5f 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -701,26 +701,25 @@ class SAMIParser(HTMLParser):
             closing_tag = self.queue.pop()
             self.sami += f"</{closing_tag}>"
 
+    # The markup put together here is parsed again, so the text decoded has to
+    # be escaped: otherwise character references would be decoded twice
     def handle_entityref(self, name):
-        if name in ['gt', 'lt']:
-            self.sami += f'&{name};'
-        else:
-            try:
-                self.sami += chr(self.name2codepoint[name])
-            except (KeyError, ValueError):
-                self.sami += f'&{name}'
+        try:
+            self.sami += escape(chr(self.name2codepoint[name]))
+        except (KeyError, ValueError):
+            self.sami += escape(f'&{name}')
 
         self.last_element = ''
 
     def handle_charref(self, name):
-        if name[0] == 'x':
-            self.sami += chr(int(name[1:], 16))
+        if name[0] in 'xX':
+            self.sami += escape(chr(int(name[1:], 16)))
         else:
-            self.sami += chr(int(name))
+            self.sami += escape(chr(int(name)))
 
     # override the parser's handling of data
     def handle_data(self, data):
-        self.sami += data
+        self.sami += escape(data)
         self.last_element = ''
 
     # override the parser's feed function
-- 
2.43.0


From 93f721e29238b0952dd348d94152ce60c3575478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:55 +0000
Subject: [PATCH 15/55] fix: SAMI reader dropped a semicolon before a
 greater-than sign in text

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index d9b5d5f..f1e2e7a 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -749,7 +749,7 @@ class SAMIParser(HTMLParser):
         data = data.replace('<i/>', '<i>')
 
         # fix awkward tags found in some SAMIs
-        data = data.replace(';>', '>')
+        data = re.sub('(<[^<>]*);>', r'\1>', data)
         HTMLParser.feed(self, data)
 
         # close any tags that remain in the queue
-- 
2.43.0


From caf23b7972106694f07add63dbafb00fe8fc2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:04 +0000
Subject: [PATCH 16/55] fix: DFXP reader returned comments as caption text

---
 pycaption/dfxp/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 6f54c96..d386cf8 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -3,7 +3,8 @@ from copy import deepcopy
 from fractions import Fraction
 from xml.sax.saxutils import escape
 
-from bs4 import BeautifulSoup, NavigableString
+from bs4 import BeautifulSoup, CData, NavigableString
+from bs4.element import PreformattedString
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -226,6 +227,10 @@ class DFXPReader(BaseReader):
         return int(microseconds)
 
     def _convert_tag_to_node(self, tag):
+        # comments and processing instructions are not text
+        if (isinstance(tag, PreformattedString)
+                and not isinstance(tag, CData)):
+            return
         # convert text
         if isinstance(tag, NavigableString):
             # strips indentation whitespace only
-- 
2.43.0


From 7cda648ccc1f8628967b326f9019f43403a6a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:25 +0000
Subject: [PATCH 17/55] fix: DFXP and SAMI readers lost the text after a source
 line break

---
 pycaption/dfxp/base.py | 29 ++++++++++-----------
 pycaption/sami.py      | 10 +++-----
 pycaption/utils.py     | 57 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 75 insertions(+), 21 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index d386cf8..03983aa 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -18,7 +18,7 @@ from ..geometry import (
     Point, Stretch, UnitEnum, Padding, VerticalAlignmentEnum,
     HorizontalAlignmentEnum, Alignment, Layout,
 )
-from ..utils import is_leaf
+from ..utils import is_leaf, unwrap_lines
 
 __all__ = [
     'DFXP_BASE_MARKUP', 'DFXP_DEFAULT_STYLE', 'DFXP_DEFAULT_STYLE_ID',
@@ -149,6 +149,7 @@ class DFXPReader(BaseReader):
         start, end = self._find_and_convert_times(p_tag)
         self.nodes = []
         self._convert_tag_to_node(p_tag)
+        self.nodes = unwrap_lines(self.nodes)
         styles = self._convert_style(p_tag)
 
         if len(self.nodes) > 0:
@@ -233,19 +234,19 @@ class DFXPReader(BaseReader):
             return
         # convert text
         if isinstance(tag, NavigableString):
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if result:
-                # Escaping/unescaping xml entities is the responsibility of the
-                # xml parser used by BeautifulSoup in its initialization. The
-                # content of the tag variable at this point should be a plain
-                # unicode string with xml entities already converted to unicode
-                # characters.
-                tag_text = result.groups()[0]
-                node = CaptionNode.create_text(
-                    tag_text, layout_info=tag.layout_info)
-                self.nodes.append(node)
+            # Escaping/unescaping xml entities is the responsibility of the
+            # xml parser used by BeautifulSoup in its initialization. The
+            # content of the tag variable at this point should be a plain
+            # unicode string with xml entities already converted to unicode
+            # characters.
+            tag_text = str(tag)
+            if (tag_text.strip() and tag.parent.name == 'span'
+                    and tag.next_sibling is None):
+                # the end tag may be indented
+                tag_text = re.sub(r'[\r\n]\s*$', '', tag_text)
+            node = CaptionNode.create_text(
+                tag_text, layout_info=tag.layout_info)
+            self.nodes.append(node)
         # convert line breaks
         elif tag.name == 'br':
             self.nodes.append(
diff --git a/pycaption/sami.py b/pycaption/sami.py
index f1e2e7a..f06fd3b 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -56,6 +56,7 @@ from .exceptions import (
     CaptionReadTimingError
 )
 from .geometry import Layout, Alignment, Padding, Size
+from .utils import unwrap_lines
 
 # change cssutils default logging
 log.setLevel(FATAL)
@@ -216,6 +217,7 @@ class SAMIReader(BaseReader):
                 self.line = []
 
                 self._translate_tag(p, layout_info)
+                self.line = unwrap_lines(self.line)
                 caption_layout = self._get_layout_class()(
                     alignment=self.first_alignment,
                     inherit_from=layout_info
@@ -256,13 +258,7 @@ class SAMIReader(BaseReader):
             # BeautifulSoup apparently handles unescaping character codes
             # (e.g. &amp;) automatically. The following variable, therefore,
             # should contain a plain unicode string.
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if not result:
-                return
-            tag_text = result.groups()[0]
-            self.line.append(CaptionNode.create_text(tag_text, inherit_from))
+            self.line.append(CaptionNode.create_text(str(tag), inherit_from))
         # convert line breaks
         elif tag.name == 'br':
             self.line.append(CaptionNode.create_break(inherit_from))
diff --git a/pycaption/utils.py b/pycaption/utils.py
index e8ff6fb..ca32e7b 100644
--- a/pycaption/utils.py
+++ b/pycaption/utils.py
@@ -1,3 +1,6 @@
+import re
+
+
 def is_leaf(element):
     """
     Return True if the element is a leaf, False otherwise. The element is
@@ -8,3 +11,57 @@ def is_leaf(element):
     if not name or name == 'br':
         return True
     return False
+
+
+def unwrap_lines(nodes):
+    """
+    Replace the source line breaks in the text nodes of a caption, together
+    with the indentation around them, by a space. They are removed where that
+    space would be at the start or at the end of a caption line, next to other
+    white space or between two texts with different layouts. Text nodes which
+    are left empty are removed too.
+
+    :param nodes: The list of CaptionNodes of one caption
+    :return: The list of the remaining nodes
+    """
+    wrap = '\n'
+    for node in nodes:
+        if node.type_ == node.TEXT:
+            node.content = re.sub(r'[ \t\r\n]*[\r\n][ \t\r\n]*', wrap,
+                                  node.content)
+
+    neighbour = None
+    for node in nodes:
+        if node.type_ == node.BREAK:
+            neighbour = None
+        elif node.type_ == node.TEXT:
+            if _is_separated(neighbour, node, -1):
+                node.content = node.content.lstrip(wrap)
+            if node.content:
+                neighbour = node
+
+    neighbour = None
+    for node in reversed(nodes):
+        if node.type_ == node.BREAK:
+            neighbour = None
+        elif node.type_ == node.TEXT:
+            if _is_separated(neighbour, node, 0):
+                node.content = node.content.rstrip(wrap)
+            if node.content:
+                neighbour = node
+
+    for node in nodes:
+        if node.type_ == node.TEXT:
+            node.content = node.content.replace(wrap, ' ')
+
+    return [node for node in nodes if node.type_ != node.TEXT or node.content]
+
+
+def _is_separated(neighbour, node, edge):
+    """
+    :param neighbour: The text node next to the node on its line, or None
+    :param edge: The index of the neighbour's character next to the node
+    """
+    return (neighbour is None
+            or neighbour.content[edge].isspace()
+            or neighbour.layout_info != node.layout_info)
-- 
2.43.0


From fd5ab82da4c95a94679460425067abc693a11ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:27 +0000
Subject: [PATCH 18/55] fix: SAMI reader put attribute values together
 unescaped

---
 pycaption/sami.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index f06fd3b..106d120 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -679,6 +679,7 @@ class SAMIParser(HTMLParser):
             self.queue.append(tag)
             # add tag with attributes
             for attr, value in attrs:
+                value = escape(value or '', {'"': '&quot;'})
                 tag += f' {attr.lower()}="{value}"'
             self.sami += f"<{tag}>"
 
-- 
2.43.0


From 43c3b189bf37324d4b08ee58f0675ba03a3d1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:03 +0000
Subject: [PATCH 19/55] fix: SCC preambles for green text and column 24 did not
 end italics

The labels of the green preambles of rows 6, 8 and 13 had a digit too many and
those of the column 24 preambles only existed with even parity, so these codes
were not taken for plain text. The even parity form for row 4 pointed at
column 20.
---
 pycaption/scc/constants.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index e8a9f39..19dd8e8 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -812,8 +812,8 @@ PAC_BYTES_TO_POSITIONING_MAP = {
         ('f4', '75'): (4, 8),
         ('76', 'f7'): (4, 12),
         ('f8', '79'): (4, 16),
-        ('7a', 'fc', 'fb'): (4, 20),
-        ('7c', 'fd'): (4, 24),
+        ('7a', 'fb'): (4, 20),
+        ('7c', 'fc', 'fd'): (4, 24),
         ('fe', '7f'): (4, 28)
     },
     '15': {
@@ -1134,6 +1134,7 @@ COMMAND_LABELS = {
     "9179": "row 02, column 16, with white underlined text.",
     "917a": "row 02, column 20, with plain white text.",
     "91fb": "row 02, column 20, with white underlined text.",
+    "917c": "row 02, column 24, with plain white text.",
     "91fc": "row 02, column 24, with plain white text.",
     "91fd": "row 02, column 24, with white underlined text.",
     "91fe": "row 02, column 28, with plain white text.",
@@ -1198,6 +1199,7 @@ COMMAND_LABELS = {
     "9279": "row 04, column 16, with white underlined text.",
     "927a": "row 04, column 20, with plain white text.",
     "92fb": "row 04, column 20, with white underlined text.",
+    "927c": "row 04, column 24, with plain white text.",
     "92fc": "row 04, column 24, with plain white text.",
     "92fd": "row 04, column 24, with white underlined text.",
     "92fe": "row 04, column 28, with plain white text.",
@@ -1236,7 +1238,7 @@ COMMAND_LABELS = {
     "15df": "row 05, column 28, with white underlined text.",
     "15e0": "row 06, column 00, with plain white text.",
     "1561": "row 06, column 00, with white underlined text.",
-    "15462": "row 06, column 00, with plain green text.",
+    "1562": "row 06, column 00, with plain green text.",
     "15e3": "row 06, column 00, with green underlined text.",
     "1564": "row 06, column 00, with plain blue text.",
     "15e5": "row 06, column 00, with blue underlined text.",
@@ -1262,6 +1264,7 @@ COMMAND_LABELS = {
     "1579": "row 06, column 16, with white underlined text.",
     "157a": "row 06, column 20, with plain white text.",
     "15fb": "row 06, column 20, with white underlined text.",
+    "157c": "row 06, column 24, with plain white text.",
     "15fc": "row 06, column 24, with plain white text.",
     "15fd": "row 06, column 24, with white underlined text.",
     "15fe": "row 06, column 28, with plain white text.",
@@ -1300,7 +1303,7 @@ COMMAND_LABELS = {
     "16df": "row 07, column 28, with white underlined text.",
     "16e0": "row 08, column 00, with plain white text.",
     "1661": "row 08, column 00, with white underlined text.",
-    "16462": "row 08, column 00, with plain green text.",
+    "1662": "row 08, column 00, with plain green text.",
     "16e3": "row 08, column 00, with green underlined text.",
     "1664": "row 08, column 00, with plain blue text.",
     "16e5": "row 08, column 00, with blue underlined text.",
@@ -1326,6 +1329,7 @@ COMMAND_LABELS = {
     "1679": "row 08, column 16, with white underlined text.",
     "167a": "row 08, column 20, with plain white text.",
     "16fb": "row 08, column 20, with white underlined text.",
+    "167c": "row 08, column 24, with plain white text.",
     "16fc": "row 08, column 24, with plain white text.",
     "16fd": "row 08, column 24, with white underlined text.",
     "16fe": "row 08, column 28, with plain white text.",
@@ -1390,6 +1394,7 @@ COMMAND_LABELS = {
     "9779": "row 10, column 16, with white underlined text.",
     "977a": "row 10, column 20, with plain white text.",
     "97fb": "row 10, column 20, with white underlined text.",
+    "977c": "row 10, column 24, with plain white text.",
     "97fc": "row 10, column 24, with plain white text.",
     "97fd": "row 10, column 24, with white underlined text.",
     "97fe": "row 10, column 28, with plain white text.",
@@ -1460,7 +1465,7 @@ COMMAND_LABELS = {
     "13df": "row 12, column 28, with white underlined text.",
     "13e0": "row 13, column 00, with plain white text.",
     "1361": "row 13, column 00, with white underlined text.",
-    "13462": "row 13, column 00, with plain green text.",
+    "1362": "row 13, column 00, with plain green text.",
     "13e3": "row 13, column 00, with green underlined text.",
     "1364": "row 13, column 00, with plain blue text.",
     "13e5": "row 13, column 00, with blue underlined text.",
@@ -1486,6 +1491,7 @@ COMMAND_LABELS = {
     "1379": "row 13, column 16, with white underlined text.",
     "137a": "row 13, column 20, with plain white text.",
     "13fb": "row 13, column 20, with white underlined text.",
+    "137c": "row 13, column 24, with plain white text.",
     "13fc": "row 13, column 24, with plain white text.",
     "13fd": "row 13, column 24, with white underlined text.",
     "13fe": "row 13, column 28, with plain white text.",
@@ -1550,6 +1556,7 @@ COMMAND_LABELS = {
     "9479": "row 15, column 16, with white underlined text.",
     "947a": "row 15, column 20, with plain white text.",
     "94fb": "row 15, column 20, with white underlined text.",
+    "947c": "row 15, column 24, with plain white text.",
     "94fc": "row 15, column 24, with plain white text.",
     "94fd": "row 15, column 24, with white underlined text.",
     "94fe": "row 15, column 28, with plain white text.",
-- 
2.43.0


From b33de92cd772f005607ecd4f21df700422735ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:05 +0000
Subject: [PATCH 20/55] fix: SCC solid block character (7f) was dropped

---
 pycaption/scc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index 19dd8e8..ed12e89 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -641,7 +641,7 @@ CHARACTERS = {
     '7c': '÷',
     'fd': 'Ñ',
     'fe': 'ñ',
-    '7f': '',
+    '7f': '█',
     '80': ''
 }
 
-- 
2.43.0


From ec85bea657c6e0c928737b5581844961f33f0c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:24 +0000
Subject: [PATCH 21/55] fix: SCC caption one row below the previous one started
 with a line break

The position tracker is shared by successive buffers, so a preamble one row
below the position of the previous caption was a line break and left the caption
at the previous row.
---
 pycaption/scc/specialized_collections.py |  5 +++++
 pycaption/scc/state_machines.py          | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 1bd5bf9..71ff90f 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -485,6 +485,11 @@ class InstructionNodeCreator:
             except KeyError:
                 # if not PAC or OFFSET we're not changing position
                 return
+        if self.is_empty():
+            # nothing to break or move away from: where the tracker was left by
+            # a previous buffer, or by a position without text, doesn't matter
+            self._position_tracer.restart_positioning(positioning)
+            return
         offset_after_break = is_offset and self.has_break_before(self._collection)
         if not offset_after_break:
             # Tab offsets after line breaks will be ignored to avoid repositioning
diff --git a/pycaption/scc/state_machines.py b/pycaption/scc/state_machines.py
index de5a4e8..af9611e 100644
--- a/pycaption/scc/state_machines.py
+++ b/pycaption/scc/state_machines.py
@@ -59,6 +59,18 @@ class _PositioningTracker:
             if not is_tab_offset:
                 self._repositioning_required = True
 
+    def restart_positioning(self, positioning):
+        """Sets the position regardless of the previous ones, so it is neither
+        a line break nor a repositioning.
+
+        :type positioning: tuple[int]
+        :param positioning: a tuple (row, col)
+        """
+        self._positions = [positioning]
+        self._break_required = False
+        self._repositioning_required = False
+        self._last_column = None
+
     def get_current_position(self):
         """Returns the current usable position
 
@@ -136,3 +148,13 @@ class DefaultProvidingPositionTracker(_PositioningTracker):
             self.default = positioning
 
         super().update_positioning(positioning)
+
+    def restart_positioning(self, positioning):
+        """Sets this positioning as the default too
+
+        :param positioning: a tuple of ints (row, col)
+        :type positioning: tuple[int]
+        """
+        self.default = positioning
+
+        super().restart_positioning(positioning)
-- 
2.43.0


From d8a5e6bc316fb53efb636b8b010e7495449107ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 22/55] fix: SCC backspace or extended character at the start
 of a row erased the row before

---
 pycaption/scc/specialized_collections.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 71ff90f..07ba789 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -543,8 +543,8 @@ class InstructionNodeCreator:
         """
         Move cursor back one position and delete that character
         """
-        node = self.get_previous_text_node()
-        # in case of no previous text nodes or
+        node = self._get_text_node_on_row()
+        # in case of no previous text nodes on this row or
         # if the backspace is required while no character
         # do nothing
         if node is None:
@@ -558,6 +558,22 @@ class InstructionNodeCreator:
         if delete_previous_condition:
             node.text = node.text[:-1]
 
+    def _get_text_node_on_row(self):
+        """Returns the last text node that isn't empty, if it's on the row of
+        the cursor
+        """
+        if (
+            self._position_tracer.is_linebreak_required()
+            or self._position_tracer.is_repositioning_required()
+        ):
+            return None
+        for node in self._collection[::-1]:
+            if node.is_explicit_break() or node.requires_repositioning():
+                return None
+            if node.is_text_node() and node.text:
+                return node
+        return None
+
     def get_previous_text_node(self):
         for node in self._collection[::-1]:
             if node.is_text_node() and node.text:
-- 
2.43.0


From 854ebbc905c4405925f28de1f38048de60d8bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:43 +0000
Subject: [PATCH 23/55] fix: SCC no-op words before the first preamble set the
 position of the text

---
 pycaption/scc/specialized_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 07ba789..d00d95a 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -323,7 +323,8 @@ class InstructionNodeCreator:
 
         :param chars: tuple containing text (Unicode string)
         """
-        if not chars:
+        # no-op characters don't create nodes
+        if not any(chars):
             return
 
         current_position = self._position_tracer.get_current_position()
-- 
2.43.0


From 97a2422ace09cb126f5db8eed0183fed9ef73485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:44 +0000
Subject: [PATCH 24/55] fix: SCC over-long line was forgotten when a later
 caption shared its start

---
 pycaption/scc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 5846f55..a38796d 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -254,10 +254,7 @@ class SCCReader(BaseReader):
             text_too_long = [
                 line for line in caption_text.split("\n") if len(line) > 32
             ]
-            if caption_start in lines_too_long:
-                lines_too_long[caption_start] = text_too_long
-            else:
-                lines_too_long[caption_start].extend(text_too_long)
+            lines_too_long[caption_start].extend(text_too_long)
 
         msg = ""
         if bool(lines_too_long.keys()):
-- 
2.43.0


From 1dada4403afcf40f4a41611354abddcf3a7c278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:42 +0000
Subject: [PATCH 25/55] fix: SCC Erase Non-displayed Memory erased roll-up and
 paint-on text

ENM clears the pop-on memory whatever the active mode is; the usual
'ENM RCL' opening of a pop-on caption lost the roll-up or paint-on row still in
its buffer.
---
 pycaption/scc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index a38796d..7d7cd2e 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -449,7 +449,7 @@ class SCCReader(BaseReader):
 
         # clear pop_on buffer
         elif word == "94ae":
-            self.buffer = self.node_creator_factory.new_creator()
+            self.buffer_dict["pop"] = self.node_creator_factory.new_creator()
 
         # display pop_on buffer [End Of Caption]
         elif word == "942f":
-- 
2.43.0


From c6476f86ec0bb30860fc4546abc5f781eb15b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:30 +0000
Subject: [PATCH 26/55] fix: DFXP writers left attribute values unescaped

---
 pycaption/dfxp/base.py   | 15 ++++++++++++---
 pycaption/dfxp/extras.py |  8 ++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 03983aa..57732fd 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1,10 +1,11 @@
 import re
 from copy import deepcopy
 from fractions import Fraction
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape, quoteattr
 
 from bs4 import BeautifulSoup, CData, NavigableString
 from bs4.element import PreformattedString
+from bs4.formatter import XMLFormatter
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -69,6 +70,14 @@ MICROSECONDS_PER_UNIT = {
 DFXP_DEFAULT_LANGUAGE_CODE = "en"
 
 
+class DFXPFormatter(XMLFormatter):
+    """Escapes the values of the attributes; the writers put the markup of the
+    text together themselves, so that it must be left as it is.
+    """
+    def attribute_value(self, value):
+        return escape(value)
+
+
 class DFXPReader(BaseReader):
     def __init__(self, *args, **kw):
         super().__init__(*args, **kw)
@@ -396,7 +405,7 @@ class DFXPWriter(BaseWriter):
 
             body.append(div)
         self.region_creator.cleanup_regions()
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=DFXPFormatter())
         return caption_content
 
     @staticmethod
@@ -483,7 +492,7 @@ class DFXPWriter(BaseWriter):
 
             content_with_style = _recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}={quoteattr(str(value))}'
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 70a60c8..f766e55 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -2,11 +2,11 @@
 # in a lot of cases, but since the transformations on them could be quite
 # complex, the deepcopy method is good enough sometimes.
 from copy import deepcopy
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape, quoteattr
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPWriter, DFXP_DEFAULT_REGION
+from .base import DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -139,7 +139,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
-        caption_content = dfxp.prettify(formatter=None)
+        caption_content = dfxp.prettify(formatter=DFXPFormatter())
         return caption_content
 
     # force the DFXP to only have one language, trying to match on "force"
@@ -211,7 +211,7 @@ class LegacyDFXPWriter(BaseWriter):
 
             content_with_style = self._recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+                styles += f' {style}={quoteattr(str(value))}'
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From 63bd70e11e2ee7a454e03b72161b3f6a078fea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:33 +0000
Subject: [PATCH 27/55] fix: DFXP spans repeated attributes with
 write_inline_positioning

---
 pycaption/dfxp/base.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 57732fd..860479a 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -488,26 +488,20 @@ class DFXPWriter(BaseWriter):
         # We are left with creating tags manually, which is hard to understand
         # and harder to maintain
         if node.start:
-            styles = ''
-
-            content_with_style = _recreate_style(node.content, dfxp)
-            for style, value in list(content_with_style.items()):
-                styles += f' {style}={quoteattr(str(value))}'
+            attributes = _recreate_style(node.content, dfxp)
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
                         lang, caption_set, caption, node
                     ))
-                styles += f' region="{region_id}"'
+                attributes['region'] = region_id
                 if self.write_inline_positioning:
-                    styles += ' ' + ' '.join(
-                        [
-                            f'{k_}="{v_}"'
-                            for k_, v_ in list(region_attribs.items())
-                        ]
-                    )
+                    attributes.update(region_attribs)
 
-            if styles:
+            if attributes:
+                styles = ''.join(
+                    f' {attribute}={quoteattr(str(value))}'
+                    for attribute, value in attributes.items())
                 if self.open_span:
                     line = line.rstrip() + '</span> '
                 line += f'<span{styles}>'
-- 
2.43.0


From 39112b6d98afc986c1c1b6ff9195cb73fe39e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:18 +0000
Subject: [PATCH 28/55] fix: DFXP writers took an empty force for a language
 and forced one of none

---
 pycaption/dfxp/base.py   | 2 +-
 pycaption/dfxp/extras.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 860479a..59c8c18 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -355,7 +355,7 @@ class DFXPWriter(BaseWriter):
         dfxp = BeautifulSoup(DFXP_BASE_MARKUP, 'lxml-xml')
 
         langs = caption_set.get_languages()
-        if force in langs:
+        if force and force in langs:
             langs = [force]
             dfxp.find('tt')['xml:lang'] = force
         else:
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index f766e55..6ec941f 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -117,7 +117,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         body = dfxp.find('body')
 
-        if force:
+        if force and caption_set.get_languages():
             langs = [self._force_language(force, caption_set.get_languages())]
         else:
             langs = caption_set.get_languages()
-- 
2.43.0


From 389b7b3812c1ba00a448c7d0a0a237cf6d3f340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:20 +0000
Subject: [PATCH 29/55] fix: LegacyDFXPWriter defined a region without captions
 to use it

---
 pycaption/dfxp/extras.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 6ec941f..18c4b61 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -110,11 +110,6 @@ class LegacyDFXPWriter(BaseWriter):
             dfxp = self._recreate_styling_tag(
                 LEGACY_DFXP_DEFAULT_STYLE_ID, LEGACY_DFXP_DEFAULT_STYLE, dfxp)
 
-        # XXX For now we will always use this default region. In the future if
-        # regions are provided, they will be kept
-        dfxp = self._recreate_region_tag(
-            LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION, dfxp)
-
         body = dfxp.find('body')
 
         if force and caption_set.get_languages():
@@ -122,6 +117,13 @@ class LegacyDFXPWriter(BaseWriter):
         else:
             langs = caption_set.get_languages()
 
+        # XXX For now we will always use this default region. In the future if
+        # regions are provided, they will be kept
+        if any(caption_set.get_captions(lang) for lang in langs):
+            dfxp = self._recreate_region_tag(
+                LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION,
+                dfxp)
+
         for lang in langs:
             div = dfxp.new_tag('div')
             div['xml:lang'] = lang
-- 
2.43.0


From 00ab6881250156338b04d4da8953cd55cb206c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:22 +0000
Subject: [PATCH 30/55] fix: DFXP style names that are not XML names made the
 output ill-formed

---
 pycaption/dfxp/base.py   | 24 ++++++++++++++++++++++--
 pycaption/dfxp/extras.py | 10 +++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 59c8c18..8eddc9e 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -69,6 +69,24 @@ MICROSECONDS_PER_UNIT = {
 
 DFXP_DEFAULT_LANGUAGE_CODE = "en"
 
+# The names of styles which can be used as 'xml:id' just as they are
+XML_ID_PATTERN = re.compile(
+    r'[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u00FF]'
+    r'[A-Za-z0-9._\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u00FF-]*')
+
+
+def get_style_id(name):
+    """Returns the 'xml:id' for the style with this name.
+
+    The characters that may not be part of an id are replaced by their code
+    point, such that different names always have different ids.
+    """
+    if XML_ID_PATTERN.fullmatch(name) and not name.startswith('_x'):
+        return name
+    return '_x' + ''.join(
+        char if re.match('[A-Za-z0-9.-]', char) else f'_{ord(char):x}_'
+        for char in name)
+
 
 class DFXPFormatter(XMLFormatter):
     """Escapes the values of the attributes; the writers put the markup of the
@@ -436,6 +454,7 @@ class DFXPWriter(BaseWriter):
                 tag.attrs.update(attribs)
 
     def _recreate_styling_tag(self, style, content, dfxp):
+        style = get_style_id(style)
         # TODO - should be drastically simplified: if attributes : append
         dfxp_style = dfxp.new_tag('style')
         dfxp_style.attrs.update({'xml:id': style})
@@ -1183,8 +1202,9 @@ def _recreate_style(content, dfxp):
     dfxp_style = {}
 
     if 'class' in content:
-        if dfxp.find("style", {"xml:id": content['class']}):
-            dfxp_style['style'] = content['class']
+        style_id = get_style_id(content['class'])
+        if dfxp.find("style", {"xml:id": style_id}):
+            dfxp_style['style'] = style_id
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
     if 'italics' in content:
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 18c4b61..22ca18b 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -6,7 +6,9 @@ from xml.sax.saxutils import escape, quoteattr
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION
+from .base import (
+    DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION, get_style_id,
+)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -166,6 +168,7 @@ class LegacyDFXPWriter(BaseWriter):
         return dfxp
 
     def _recreate_styling_tag(self, style, content, dfxp):
+        style = get_style_id(style)
         dfxp_style = dfxp.new_tag('style')
         dfxp_style.attrs.update({'xml:id': style})
 
@@ -234,8 +237,9 @@ class LegacyDFXPWriter(BaseWriter):
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
         if 'class' in content:
-            if dfxp.find("style", {"xml:id": content['class']}):
-                dfxp_style['style'] = content['class']
+            style_id = get_style_id(content['class'])
+            if dfxp.find("style", {"xml:id": style_id}):
+                dfxp_style['style'] = style_id
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
         if 'italics' in content:
-- 
2.43.0


From 97bc363f91533e842a5574bddd581a778e4779a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:12 +0000
Subject: [PATCH 31/55] fix: DFXP region ids could repeat the id of a style

---
 pycaption/dfxp/base.py   | 14 +++++++++++---
 pycaption/dfxp/extras.py | 10 +++++-----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 8eddc9e..bc4b4ce 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -88,6 +88,13 @@ def get_style_id(name):
         for char in name)
 
 
+def get_unused_id(dfxp, new_id):
+    """Returns the id, changed if an element of the document already has it"""
+    while dfxp.find(attrs={'xml:id': new_id}):
+        new_id += '_'
+    return new_id
+
+
 class DFXPFormatter(XMLFormatter):
     """Escapes the values of the attributes; the writers put the markup of the
     text together themselves, so that it must be left as it is.
@@ -1033,6 +1040,7 @@ class RegionCreator:
         self._caption_set = caption_set
         self._region_map = {}
         self._id_seed = 0
+        self._default_region_id = get_unused_id(dfxp, DFXP_DEFAULT_REGION_ID)
         self._assigned_region_ids = set()
 
     @staticmethod
@@ -1110,7 +1118,7 @@ class RegionCreator:
         # Creates the default region
         default_region_map = self._create_unique_regions(
             [DFXP_DEFAULT_REGION],
-            self._dfxp, lambda: DFXP_DEFAULT_REGION_ID
+            self._dfxp, lambda: self._default_region_id
         )
         unique_regions = self._collect_unique_regions(
             self._caption_set, DFXP_DEFAULT_REGION)
@@ -1128,7 +1136,7 @@ class RegionCreator:
         """
         new_id = f'{prefix}{self._id_seed}'
         self._id_seed += 1
-        return new_id
+        return get_unused_id(self._dfxp, new_id)
 
     def get_positioning_info(
             self, lang, caption_set=None, caption=None, caption_node=None):
@@ -1174,7 +1182,7 @@ class RegionCreator:
         # Make sure the default region ID/ attributes are always returned
         # as fallback
         if not region_id:
-            region_id = DFXP_DEFAULT_REGION_ID
+            region_id = self._default_region_id
 
         positioning_attributes = _convert_layout_to_attributes(layout_info)
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 22ca18b..10054c8 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -8,6 +8,7 @@ from bs4 import BeautifulSoup
 
 from .base import (
     DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION, get_style_id,
+    get_unused_id,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -121,10 +122,10 @@ class LegacyDFXPWriter(BaseWriter):
 
         # XXX For now we will always use this default region. In the future if
         # regions are provided, they will be kept
+        region_id = get_unused_id(dfxp, LEGACY_DFXP_DEFAULT_REGION_ID)
         if any(caption_set.get_captions(lang) for lang in langs):
             dfxp = self._recreate_region_tag(
-                LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION,
-                dfxp)
+                region_id, LEGACY_DFXP_DEFAULT_REGION, dfxp)
 
         for lang in langs:
             div = dfxp.new_tag('div')
@@ -133,11 +134,10 @@ class LegacyDFXPWriter(BaseWriter):
             for caption in caption_set.get_captions(lang):
                 if caption.style:
                     caption_style = caption.style
-                    caption_style.update(
-                        {'region': LEGACY_DFXP_DEFAULT_REGION_ID})
+                    caption_style.update({'region': region_id})
                 else:
                     caption_style = {'class': LEGACY_DFXP_DEFAULT_STYLE_ID,
-                                     'region': LEGACY_DFXP_DEFAULT_REGION_ID}
+                                     'region': region_id}
                 p = self._recreate_p_tag(caption, caption_style, dfxp)
                 div.append(p)
 
-- 
2.43.0


From c4c3b722e156905cef81b4fe095ab4a7128c4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:29 +0000
Subject: [PATCH 32/55] fix: SRT writer put a blank after each text node, also
 inside words

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index ef8ae50..379bc9c 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -145,7 +145,7 @@ class SRTWriter(BaseWriter):
 
     def _recreate_line(self, srt, line):
         if line.type_ == CaptionNode.TEXT:
-            return srt + f'{line.content} '
+            return srt + line.content
         elif line.type_ == CaptionNode.BREAK:
             return srt + '\n'
         else:
-- 
2.43.0


From 501343ac05b0fdec5820eabd6b986f3ecc283814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:31 +0000
Subject: [PATCH 33/55] fix: DFXP writers put a blank after each span, also
 inside words

---
 pycaption/dfxp/base.py   | 4 ++--
 pycaption/dfxp/extras.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index bc4b4ce..689a6c8 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -529,12 +529,12 @@ class DFXPWriter(BaseWriter):
                     f' {attribute}={quoteattr(str(value))}'
                     for attribute, value in attributes.items())
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 10054c8..31de6d7 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -200,7 +200,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += escape(node.content) + ' '
+                line += escape(node.content)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -220,12 +220,12 @@ class LegacyDFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
-- 
2.43.0


From 8b6df4fab4b7e5a04b632df6cb0fbf72ea98a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 34/55] fix: SAMI language en also selected the captions of
 en-US

---
 pycaption/sami.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 106d120..168410d 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -192,7 +192,7 @@ class SAMIReader(BaseReader):
         captions = CaptionList(layout_info=parent_layout)
         milliseconds = 0
 
-        for p in sami_soup.select(f'p[lang|={language}]'):
+        for p in sami_soup.find_all('p', attrs={'lang': language}):
             start_str = p.parent.get('start')
             if not start_str:
                 raise CaptionReadTimingError(
@@ -663,6 +663,7 @@ class SAMIParser(HTMLParser):
 
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
+            attrs = [attr for attr in attrs if attr[0] != 'lang']
             attrs.append(('lang', lang))
             self.langs.add(lang)
 
-- 
2.43.0


From 9a3fbd9b3b64e210c3491c3512a5adb6951e7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 35/55] fix: SAMI languages came out in hash order instead of
 order of appearance

---
 pycaption/sami.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 168410d..00fda37 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -639,7 +639,8 @@ class SAMIParser(HTMLParser):
         self.line = ''
         self.styles = {}
         self.queue = deque()
-        self.langs = set()
+        # insertion-ordered: languages come out in order of first appearance
+        self.langs = {}
         self.last_element = ''
         self.name2codepoint = name2codepoint.copy()
         self.name2codepoint['apos'] = 0x0027
@@ -665,7 +666,7 @@ class SAMIParser(HTMLParser):
             lang = lang or DEFAULT_LANGUAGE_CODE
             attrs = [attr for attr in attrs if attr[0] != 'lang']
             attrs.append(('lang', lang))
-            self.langs.add(lang)
+            self.langs.setdefault(lang)
 
         # clean-up line breaks
         if tag == 'br':
@@ -724,7 +725,7 @@ class SAMIParser(HTMLParser):
     def feed(self, data):
         """
         :param data: Raw SAMI unicode string
-        :returns: tuple (str, dict, set)
+        :returns: tuple (str, dict, list)
         """
         no_cc = 'no closed captioning available'
 
@@ -755,7 +756,7 @@ class SAMIParser(HTMLParser):
             closing_tag = self.queue.pop()
             self.sami += f"</{closing_tag}>"
 
-        return self.sami, self.styles, self.langs
+        return self.sami, self.styles, list(self.langs)
 
     # parse the SAMI's stylesheet
     def _css_parse(self, css):
-- 
2.43.0


From 87f4c95f88c5f9deec16a483509e929bec1b64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 36/55] fix: SAMI writer left out the class of a language, or
 used another language's

---
 pycaption/sami.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 00fda37..27e54fe 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -510,7 +510,7 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_p_lang(self, caption, lang, captions):
         try:
-            if 'lang' in captions.get_style(caption.style['class']):
+            if captions.get_style(caption.style['class'])['lang'] == lang:
                 return caption.style['class']
         except KeyError:
             pass
@@ -525,8 +525,12 @@ class SAMIWriter(BaseWriter):
                     attr, value, caption_set.layout_info)
 
         for lang in caption_set.get_languages():
-            lang_string = f'lang: {lang}'
-            if lang_string not in stylesheet:
+            lang_string = f' lang: {lang};'
+            # the class named after the language is also needed by captions
+            # without a class of that language
+            if lang_string not in stylesheet or any(
+                    self._recreate_p_lang(caption, lang, caption_set) == lang
+                    for caption in caption_set.get_captions(lang)):
                 stylesheet += self._recreate_style_block(
                     lang, {'lang': lang}, caption_set.get_layout_info(lang))
 
-- 
2.43.0


From ab7efdba0d123145ed4bb28e7a26219cad8d68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 37/55] fix: SAMI reader failed on a class or lang attribute
 without a value

---
 pycaption/sami.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 27e54fe..60a7d84 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -305,7 +305,7 @@ class SAMIReader(BaseReader):
         attrs = {}
         css_attrs = tag.attrs
 
-        if 'class' in css_attrs:
+        if css_attrs.get('class'):
             attrs['class'] = css_attrs['class'][0].lower()
         if 'id' in css_attrs:
             attrs['class'] = css_attrs['id'].lower()
@@ -802,6 +802,7 @@ class SAMIParser(HTMLParser):
 
     def _find_lang(self, attrs):
         for attr, value in attrs:
+            value = value or ''
             # if lang is an attribute of the tag
             if attr.lower() == 'lang':
                 return value[:2]
-- 
2.43.0


From 1c0cf3a6a46657ae48decacc9e72808f20710875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 38/55] fix: SAMI writer did not escape the attribute values of
 spans

---
 pycaption/sami.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 60a7d84..a28fe2c 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -595,14 +595,14 @@ class SAMIWriter(BaseWriter):
         style = ''
         klass = ''
         if 'class' in content:
-            klass += f' class="{content["class"]}"'
+            klass += f' class={self._quote(content["class"])}'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
 
         if style or klass:
             if style:
-                style = f' style="{style}"'
+                style = f' style={self._quote(style)}'
             line += f'<span{klass}{style}>'
             self.open_span = True
 
@@ -627,6 +627,15 @@ class SAMIWriter(BaseWriter):
 
         return sami_style
 
+    @staticmethod
+    def _quote(value):
+        """
+        Quotes and escapes the value of an attribute
+        :type value: str
+        """
+        value = escape(value, {'"': '&quot;'})
+        return f'"{value}"'
+
     def _encode(self, s):
         """
         Encodes plain unicode string to proper SAMI file escaping special
-- 
2.43.0


From c82798b943d78b6ecf0fb28dd81be622ef5d1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 39/55] fix: fit-to-screen gave a negative extent to layouts
 outside the safe area

---
 pycaption/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index f5cc8b0..c03c9b0 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -831,6 +831,10 @@ class Layout:
         """
 
         if self.origin:
+            if self.origin.x.value > 90 or self.origin.y.value > 95:
+                # There is no extent that could fit
+                return self
+
             # Calculated values to be used if replacement is needed
             diff_horizontal = Size(90 - self.origin.x.value, UnitEnum.PERCENT)
             diff_vertical = Size(95 - self.origin.y.value, UnitEnum.PERCENT)
@@ -849,7 +853,7 @@ class Layout:
                 found_absolute_unit = False
                 if bottom_right.x.unit != UnitEnum.PERCENT:
                     found_absolute_unit = True
-                elif bottom_right.x.unit != UnitEnum.PERCENT:
+                elif bottom_right.y.unit != UnitEnum.PERCENT:
                     found_absolute_unit = True
 
                 if found_absolute_unit:
-- 
2.43.0


From ae1e3e06b5bd554710b83a52e13a6fd58683e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 40/55] fix: WebVTT writer recursed forever on a style class
 based on itself

---
 pycaption/webvtt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 2f57ee0..54addd7 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -239,7 +239,7 @@ class WebVTTWriter(BaseWriter):
         else:
             return ["", ""]
 
-    def _calculate_resulting_style(self, style, caption_set):
+    def _calculate_resulting_style(self, style, caption_set, parents=()):
         resulting_style = {}
 
         style_classes = []
@@ -249,10 +249,14 @@ class WebVTTWriter(BaseWriter):
             style_classes = [style["class"]]
 
         for style_class in style_classes:
+            # A class can't be based on itself
+            if style_class in parents:
+                continue
             sub_style = caption_set.get_style(style_class).copy()
             # Recursively resolve class attributes and calculate style
             resulting_style.update(
-                self._calculate_resulting_style(sub_style, caption_set)
+                self._calculate_resulting_style(
+                    sub_style, caption_set, (*parents, style_class))
             )
 
         resulting_style.update(style)
-- 
2.43.0


From 1233e2ec23fd81976b4ee3ad228cedbd84bfe37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 41/55] fix: a span left open by one caption leaked into the
 next one or the next write

---
 pycaption/dfxp/base.py   | 6 ++++++
 pycaption/dfxp/extras.py | 6 ++++++
 pycaption/sami.py        | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 689a6c8..32dccb7 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -492,6 +492,7 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
+        self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
@@ -504,6 +505,11 @@ class DFXPWriter(BaseWriter):
                 line = self._recreate_span(
                     line, node, dfxp, caption_set, caption, lang)
 
+        # close the span that was left open, it can't go past the caption
+        if self.open_span:
+            line += '</span>'
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 31de6d7..e29c12f 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -197,6 +197,7 @@ class LegacyDFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp):
         line = ''
+        self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
@@ -208,6 +209,11 @@ class LegacyDFXPWriter(BaseWriter):
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_span(line, node, dfxp)
 
+        # close the span that was left open, it can't go past the caption
+        if self.open_span:
+            line += '</span>'
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_span(self, line, node, dfxp):
diff --git a/pycaption/sami.py b/pycaption/sami.py
index a28fe2c..c027b1f 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -568,6 +568,7 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_text(self, caption):
         line = ''
+        self.open_span = False
 
         for node in caption:
             if node.type_ == CaptionNode.TEXT:
@@ -577,6 +578,11 @@ class SAMIWriter(BaseWriter):
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_line_style(line, node)
 
+        # close the span that was left open, it can't go past the caption
+        if self.open_span:
+            line = line.rstrip() + '</span> '
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_line_style(self, line, node):
-- 
2.43.0


From 49a483a40dc0da5e77f8a506794a40339ba6c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:18 +0000
Subject: [PATCH 42/55] fix: captions and caption sets built without styles
 shared one dictionary

---
 pycaption/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 1fa7789..91a42e9 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -175,7 +175,7 @@ class Caption:
     for its display.
     """
 
-    def __init__(self, start, end, nodes, style={}, layout_info=None):
+    def __init__(self, start, end, nodes, style=None, layout_info=None):
         """
         Initialize the Caption object
         :param start: The start time in microseconds
@@ -203,7 +203,8 @@ class Caption:
         self.start = start
         self.end = end
         self.nodes = nodes
-        self.style = style
+        # not a default argument, which all the captions would share
+        self.style = {} if style is None else style
         self.layout_info = layout_info
 
     def is_empty(self):
@@ -306,14 +307,14 @@ class CaptionSet:
     by all the children.
     """
 
-    def __init__(self, captions, styles={}, layout_info=None):
+    def __init__(self, captions, styles=None, layout_info=None):
         """
         :param captions: A dictionary of the format {'language': CaptionList}
         :param styles: A dictionary with CSS-like styling rules
         :param Layout layout_info: A Layout object with the positioning info
         """
         self._captions = captions
-        self._styles = styles
+        self._styles = {} if styles is None else styles
         self.layout_info = layout_info
 
     def set_captions(self, lang, captions):
-- 
2.43.0


From 92113f80492c482d58272784e90eceb5b596afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 43/55] fix: an SCC reader used again returned the captions of
 the earlier read too

---
 pycaption/scc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 7d7cd2e..ffef168 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -170,6 +170,10 @@ class SCCReader(BaseReader):
     """
 
     def __init__(self, *args, **kw):
+        self._reset()
+
+    def _reset(self):
+        """Start afresh, nothing of an earlier read may be left"""
         self.caption_stash = CaptionCreator()
         self.time_translator = _SccTimeTranslator()
 
@@ -233,6 +237,7 @@ class SCCReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
+        self._reset()
         self.simulate_roll_up = simulate_roll_up
         self.time_translator.offset = offset * 1000000
         # split lines
-- 
2.43.0


From 2a8c6529ee50d444a08c783014f5a53c8eed6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 44/55] fix: DFXP writers wrote a span with italics off as
 italic

---
 pycaption/dfxp/base.py   | 2 +-
 pycaption/dfxp/extras.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 32dccb7..05b5518 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1221,7 +1221,7 @@ def _recreate_style(content, dfxp):
             dfxp_style['style'] = style_id
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = content['text-align']
-    if 'italics' in content:
+    if content.get('italics'):
         dfxp_style['tts:fontStyle'] = 'italic'
     if 'font-family' in content:
         dfxp_style['tts:fontFamily'] = content['font-family']
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index e29c12f..ced4bed 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -248,7 +248,7 @@ class LegacyDFXPWriter(BaseWriter):
                 dfxp_style['style'] = style_id
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = content['text-align']
-        if 'italics' in content:
+        if content.get('italics'):
             dfxp_style['tts:fontStyle'] = 'italic'
         if 'font-family' in content:
             dfxp_style['tts:fontFamily'] = content['font-family']
-- 
2.43.0


From b595cd1795541f5ed86cfa23446944d83f99fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 45/55] fix: WebVTT cues split by position left tags open and
 ran into one another

---
 pycaption/webvtt.py | 78 +++++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 54addd7..5dcb266 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -267,13 +267,15 @@ class WebVTTWriter(BaseWriter):
         """
         :type caption: Caption
         """
-        layout_groups = self._group_cues_by_layout(caption.nodes, caption_set)
+        layout_groups = self._group_cues_by_layout(
+            caption.nodes, caption_set,
+            caption.layout_info or self.global_layout)
 
         start = self._timestamp(caption.start)
         end = self._timestamp(caption.end)
         timespan = f"{start} --> {end}"
 
-        output = ""
+        cues = []
 
         cue_style_tags = ["", ""]
 
@@ -289,10 +291,12 @@ class WebVTTWriter(BaseWriter):
             if not layout:
                 layout = caption.layout_info or self.global_layout
             cue_settings = self._convert_positioning(layout)
-            output += timespan + cue_settings + "\n"
-            output += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
+            cues.append(
+                timespan + cue_settings + "\n"
+                + cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n")
 
-        return output
+        # A blank line ends a cue
+        return "\n".join(cues)
 
     def _convert_positioning(self, layout):
         """
@@ -384,10 +388,12 @@ class WebVTTWriter(BaseWriter):
 
         return cue_settings
 
-    def _group_cues_by_layout(self, nodes, caption_set):
+    def _group_cues_by_layout(self, nodes, caption_set, default_layout=None):
         """
         Convert a Caption's nodes to WebVTT cue or cues (depending on
         whether they have the same positioning or not).
+
+        :param default_layout: the layout of the nodes which have none
         """
         if not nodes:
             return []
@@ -398,21 +404,43 @@ class WebVTTWriter(BaseWriter):
         # for different cues, each layout group has to be represented in a
         # new cue with the same timing but different positioning settings.
         layout_groups = []
-        # A properly encoded WebVTT string (plain unicode must be properly
-        # escaped before being appended to this string)
-        s = ""
+        # Pieces of a properly encoded WebVTT string (plain unicode must be
+        # properly escaped before being appended to this list)
+        pieces = []
+        has_text = False
+        # The tags to be closed by the style nodes to come
+        open_tags = []
+
+        def add_group(last=True):
+            # The tags of a cue must be closed in that cue. Those opened since
+            # the last text only matter to the next one.
+            trailing_tags = 0
+            while (trailing_tags < len(open_tags) and pieces
+                    and pieces[-1] == open_tags[-1 - trailing_tags][0]):
+                pieces.pop()
+                trailing_tags += 1
+            if not last and pieces[-1] == "\n":
+                pieces.pop()
+            closed = open_tags[:len(open_tags) - trailing_tags]
+            pieces.extend(tags[1] for tags in reversed(closed))
+            layout_groups.append(
+                (self._encode_arrows("".join(pieces)), current_layout))
+
         for i, node in enumerate(nodes):
             if node.type_ == CaptionNode.TEXT:
-                if s and current_layout and node.layout_info != current_layout:
+                layout = node.layout_info or default_layout
+                if has_text and layout != current_layout:
                     # If the positioning changes from one text node to
-                    # another, a new WebVTT cue has to be created.
-                    layout_groups.append(
-                        (self._encode_arrows(s), current_layout))
-                    s = ""
+                    # another, a new WebVTT cue has to be created, on a line
+                    # of its own with or without a line break in between.
+                    add_group(last=False)
+                    pieces = [tags[0] for tags in open_tags]
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
-                s += self._encode_illegal_characters(node.content) or "&nbsp;"
-                current_layout = node.layout_info
+                pieces.append(
+                    self._encode_illegal_characters(node.content) or "&nbsp;")
+                current_layout = layout
+                has_text = True
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
                     node.content, caption_set
@@ -426,21 +454,23 @@ class WebVTTWriter(BaseWriter):
                     if style in resulting_style and resulting_style[style]:
                         tags = self._convert_style_to_text_tag(style)
                         if node.start:
-                            s += tags[0]
-                        else:
-                            s += tags[1]
+                            pieces.append(tags[0])
+                            open_tags.append(tags)
+                        elif tags in open_tags:
+                            pieces.append(tags[1])
+                            open_tags.remove(tags)
 
                 # TODO: Refactor pycaption and eliminate the concept of a
                 # "Style node"
             elif node.type_ == CaptionNode.BREAK:
                 if i > 0 and nodes[i - 1].type_ != CaptionNode.TEXT:
-                    s += "&nbsp;"
+                    pieces.append("&nbsp;")
                 if i == 0:  # cue text starts with a break
-                    s += "&nbsp;"
-                s += "\n"
+                    pieces.append("&nbsp;")
+                pieces.append("\n")
 
-        if s:
-            layout_groups.append((self._encode_arrows(s), current_layout))
+        if pieces:
+            add_group()
         return layout_groups
 
     def _encode_illegal_characters(self, s):
-- 
2.43.0


From f1abc7e765a8a11dad3c05b3d425c4fa451e2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 46/55] fix: SAMI writer closed a span twice when an empty one
 was nested in it

---
 pycaption/sami.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index c027b1f..a0fddb0 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -589,6 +589,7 @@ class SAMIWriter(BaseWriter):
         if node.start:
             if self.open_span:
                 line = line.rstrip() + '</span> '
+                self.open_span = False
             line = self._recreate_span(line, node.content)
         else:
             if self.open_span:
-- 
2.43.0


From 04c52b4946a919e9ef700c43fdf1407de85222f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 47/55] fix: DFXP writer lost the position of texts which are
 not that of their caption or span

---
 pycaption/dfxp/base.py | 107 +++++++++++++++++++++++++++++++++--------
 1 file changed, 86 insertions(+), 21 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 05b5518..c5446a6 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -69,6 +69,8 @@ MICROSECONDS_PER_UNIT = {
 
 DFXP_DEFAULT_LANGUAGE_CODE = "en"
 
+LINE_BREAK = '<br/>\n    '
+
 # The names of styles which can be used as 'xml:id' just as they are
 XML_ID_PATTERN = re.compile(
     r'[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u00FF]'
@@ -493,13 +495,24 @@ class DFXPWriter(BaseWriter):
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
         self.open_span = False
+        # The attributes and the region of the open style node, and the region
+        # of the open span (those without a region are in that of the <p>)
+        self._style_attributes = {}
+        self._style_region = None
+        self._span_region = None
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
+                line = self._assign_region(
+                    line, node, caption_set, caption, lang)
                 line += self._encode(node.content)
 
             elif node.type_ == CaptionNode.BREAK:
-                line = line.rstrip() + '<br/>\n    '
+                # a span which is not that of a style node only holds texts
+                if self.open_span and not (
+                        self._style_attributes or self._style_region):
+                    line = self._close_span(line)
+                line = line.rstrip() + LINE_BREAK
 
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_span(
@@ -507,8 +520,7 @@ class DFXPWriter(BaseWriter):
 
         # close the span that was left open, it can't go past the caption
         if self.open_span:
-            line += '</span>'
-            self.open_span = False
+            line = self._close_span(line)
 
         return line.rstrip()
 
@@ -521,28 +533,81 @@ class DFXPWriter(BaseWriter):
         # and harder to maintain
         if node.start:
             attributes = _recreate_style(node.content, dfxp)
+            region = None
             if node.layout_info:
-                region_id, region_attribs = (
-                    self.region_creator.get_positioning_info(
-                        lang, caption_set, caption, node
-                    ))
-                attributes['region'] = region_id
-                if self.write_inline_positioning:
-                    attributes.update(region_attribs)
-
-            if attributes:
-                styles = ''.join(
-                    f' {attribute}={quoteattr(str(value))}'
-                    for attribute, value in attributes.items())
+                region = self.region_creator.get_positioning_info(
+                    lang, caption_set, caption, node)
+
+            if attributes or region:
                 if self.open_span:
-                    line += '</span>'
-                line += f'<span{styles}>'
-                self.open_span = True
+                    line = self._close_span(line)
+                line = self._open_span(line, attributes, region)
+                self._style_attributes = attributes
+                self._style_region = region
+
+        else:
+            if self.open_span:
+                line = self._close_span(line)
+            self._style_attributes = {}
+            self._style_region = None
+
+        return line
+
+    def _open_span(self, line, attributes, region=None):
+        """Open a span with the attributes and the positioning info (the
+        region ID and the dict of its attributes) supplied
+        """
+        attributes = dict(attributes)
+        self._span_region = None
+        if region:
+            self._span_region, region_attribs = region
+            attributes['region'] = self._span_region
+            if self.write_inline_positioning:
+                attributes.update(region_attribs)
+
+        styles = ''.join(
+            f' {attribute}={quoteattr(str(value))}'
+            for attribute, value in attributes.items())
+        self.open_span = True
+        self._start_tag = f'<span{styles}>'
+        return line + self._start_tag
 
-        elif self.open_span:
-            line += '</span>'
-            self.open_span = False
+    def _close_span(self, line):
+        self.open_span = False
+        self._span_region = None
+        return line + '</span>'
+
+    def _assign_region(self, line, node, caption_set, caption, lang):
+        """Make sure that the text node, which is about to be written, is in
+        its own region, which is not necessarily that of the open style node or
+        that of the caption
+        """
+        caption_region = self.region_creator.get_positioning_info(
+            lang, caption_set, caption)
+        region = self._style_region or caption_region
+        if node.layout_info:
+            region = self.region_creator.get_positioning_info(
+                lang, caption_set, caption, node)
+
+        if region[0] == (self._span_region or caption_region[0]):
+            return line
+
+        line_breaks = ''
+        if self.open_span:
+            while line.endswith(LINE_BREAK):
+                line = line[:-len(LINE_BREAK)]
+                line_breaks += LINE_BREAK
+            if not self._span_region and line.endswith(self._start_tag):
+                line = line[:-len(self._start_tag)]
+                self.open_span = False
+            else:
+                line = self._close_span(line)
+            line += line_breaks
 
+        if region[0] == caption_region[0]:
+            region = None
+        if self._style_attributes or region:
+            line = self._open_span(line, self._style_attributes, region)
         return line
 
     def _encode(self, s):
-- 
2.43.0


From 20172ce99fc03c1203456447f9627ac9d172201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 48/55] fix: DFXP writers dropped a style which refers to one
 sorted after it

---
 pycaption/dfxp/base.py   | 24 +++++++++++++++++++++++-
 pycaption/dfxp/extras.py |  4 ++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index c5446a6..0e413c6 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -97,6 +97,28 @@ def get_unused_id(dfxp, new_id):
     return new_id
 
 
+def sort_styles(styles):
+    """Put every style after the one it refers to (it is dropped as unknown if
+    it is written before that one)
+
+    :param styles: list of tuples (name, dict of the style)
+    :rtype: list
+    """
+    by_name = dict(styles)
+    result = []
+
+    def add(name):
+        if name in by_name:
+            style = by_name.pop(name)
+            add(style.get('class'))
+            result.append((name, style))
+
+    for name, _ in styles:
+        add(name)
+
+    return result
+
+
 class DFXPFormatter(XMLFormatter):
     """Escapes the values of the attributes; the writers put the markup of the
     text together themselves, so that it must be left as it is.
@@ -401,7 +423,7 @@ class DFXPWriter(BaseWriter):
                         node.layout_info)
 
         # Create the styles in the <styling> section, or a default style.
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in sort_styles(caption_set.get_styles()):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index ced4bed..ae94720 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -8,7 +8,7 @@ from bs4 import BeautifulSoup
 
 from .base import (
     DFXPFormatter, DFXPWriter, DFXP_DEFAULT_REGION, get_style_id,
-    get_unused_id,
+    get_unused_id, sort_styles,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -106,7 +106,7 @@ class LegacyDFXPWriter(BaseWriter):
         dfxp = BeautifulSoup(LEGACY_DFXP_BASE_MARKUP, 'lxml-xml')
         dfxp.find('tt')['xml:lang'] = "en"
 
-        for style_id, style in caption_set.get_styles():
+        for style_id, style in sort_styles(caption_set.get_styles()):
             if style != {}:
                 dfxp = self._recreate_styling_tag(style_id, style, dfxp)
         if not caption_set.get_styles():
-- 
2.43.0


From 6a53a7f5aee3e883a5797c7f4924161a306376d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:07 +0000
Subject: [PATCH 49/55] fix: DFXP writer left the layout of a language in
 absolute units and unfitted

---
 pycaption/base.py      | 21 ++++++++++++---------
 pycaption/dfxp/base.py |  7 ++++++-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 91a42e9..8866ad2 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -78,16 +78,19 @@ class BaseWriter:
         self.video_height = video_height
         self.fit_to_screen = fit_to_screen
 
+    def _relativize(self, layout_info):
+        if layout_info and self.relativize:
+            # Transform absolute values (e.g. px) into percentages
+            layout_info = layout_info.as_percentage_of(
+                self.video_width, self.video_height
+            )
+        return layout_info
+
     def _relativize_and_fit_to_screen(self, layout_info):
-        if layout_info:
-            if self.relativize:
-                # Transform absolute values (e.g. px) into percentages
-                layout_info = layout_info.as_percentage_of(
-                    self.video_width, self.video_height
-                )
-            if self.fit_to_screen:
-                # Make sure origin + extent <= 100%
-                layout_info = layout_info.fit_to_screen()
+        layout_info = self._relativize(layout_info)
+        if layout_info and self.fit_to_screen:
+            # Make sure origin + extent <= 100%
+            layout_info = layout_info.fit_to_screen()
         return layout_info
 
     def write(self, content):
diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 0e413c6..d9073c6 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -414,10 +414,15 @@ class DFXPWriter(BaseWriter):
 
         # Loop through all captions/nodes and apply transformations to layout
         # in function of the provided or default settings
+        caption_set.layout_info = self._relativize(caption_set.layout_info)
         for lang in langs:
+            caption_set.set_layout_info(
+                lang, self._relativize(caption_set.get_layout_info(lang)))
+
             for caption in caption_set.get_captions(lang):
+                # the captions without a layout are in that of the language
                 caption.layout_info = self._relativize_and_fit_to_screen(
-                    caption.layout_info)
+                    caption.layout_info or caption_set.get_layout_info(lang))
                 for node in caption.nodes:
                     node.layout_info = self._relativize_and_fit_to_screen(
                         node.layout_info)
-- 
2.43.0


From 8a78d05cf661d9a3b2ae37e5b4218a00c30c4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:35 +0000
Subject: [PATCH 50/55] fix: SAMI writer lost the captions of a language when
 the ones before had none

---
 pycaption/sami.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index a0fddb0..05ba0b7 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -495,6 +495,8 @@ class SAMIWriter(BaseWriter):
             if later:
                 last_sync = later[0]
                 last_sync.insert_before(sync)
+            else:
+                sami.body.append(sync)
         return sami, sync
 
     def _recreate_blank_tag(self, sami, caption, lang, primary, captions):
-- 
2.43.0


From 2697a7c1fa6f12fc306b4449062c4045558ec29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 51/55] fix: SCC writer showed the first caption late by the
 time it takes to transmit

---
 pycaption/scc/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index ffef168..93947ad 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -564,12 +564,11 @@ class SCCWriter(BaseWriter):
         for index, (code, start, end) in enumerate(codes):
             code_words = len(code) / 5 + 8
             code_time_microseconds = code_words * MICROSECONDS_PER_CODEWORD
-            code_start = start - code_time_microseconds
-            if index == 0:
-                continue
-            previous_code, previous_start, previous_end = codes[index - 1]
-            if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
-                codes[index - 1] = (previous_code, previous_start, None)
+            code_start = max(0, start - code_time_microseconds)
+            if index > 0:
+                previous_code, previous_start, previous_end = codes[index - 1]
+                if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
+                    codes[index - 1] = (previous_code, previous_start, None)
             codes[index] = (code, code_start, end)
 
         # PASS 3:
-- 
2.43.0


From a06e4121f2ca2027b3421c09a03461c72dffb473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 52/55] fix: SCC writer broke lines at hyphens

---
 pycaption/scc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 93947ad..e6b39b5 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -588,7 +588,9 @@ class SCCWriter(BaseWriter):
     def _layout_line(caption):
         caption_text = "".join(caption.get_text_nodes())
         inner_lines = caption_text.split("\n")
-        inner_lines_laid_out = [textwrap.fill(x, 32) for x in inner_lines]
+        inner_lines_laid_out = [
+            textwrap.fill(x, 32, break_on_hyphens=False) for x in inner_lines
+        ]
         return "\n".join(inner_lines_laid_out)
 
     @staticmethod
-- 
2.43.0


From b7123026fd0ebdf9a2ff2b80de201a3c50706e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 53/55] fix: sizes with a trailing line break or non-ASCII
 digits were accepted

---
 pycaption/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index c03c9b0..483c730 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -503,9 +503,9 @@ class Size:
         :rtype: Size
         """
         size_pattern = re.compile(
-            r"^(((?P<value>\d+(\.\d+)?)(?P<unit>"
-            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)$")
-        match = size_pattern.search(string)
+            r"((?P<value>[0-9]+(\.[0-9]+)?)(?P<unit>"
+            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0")
+        match = size_pattern.fullmatch(string)
         if not match:
             raise CaptionReadSyntaxError(
                 f"Invalid size: {string}. Please make sure the provided value "
-- 
2.43.0


From 07b046f0d1046dd8bd0a0486d2d95f00d6e9f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:54 +0000
Subject: [PATCH 54/55] fix: SRT detection raised on a single line of digits

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 379bc9c..ce9a6b9 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -9,7 +9,7 @@ from .exceptions import CaptionReadNoCaptions, InvalidInputError
 class SRTReader(BaseReader):
     def detect(self, content):
         lines = content.splitlines()
-        if lines[0].isdigit() and '-->' in lines[1]:
+        if len(lines) > 1 and lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
             return False
-- 
2.43.0


From 68582dbbf30f68e37a49ab50b0bd145e86a6465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:54 +0000
Subject: [PATCH 55/55] fix: SRT output began with the separator when the first
 language has no captions

---
 pycaption/srt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index ce9a6b9..5f202b9 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -89,9 +89,10 @@ class SRTWriter(BaseWriter):
         srt_captions = []
 
         for lang in caption_set.get_languages():
-            srt_captions.append(
-                self._recreate_lang(caption_set.get_captions(lang))
-            )
+            captions = caption_set.get_captions(lang)
+            # a language without captions has nothing to separate
+            if captions:
+                srt_captions.append(self._recreate_lang(captions))
 
         caption_content = 'MULTI-LANGUAGE SRT\n'.join(srt_captions)
         return caption_content
-- 
2.43.0

