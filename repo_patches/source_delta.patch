From 9eef58dffcc0f162a75911f99194bf3c57816a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 001/132] fix: quote values beginning with loop_/stop_ and
 values holding Unicode white space

---
 src/StarFile.nw | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f4e6e89..9d5e7a3 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2724,7 +2724,7 @@ We have to catch empty strings as well, which are legal.  Another gotcha
 concerns 'embedded' strings; if the datavalue begins with a quote, it
 will be output verbatim (and misunderstood) unless spaces elsewhere
 force quotation.  Note that non-delimited strings may not start with
-a reserved word ('data','save','global').
+a reserved word (`data',`save',`global',`loop_',`stop_').
 
 The caller is allowed to request a particular delimiter, with 'None'
 corresponding to no delimiter and the choices being apostrophe,
@@ -2748,12 +2748,16 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
     if len(instring) > (self.maxoutlength-2) or '\n' in instring:
             allowed_delimiters.intersection_update(["\n;","'''",'"""'])
     [allowed_delimiters.difference_update([None]) for k in '[]{}\v\t ,' if k in instring]
+    if re.search(r'\s',instring,flags=re.U) is not None:   #all whitespace, not just ASCII
+            allowed_delimiters.difference_update([None])
     if len(instring)>0 and instring[0] in '_$#;(':
             allowed_delimiters.difference_update([None])
     if len(instring)>3 and (instring[:4].lower()=='data' or instring[:4].lower()=='save'):
             allowed_delimiters.difference_update([None])
     if len(instring)>5 and instring[:6].lower()=='global':
             allowed_delimiters.difference_update([None])
+    if instring[:5].lower() in ('loop_','stop_'):
+            allowed_delimiters.difference_update([None])
     if '"' in instring: allowed_delimiters.difference_update(['"',None])
     if "'" in instring: allowed_delimiters.difference_update(["'",None])
     out_delimiter = "\n;"  #default (most conservative)
-- 
2.43.0


From 74136174276e54ba14aa39287a6d964569b873f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 002/132] fix: keep text values that look like line folding or
 prefix headers intact

---
 src/StarFile.nw | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 9d5e7a3..26a3780 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2770,7 +2770,7 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
     # we are left with semicolon strings
     # use our protocols:
     maxlinelength = max([len(a) for a in instring.split('\n')])
-    if maxlinelength > self.maxoutlength:
+    if maxlinelength > self.maxoutlength or looks_like_protocol(instring):
         protocol_string = apply_line_folding(instring)
     else:
         protocol_string = instring
@@ -2830,13 +2830,13 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
     # first check that we need to do this
     lines = instring.split('\n')
     line_len = [len(l) for l in lines]
-    if max(line_len) < maxwraplength and re.match("\\[ \v\t\f]*\n",instring) is None:
+    if max(line_len) < maxwraplength and not looks_like_protocol(instring):
         return instring
     outstring = "\\\n"   #header
     for l in lines:
         if len(l) < maxwraplength:
             outstring = outstring + l
-            if len(l) > 0 and l[-1]=='\\': #who'da thunk it?  A line ending with a backslash
+            if re.search(r"\\[ \v\t\f]*$",l) is not None: #who'da thunk it?  A line ending with a backslash
                     outstring = outstring + "\\\n"  #
             outstring = outstring + "\n"  #  put back the split character
         else:
@@ -2850,12 +2850,20 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
                     outstring = outstring + current_bit[:maxwraplength-1] + "\\\n"
                     current_bit = current_bit[maxwraplength-1:]
             outstring = outstring + current_bit
-            if current_bit[-1] == '\\':  #a backslash just happens to be here
+            if re.search(r"\\[ \v\t\f]*$",current_bit) is not None:  #a backslash just happens to be here
                 outstring = outstring + "\\\n"
             outstring = outstring + '\n'
     outstring = outstring[:-1]  #remove final newline
     return outstring
 
+@ A text value whose first line looks like the header of one of these protocols would be
+altered when read back in, so such values are always folded.
+
+<<Detect protocol headers>>=
+def looks_like_protocol(instring):
+    """True if `instring` begins like line folded or line prefixed text"""
+    return re.match(r"[^\n]*\\[ \v\t\f]*\n",instring) is not None
+
 @  Believe it or not, a final backslash followed by whitespace is also considered
 to be part of the line folding protocol, even though the last line obviously cannot
 be folded together with the next line as there is no next line.
@@ -2905,8 +2913,10 @@ replacement in case the prefix contains significant characters.
 <<Remove line indent>>=
 def remove_line_prefix(instring):
     """Remove prefix from every line if present"""
-    prefix_match = re.match("(?P<prefix>[^;\\\n][^\n\\\\]+)(?P<folding>\\\\{1,2}[ \t\v\f]*\n)",instring)
-    if prefix_match is not None:
+    prefix_match = re.match("(?P<prefix>[^;\\\\\n][^\n\\\\]*)(?P<folding>\\\\{1,2}[ \t\v\f]*\n)",instring)
+    # the protocol is only in use if every line has the prefix
+    if prefix_match is not None and \
+       all([a.startswith(prefix_match.group('prefix')) for a in instring.split('\n')]):
         prefix_text = prefix_match.group('prefix')
         print('Found prefix %s' % prefix_text)
         prefix_end = prefix_match.end('folding')
@@ -3251,6 +3261,7 @@ use.
 
 <<Utility functions>>=
 <<Apply line folding>>
+<<Detect protocol headers>>
 <<Remove line folding>>
 <<Apply line indent>>
 <<Remove line indent>>
-- 
2.43.0


From 748bf1d62b62721835fdb9ab54fc51ef93f2a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 003/132] fix: honour wraplength and maxoutlength when writing
 out files

---
 src/StarFile.nw | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 26a3780..82ca6b2 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -843,8 +843,8 @@ initialising the file.
         `saves_after` inserts all save frames after the given dataname,
         which allows less important items to appear later.  Useful in conjunction with a
         template for dictionary files."""
-        if maxoutlength != 0:
-            self.SetOutputLength(maxoutlength)
+        if maxoutlength == 0:
+            maxoutlength = getattr(self,'maxoutlength',2048)
         if not comment:
             comment = self.header_comment
         outstring = StringIO()
@@ -855,7 +855,7 @@ initialising the file.
         for b in self.dictionary.values():
             b.set_grammar(self.grammar)
             b.formatting_hints = self.master_template
-            b.SetOutputLength(wraplength,self.maxoutlength)
+            b.SetOutputLength(min(wraplength,maxoutlength),maxoutlength)
         # loop over top-level
         # monitor output
         all_names = list(self.child_table.keys())   #i.e. lower case
@@ -2453,11 +2453,15 @@ class CIFStringIO(StringIO):
             if not delimiter and outstring[0]!='\n':          #ie <cr>;
               if canbreak:
                 temp_string = '\n' + ' ' * self.indentlist[-1]
+                if self.indentlist[-1]+len(outstring)>self.target_width:
+                    temp_string = '\n'      #needs all of the line
                 StringIO.write(self,temp_string)
-                self.currentpos = self.indentlist[-1]
+                self.currentpos = len(temp_string)-1
                 self.last_char = temp_string[-1]
-            else:        #assume a break will be forced on next value
-                output_delimiter = False    #the line break becomes the delimiter
+            elif delimiter and self.last_char not in [' ','\n','\t']:
+                StringIO.write(self,'\n')    #the line break becomes the delimiter
+                self.currentpos = 0
+                self.last_char = '\n'
         #try to match requested column
         if startcol > 0:
             if self.currentpos < startcol:
@@ -2471,6 +2475,9 @@ class CIFStringIO(StringIO):
         if self.tabwidth >0 and do_tab and startcol < 0:
             next_stop = ((self.currentpos//self.tabwidth)+1)*self.tabwidth
             #print 'Currentpos %d: Next tab stop at %d' % (self.currentpos,next_stop)
+            # skip the tab if we would overflow, provided we are already separated
+            if next_stop+len(outstring) > self.target_width and canbreak and self.last_char in [' ','\n','\t']:
+                next_stop = self.currentpos
             if self.currentpos < next_stop:
                 StringIO.write(self,(next_stop-self.currentpos)*' ')
                 self.currentpos = next_stop
@@ -2570,7 +2577,7 @@ def printsection(self,instring='',blockstart="",blockend="",indent=0,finish_at='
     self.create_ordering(finish_at,start_from)  #create self.output_order
     # now do it...
     if not instring:
-        outstring = CIFStringIO(target_width=80)       # the returned string
+        outstring = CIFStringIO(target_width=self.wraplength)       # the returned string
     else:
         outstring = instring
     # print block delimiter
@@ -2701,7 +2708,7 @@ def format_packet_item(self,pack_item,indent,outstring,format_hint):
        if isinstance(pack_item,unicode):
            delimiter = format_hint.get('delimiter',None)
            startcol = format_hint.get('column',-1)
-           outstring.write(self._formatstring(pack_item,delimiter=delimiter),startcol=startcol)
+           outstring.write(self._formatstring(pack_item,delimiter=delimiter),canbreak=True,startcol=startcol)
        else:
            self.format_value(pack_item,outstring,hints = format_hint)
 
@@ -2745,7 +2752,9 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
         instring = "\n"+self.do_wrapping(instring,hints["reformat_indent"])
     allowed_delimiters = set(self.string_delimiters)
     if len(instring)==0: allowed_delimiters.difference_update([None])
-    if len(instring) > (self.maxoutlength-2) or '\n' in instring:
+    if len(instring) > (self.maxoutlength-2):
+            allowed_delimiters.intersection_update(["\n;"])
+    if '\n' in instring:
             allowed_delimiters.intersection_update(["\n;","'''",'"""'])
     [allowed_delimiters.difference_update([None]) for k in '[]{}\v\t ,' if k in instring]
     if re.search(r'\s',instring,flags=re.U) is not None:   #all whitespace, not just ASCII
@@ -2769,9 +2778,12 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
     elif out_delimiter is None: return instring
     # we are left with semicolon strings
     # use our protocols:
-    maxlinelength = max([len(a) for a in instring.split('\n')])
+    # allowing for the opening semicolon and for any prefix
+    maxlinelength = max([len(a) for a in ("\n;"+instring).split('\n')])
+    if "\n;" in instring: maxlinelength += 20
     if maxlinelength > self.maxoutlength or looks_like_protocol(instring):
-        protocol_string = apply_line_folding(instring)
+        foldlength = max(min(80,self.maxoutlength-20),20)
+        protocol_string = apply_line_folding(instring,3*foldlength//4,foldlength)
     else:
         protocol_string = instring
     # now check for embedded delimiters
-- 
2.43.0


From 0ecf30ee43b5c23226f82cb857e597430c40fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 004/132] fix: keep empty-list loop values, reject nameless
 loops, and fill the right block after a save frame of the same name

---
 src/YappsStarParser.nw | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index e156e9c..5295a17 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -122,13 +122,14 @@ def striptriple(value):
 # helper function to populate a StarBlock given a list of names
 # and values .
 #
-# Note that there may be an empty list at the very end of our itemlists,
-# so we remove that if necessary.
+# Note that an empty list in itemlists is a genuine (CIF2/STAR2) data value,
+# and is kept.
 #
 
 def makeloop(target_block,loopdata):
     loop_seq,itemlists = loopdata
-    if itemlists[-1] == []: itemlists.pop(-1)
+    if len(loop_seq) == 0:
+        raise ValueError('Loop has no datanames')
     # print('Making loop with %s' % repr(itemlists))
     step_size = len(loop_seq)
     for col_no in range(step_size):
@@ -416,7 +417,7 @@ rule input@<<prepared>>: ( ((
 
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=stored_block)}}
                       )*
@@ -428,7 +429,7 @@ whereas CIF2 has space-separated elements.
 <<STAR2-specific grammar>>=
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=stored_block)}}
                       )*
@@ -459,7 +460,7 @@ whereas CIF2 has space-separated elements.
 <<CIF2-specific grammar>>=
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       )*
                       save_end           {{return monitor('save_frame',savebc)}}
 
@@ -507,12 +508,12 @@ rule input@<<prepared>>: ( ((
 
     rule dblock@<<prepared>>: ( data_heading {{heading = data_heading[5:];thisbc=StarFile(characterset='unicode',standard=prepared.standard);newname = thisbc.NewBlock(heading,prepared.blocktype(overwrite=False));act_block=thisbc[newname]}}# a data heading
                   (
-                   dataseq@<<thisbc[heading]>>
+                   dataseq@<<act_block>>
                   |
                   save_frame@<<prepared>>     {{thisbc.merge_fast(save_frame,parent=act_block)}}
                   )*
 # A trick to force rechecking of all datanames, which was skipped by the precheck = True option below
-                   )                      {{thisbc[heading].setmaxnamelength(thisbc[heading].maxnamelength);return (monitor('dblock',thisbc))}} # but may be empty
+                   )                      {{act_block.setmaxnamelength(act_block.maxnamelength);return (monitor('dblock',thisbc))}} # but may be empty
 
      rule dataseq@<<starblock>>:  data@<<starblock>>
 		       (
@@ -560,7 +561,7 @@ rule input@<<prepared>>: ( ((
 
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile();newname=savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));act_block=savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<act_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=act_block)}}
                       )*
-- 
2.43.0


From 6d004b1c3c27c74684b0df18e6f6f9cb988ded0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 005/132] fix: quote table keys according to their contents

---
 src/StarFile.nw | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 82ca6b2..746ce98 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2398,6 +2398,7 @@ grammar to use.
 <<Format a single packet item>>
 <<Format a string>>
 <<Format a data value>>
+<<Format a table key>>
 <<Create a proper ordering>>
 <<Convert value to string>>
 <<Do wrapping>>
@@ -2645,11 +2646,11 @@ def format_value(self,itemvalue,stringsink,compound=False,hints={}):
        stringsink.write('{',newindent=True,mustbreak=compound,startcol=startcol)  #start a new line inside
        items = list(itemvalue.items())
        if len(items)>0:
-           stringsink.write("'"+items[0][0]+"'"+':',canbreak=True)
+           stringsink.write(self.format_key(items[0][0])+':',canbreak=True)
            self.format_value(items[0][1],stringsink)
            for key,value in items[1:]:
                stringsink.write(self.list_delimiter)
-               stringsink.write("'"+key+"'"+":",canbreak=True)
+               stringsink.write(self.format_key(key)+":",canbreak=True)
                self.format_value(value,stringsink)   #never break between key and value
        stringsink.write('}',unindent=True)
     elif isinstance(itemvalue,(float,int,long)) or \
@@ -2658,6 +2659,19 @@ def format_value(self,itemvalue,stringsink,compound=False,hints={}):
     else:
        raise ValueError('Value in unexpected format for output: %s' % repr( itemvalue ))
 
+@ Table keys are always quoted, using the first delimiter that does not occur in the key.
+
+<<Format a table key>>=
+def format_key(self,key):
+    """Return the delimited form of a table key"""
+    for delim in ["'",'"']:
+        if delim not in key and '\n' not in key:
+            return delim + key + delim
+    for delim in ["'''",'"""']:
+        if delim not in key and key[-1:] != delim[0]:
+            return delim + key + delim
+    raise StarError("Table key cannot be delimited: %s" % repr(key))
+
 @ Formatting a loop section.  We are passed an indent and destination string,
 and are expected to append a list of item names to the string indented by
 the indicated number of spaces.  If we have loops, we add those in too.
-- 
2.43.0


From 429271621f064866b15d82290078fdf6c4874a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 006/132] fix: do not drop text-field lines that begin with a
 hash

---
 src/YappsStarParser.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 5295a17..3c64a7a 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -222,7 +222,7 @@ token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|
 # first handle whitespace and comments, keeping whitespace
 # before a semicolon
 ignore: "([ \t\n\r](?!;))|[ \t]"
-ignore: "(#.*[\n\r](?!;))|(#.*)"
+ignore: "(#.*)"
 # now the tokens
 token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_"        # loop_
 token GLOBAL: "(G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_"
@@ -266,7 +266,7 @@ as such.
 # first handle whitespace and comments, keeping whitespace
 # before a semicolon
 ignore: "([ \t\n\r](?!;))|[ \t]"
-ignore: "(#.*[\n\r](?!;))|(#.*)"
+ignore: "(#.*)"
 # now the tokens
 token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_"        # loop_
 token GLOBAL: "(G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_"
@@ -287,7 +287,7 @@ token END: '$'
 # first handle whitespace and comments, keeping whitespace
 # before a semicolon
 ignore: "([ \t\n\r](?!;))|[ \t]"
-ignore: "(#.*[\n\r](?!;))|(#.*)"
+ignore: "(#.*)"
 # now the tokens
 token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_"        # loop_
 token GLOBAL: "(G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_"
-- 
2.43.0


From f4782ee026ac18654b1266c0e0de27d25ffbe7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 007/132] fix: treat CR and CRLF as line terminators wherever a
 file comes from

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 746ce98..e5669e0 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1105,6 +1105,8 @@ def ReadStar(filename,prepared = None, maxlength=-1,
     endoffile = text.find(chr(26))
     if endoffile >= 0:
         text = text[:endoffile]
+    # all line terminators are equivalent
+    text = text.replace('\r\n','\n').replace('\r','\n')
     split = text.split('\n')
     if maxlength > 0:
         toolong = [a for a in split if len(a)>maxlength]
-- 
2.43.0


From e9c5e9e5a122263a75f960fb64bce442d614a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 008/132] fix: accept unquoted CIF1.1 values beginning with a
 brace, as documented

---
 src/YappsStarParser.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 3c64a7a..2d9246e 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -278,7 +278,7 @@ token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
 token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\{\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
 
 @ The original CIF specification allowed brackets to begin data values, even if not quoted.  That is the only difference.
-- 
2.43.0


From b110f371bbf86eeabfc138ba0dcb4cc6b3721ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 009/132] fix: fold lines no later than the requested width

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e5669e0..e6fd43f 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2871,7 +2871,7 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
             current_bit = l
             while len(current_bit) > maxwraplength:
                 space_pos = re.search('[ \v\f\t]+',current_bit[minwraplength:])
-                if space_pos is not None and space_pos.start()<maxwraplength-1:
+                if space_pos is not None and minwraplength+space_pos.start()<maxwraplength-1:
                     outstring = outstring + current_bit[:minwraplength+space_pos.start()] + "\\\n"
                     current_bit = current_bit[minwraplength+space_pos.start():]
                 else:    #just blindly insert
-- 
2.43.0


From d9816050b0a490ea09be8e14690eeccfd512df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 010/132] fix: keep folded lines within the width when they end
 in a backslash

---
 src/StarFile.nw | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e6fd43f..83446e7 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2869,7 +2869,9 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
             outstring = outstring + "\n"  #  put back the split character
         else:
             current_bit = l
-            while len(current_bit) > maxwraplength:
+            # a protected backslash at the end takes one more character
+            protect = re.search(r"\\[ \v\t\f]*$",l) is not None
+            while len(current_bit) + protect > maxwraplength:
                 space_pos = re.search('[ \v\f\t]+',current_bit[minwraplength:])
                 if space_pos is not None and minwraplength+space_pos.start()<maxwraplength-1:
                     outstring = outstring + current_bit[:minwraplength+space_pos.start()] + "\\\n"
@@ -2878,7 +2880,7 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
                     outstring = outstring + current_bit[:maxwraplength-1] + "\\\n"
                     current_bit = current_bit[maxwraplength-1:]
             outstring = outstring + current_bit
-            if re.search(r"\\[ \v\t\f]*$",current_bit) is not None:  #a backslash just happens to be here
+            if protect:  #a backslash just happens to be here
                 outstring = outstring + "\\\n"
             outstring = outstring + '\n'
     outstring = outstring[:-1]  #remove final newline
-- 
2.43.0


From 7a36ca403ae364ba1bec5f9766ebf687f515c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 011/132] fix: return the (empty) file object when the input is
 empty

---
 src/StarFile.nw | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 83446e7..8d6ab96 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1092,7 +1092,8 @@ def ReadStar(filename,prepared = None, maxlength=-1,
                     raise StarError("Bad input encoding (must be utf8 or ascii)")
         my_uri = ""
     if not text:      # empty file, return empty block
-        return prepared.set_uri(my_uri)
+        prepared.set_uri(my_uri)
+        return prepared
     # filter out non-ASCII characters in CBF files if required.  We assume
     # that the binary is enclosed in a fixed string that occurs
     # nowhere else.
-- 
2.43.0


From 6c4991a019232db4646578cc125bbf9ac8e1c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 012/132] fix: compiled scanner no longer fails with
 SystemError on non-ASCII input

---
 src/lib/py_star_scan.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index 46aeae3..08f57b5 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -126,6 +126,11 @@ save_str = (char *) malloc((yyleng+1)*sizeof(char *));
 /* printf("Got memory for string %s length %d at %x\n",yytext,yyleng+1,save_str);*/
 strncpy(save_str,yytext,yyleng+1);
 value_list[current_len] = PyUnicode_FromString(save_str); /* new reference */
+if(value_list[current_len]==NULL) { /* part of a multi-byte character, reported as a bad token */
+    PyErr_Clear();
+    value_list[current_len] = PyUnicode_DecodeUTF8(save_str,strlen(save_str),"replace");
+    }
+free(save_str);
 token_list[current_len] = tok_id;
 line_no_list[current_len] = yylineno;
 current_len++;
-- 
2.43.0


From 57462bfb0119d2fde29ee451dc66f65292ef85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 013/132] fix: do not take a bare loop_ keyword as a data value

---
 src/YappsStarParser.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 2d9246e..37d8a92 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -216,7 +216,7 @@ removed when PyCIFRW is ported to Python 3.
 <<Regular expressions STAR2>>=
 <<STAR2-CIF2 common regular expressions block 1>>
 <<STAR2-CIF2 common regular expressions block 2>>
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$',_\{\}\[\]][^\s,\{\}\[\]]*)"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?!\S))))[^\s\"#$',_\{\}\[\]][^\s,\{\}\[\]]*)"
 
 <<STAR2-CIF2 common regular expressions block 1>>=
 # first handle whitespace and comments, keeping whitespace
@@ -256,7 +256,7 @@ token END: '$'
 
 <<Regular expressions CIF2>>=
 <<STAR2-CIF2 common regular expressions block 1>>
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\{\}\[\]][^\s\{\}\[\]]*)"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?!\S))))[^\s\"#$'_\{\}\[\]][^\s\{\}\[\]]*)"
 <<STAR2-CIF2 common regular expressions block 2>>
 
 @ CIF 1.1 does not allow unquoted data values to begin with a bracket character, but does not have bracket expressions
@@ -278,7 +278,7 @@ token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
 token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?!\S))))[^\s\"#$'_\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
 
 @ The original CIF specification allowed brackets to begin data values, even if not quoted.  That is the only difference.
@@ -299,7 +299,7 @@ token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
 token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?!\S))))[^\s\"#$'_][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
 
 @
-- 
2.43.0


From b29f535680e41c868c2991bd6f64c24f3bc40e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 014/132] fix: reject surplus delimiters after CIF2/STAR2
 quoted strings

---
 src/YappsStarParser.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 37d8a92..3fafa45 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -245,7 +245,7 @@ token dat_val_internal_sq: "\[([^\s\[\]]*)\]"
 # This token for triple-quote delimited strings must come before single-quote delimited strings to avoid the opening quotes being
 # interpreted as a single-quote delimited string
 token triple_quote_data_value: "(?s)'''.*?'''|\"\"\".*?\"\"\""
-token single_quote_data_value: "'([^\n\r\f'])*'+|\"([^\n\r\"])*\"+"
+token single_quote_data_value: "'([^\n\r\f'])*'|\"([^\n\r\"])*\""
 
 @ Currently just a single line but we allow a whole block just in case.
 
-- 
2.43.0


From 729216b6ff22c7ae26aca0c8ec8463533a9e671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 015/132] fix: reject repeated sibling save frames and
 over-long names inside save frames

---
 src/StarFile.nw        | 4 +++-
 src/YappsStarParser.nw | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 8d6ab96..6a6e0d4 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -704,7 +704,9 @@ def merge_fast(self,new_bc,parent=None):
         for dup_key in double_keys:
               our_parent = self.child_table[dup_key].parent
               their_parent = new_bc.child_table[dup_key].parent
-              if (our_parent is None and their_parent is not None and parent is None) or\
+              if parent is not None and their_parent is None and our_parent == parent_name:
+                raise StarError("In strict merge mode:duplicate save frames %s" % dup_key)
+              elif (our_parent is None and their_parent is not None and parent is None) or\
                   parent is not None:  #rename our block
                 start_key = dup_key
                 while start_key in self.lower_keys: start_key = start_key+'+'
diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 3fafa45..974ef3a 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -421,7 +421,7 @@ rule input@<<prepared>>: ( ((
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=stored_block)}}
                       )*
-                      save_end           {{return monitor('save_frame',savebc)}}
+                      save_end           {{stored_block.setmaxnamelength(stored_block.maxnamelength);return monitor('save_frame',savebc)}}
 
 @  STAR2 specifies nested save frames and comma-separated list and table elements,
 whereas CIF2 has space-separated elements.
@@ -433,7 +433,7 @@ whereas CIF2 has space-separated elements.
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=stored_block)}}
                       )*
-                      save_end           {{return monitor('save_frame',savebc)}}
+                      save_end           {{stored_block.setmaxnamelength(stored_block.maxnamelength);return monitor('save_frame',savebc)}}
 
      rule square_bracket_expr: o_s_b            {{this_list = []}}
                             (  data_value       {{this_list.append(data_value)}}
@@ -462,7 +462,7 @@ whereas CIF2 has space-separated elements.
                       (
                       dataseq@<<stored_block>>
                       )*
-                      save_end           {{return monitor('save_frame',savebc)}}
+                      save_end           {{stored_block.setmaxnamelength(stored_block.maxnamelength);return monitor('save_frame',savebc)}}
 
 
       rule square_bracket_expr: o_s_b            {{this_list = []}}
@@ -565,7 +565,7 @@ rule input@<<prepared>>: ( ((
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=act_block)}}
                       )*
-                      save_end           {{return monitor('save_frame',savebc)}}
+                      save_end           {{act_block.setmaxnamelength(act_block.maxnamelength);return monitor('save_frame',savebc)}}
 
 
 @  Python 2/3 compatibility. We try to keep the code as
-- 
2.43.0


From 403749ecc19cf8afd3a3f00a822dca0456b724ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 016/132] fix: detect repeated save frames at every nesting
 level

---
 src/YappsStarParser.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 974ef3a..9119684 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -415,7 +415,7 @@ rule input@<<prepared>>: ( ((
                        )*
 		       )	      {{return dataloop}}
 
-     rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
+     rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode',standard=prepared.standard);newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
                       dataseq@<<stored_block>>
                       |
@@ -427,7 +427,7 @@ rule input@<<prepared>>: ( ((
 whereas CIF2 has space-separated elements.
 
 <<STAR2-specific grammar>>=
-     rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
+     rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode',standard=prepared.standard);newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
                       dataseq@<<stored_block>>
                       |
@@ -458,7 +458,7 @@ whereas CIF2 has space-separated elements.
 
 
 <<CIF2-specific grammar>>=
-     rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
+     rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode',standard=prepared.standard);newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
                       dataseq@<<stored_block>>
                       )*
@@ -559,7 +559,7 @@ rule input@<<prepared>>: ( ((
                        )*
 		       )	      {{return dataloop}}
 
-     rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile();newname=savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));act_block=savebc[newname] }} 
+     rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(standard=prepared.standard);newname=savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));act_block=savebc[newname] }} 
                       (
                       dataseq@<<act_block>>
                       |
-- 
2.43.0


From e2207b05b104b6d541de6e16834e16c02407b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 017/132] fix: accept same-named save frames in different data
 blocks under instance scoping

---
 src/StarFile.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 6a6e0d4..b924675 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -422,7 +422,7 @@ def get_children(self,blockname,include_parent=False,scoping='dictionary'):
     True, the parent block will also be included in the block collection as the root."""
     newbc = BlockCollection()
     block_lower = blockname.lower()
-    proto_child_table = [a for a in self.child_table.items() if self.is_child_of_parent(block_lower,a[1].block_id)]
+    proto_child_table = [a for a in self.child_table.items() if self.is_child_of_parent(block_lower,a[0])]
     newbc.child_table = dict(proto_child_table)
     if not include_parent:
        newbc.child_table.update(dict([(a[0],self.PC(a[1].block_id,None)) for a in proto_child_table if a[1].parent == block_lower]))
@@ -713,9 +713,10 @@ def merge_fast(self,new_bc,parent=None):
                 self._rekey(dup_key,start_key)
                 if parent_name.lower() == dup_key:  #we just renamed the prospective parent!
                     parent_name = start_key
-              elif our_parent is not None and their_parent is None and parent is None:
+              elif our_parent is not None and parent is None and \
+                   (their_parent is None or self.scoping == 'instance'):   #rename their block
                 start_key = dup_key
-                while start_key in new_bc.lower_keys: start_key = start_key+'+'
+                while start_key in new_bc.lower_keys or start_key in self.lower_keys: start_key = start_key+'+'
                 new_bc._rekey(dup_key,start_key)
               else:
                 raise StarError("In strict merge mode:duplicate keys %s" % dup_key)
-- 
2.43.0


From 199bffd0c988fbfdab7b3977b90c2add43d849b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 018/132] fix: ReadStar works without a prepared object

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index b924675..4a585ad 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1033,14 +1033,14 @@ def ReadStar(filename,prepared = None, maxlength=-1,
 
     """
 
-    # save desired scoping
-    save_scoping = prepared.scoping
     from . import YappsStarParser_1_1 as Y11
     from . import YappsStarParser_1_0 as Y10
     from . import YappsStarParser_2_0 as Y20
     from . import YappsStarParser_STAR2 as YST
     if prepared is None:
         prepared = StarFile()
+    # save desired scoping
+    save_scoping = prepared.scoping
     if grammar == "auto" or grammar is None:
         try_list = [('2.0',Y20),('1.1',Y11),('1.0',Y10)]
     elif grammar == '1.0':
-- 
2.43.0


From 968d8d1ddca52edd7531ff441f7c9260c62f9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 019/132] fix: permissive reading decodes the data instead of
 an exhausted stream

---
 src/StarFile.nw | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 4a585ad..e5e29ee 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1072,11 +1072,12 @@ def ReadStar(filename,prepared = None, maxlength=-1,
             my_uri = urlunparse(relpath)
         # print("Full URL is: " + my_uri)
         filestream = urlopen(my_uri)
+        raw_text = filestream.read()
         try:
-            text = filestream.read().decode('utf-8-sig')
+            text = raw_text.decode('utf-8-sig')
         except UnicodeDecodeError:
             if permissive:
-                text = filestream.read().decode('latin1')
+                text = raw_text.decode('latin1')
                 print("WARNING: %s violates standard (latin1 encoding instead of UTF8)." % filename)
             else:
                 raise StarError("%s: bad encoding (must be utf8 or ascii)" % filename)
@@ -1085,11 +1086,12 @@ def ReadStar(filename,prepared = None, maxlength=-1,
         filestream = filename   #already opened for us
         text = filestream.read()
         if not isinstance(text,unicode):
+            raw_text = text
             try:
-                text = text.decode('utf-8-sig')  #CIF is always ascii/utf8
+                text = raw_text.decode('utf-8-sig')  #CIF is always ascii/utf8
             except UnicodeDecodeError:
                 if permissive:
-                    text = filestream.read().decode('latin1')
+                    text = raw_text.decode('latin1')
                     print("WARNING: text violates CIF standard (latin1 encoding instead of UTF8)")
                 else:
                     raise StarError("Bad input encoding (must be utf8 or ascii)")
-- 
2.43.0


From 9625429c197e95841ea04d2e0b6a1ed1fa510728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 020/132] fix: forget blocks of an unsuccessful grammar attempt
 in auto mode

---
 src/StarFile.nw | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e5e29ee..3040df4 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1124,7 +1124,12 @@ def ReadStar(filename,prepared = None, maxlength=-1,
         try_list.remove(('2.0',Y20),)
         if not try_list:
             raise StarError('File %s missing CIF2.0 header' % (filename))
+    # an unsuccessful attempt must not leave its blocks behind
+    contents = ('dictionary','lower_keys','child_table','visible_keys','block_input_order')
+    original = [(a,getattr(prepared,a).copy()) for a in contents]
     for grammar_name,Y in try_list:
+       for attr_name,attr_value in original:
+           setattr(prepared,attr_name,attr_value.copy())
        if scantype == 'standard' or grammar_name in ['2.0','STAR2']:
             parser = Y.StarParser(Y.StarParserScanner(text))
        else:
-- 
2.43.0


From 1a4c07bcf904c09c1fbcb61ac21dda961f5d9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 021/132] fix: ChangeItemOrder accepts loop numbers, as
 documented

---
 src/StarFile.nw | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 3040df4..823eda2 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1699,9 +1699,10 @@ def ChangeItemOrder(self,itemname,newpos):
     in a loop, `newpos` refers to the order within the loop."""
     if isinstance(itemname,(unicode,str)):
         true_name = itemname.lower()
-    else:
+        loopno = self.FindLoop(true_name)
+    else:           #a loop number
         true_name = itemname
-    loopno = self.FindLoop(true_name)
+        loopno = -1
     if loopno < 0:  #top level
         self.item_order.remove(true_name)
         self.item_order.insert(newpos,true_name)
-- 
2.43.0


From 025a1dc4b83a092216a04437b22ea24a640a75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 022/132] fix: AddLoopName refuses unlisted values and removes
 emptied loops

---
 src/StarFile.nw | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 823eda2..3896da6 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2116,10 +2116,16 @@ def AddLoopName(self,oldname, newname):
     self.provide_value = False
     loop_len = len(self[oldname])
     self.provide_value = old_provides
-    if len(self[newname]) != loop_len:
+    new_value = self[newname]
+    if not isinstance(new_value,list) or isinstance(new_value,StarList) or len(new_value) != loop_len:
         raise StarLengthError('Mismatch of loop column lengths for %s: should be %d' % (newname,loop_len))
-    # remove from any other loops
-    [self.loops[a].remove(lower_newname) for a in self.loops if lower_newname in self.loops[a]]
+    # remove from any other loops, together with any loop emptied by this
+    old_loop = self.FindLoop(newname)
+    if old_loop >= 0:
+        self.loops[old_loop].remove(lower_newname)
+        if len(self.loops[old_loop])==0:
+            del self.loops[old_loop]
+            self.item_order.remove(old_loop)
     # and add to this loop
     self.loops[loop_no].append(lower_newname)
     # remove from item_order if present
-- 
2.43.0


From ec90830da62377abc888861593bfa0faf7f29a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 023/132] fix: CreateLoop places the loop at the requested
 position

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 3896da6..9249f49 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2074,12 +2074,12 @@ def CreateLoop(self,datanames,order=-1,length_check=True):
        else:
            loopno = 1
        self.loops[loopno] = list(lc_datanames)
+       # remove these datanames from item ordering
+       self.item_order = [a for a in self.item_order if a not in lc_datanames]
        if order >= 0:
            self.item_order.insert(order,loopno)
        else:
            self.item_order.append(loopno)
-       # remove these datanames from item ordering
-       self.item_order = [a for a in self.item_order if a not in lc_datanames]
 
 @  Removing a loop. The looped names are not removed, but will cause chaos on output
 unless they are placed into a different loop or deleted.
-- 
2.43.0


From 53df2f18be62be44d19e42149cffd07033559460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 024/132] fix: RemoveKeyedPacket works on loops read from files

---
 src/StarFile.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 9249f49..655fc0b 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2393,10 +2393,10 @@ def RemoveKeyedPacket(self,keyname,keyvalue):
     packet_coord = list(self[keyname]).index(keyvalue)
     loopnames = self.GetLoopNames(keyname)
     for dataname in loopnames:
-        self.block[dataname][0] = list(self.block[dataname][0])
-        del self.block[dataname][0][packet_coord]
-        self.block[dataname][1] = list(self.block[dataname][1])
-        del self.block[dataname][1][packet_coord]
+        for i in (0,1):
+            if self.block[dataname][i] is not None: #e.g. read from a file
+                self.block[dataname][i] = list(self.block[dataname][i])
+                del self.block[dataname][i][packet_coord]
 
 @ \section{Output}
 
-- 
2.43.0


From 53ce23c079972e3f24acca411024c78c07b269be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 025/132] fix: AddPacket leaves the loop alone when the packet
 lacks a value

---
 src/StarFile.nw | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 655fc0b..243658a 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1357,10 +1357,11 @@ advisable to create a new packet by copying an old packet.
 
 <<Add a packet>>=
 def AddPacket(self,packet):
-    for myitem in self.parent_block.loops[self.loop_no]:
-        old_values = self.parent_block[myitem]
-        old_values.append(packet.__getattribute__(myitem))
-        self.parent_block[myitem] = old_values
+    # collect first, so that nothing is changed if a value is missing
+    new_values = [(myitem,packet.__getattribute__(myitem)) for myitem in
+                                     self.parent_block.loops[self.loop_no]]
+    for myitem,new_value in new_values:
+        self.parent_block[myitem] = self.parent_block[myitem] + [new_value]
 
 @ Return order of items - this is just a copy of the list of datanames
 making up this loop.
-- 
2.43.0


From 7abbf897c2aaed817e6bd11d66206fe145e00450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 026/132] fix: datanames are caseless in loop blocks too

---
 src/StarFile.nw | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 243658a..040ead7 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1267,7 +1267,7 @@ def items(self):
 def __getitem__(self,dataname):
     if isinstance(dataname,int):   #a packet request
         return self.GetPacket(dataname)
-    if dataname in self.keys():
+    if dataname in self:
         return self.parent_block[dataname]
     else:
         raise KeyError('%s not in loop block' % dataname)
@@ -1277,7 +1277,7 @@ def __setitem__(self,dataname,value):
     self.parent_block.AddLoopName(self.keys()[0],dataname)
 
 def __contains__(self,key):
-    return key in self.parent_block.loops[self.loop_no]
+    return key.lower() in self.parent_block.loops[self.loop_no]
 
 def has_key(self,key):
     return key in self
@@ -1390,11 +1390,6 @@ values ourselves on a need-to-know basis.
 def GetLoopNames(self,keyname):
     if keyname in self:
         return self.keys()
-    for aloop in self.loops:
-        try:
-            return aloop.GetLoopNames(keyname)
-        except KeyError:
-            pass
     raise KeyError('Item does not exist')
 
 @ Adding to a loop.  We find the loop containing the dataname that
-- 
2.43.0


From 4a687e2195aecc7903f8a85b40a51812dd490a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 027/132] fix: hidden save frames can be deleted and renamed

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 040ead7..824b8c3 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -330,7 +330,7 @@ def __delitem__(self,key):
     del self.child_table[lowerkey]
     try:
         self.visible_keys.remove(lowerkey)
-    except KeyError:
+    except ValueError:   #a hidden frame
         pass
     self.lower_keys.remove(lowerkey)
     self.block_input_order.remove(lowerkey)
-- 
2.43.0


From 247d8ae6697ec5a5f6d40e3bab04607c414d8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 028/132] fix: block collections made from others know their
 block order, grammar and characters

---
 src/StarFile.nw | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 824b8c3..5bb1989 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -432,6 +432,9 @@ def get_children(self,blockname,include_parent=False,scoping='dictionary'):
         newbc.child_table.update({block_lower:self.PC(self.child_table[block_lower].block_id,None)})
         newbc.lower_keys.add(block_lower)
         newbc.dictionary.update({block_lower:self.dictionary[block_lower]})
+    newbc.block_input_order = [a for a in self.block_input_order if a in newbc.lower_keys]
+    newbc.set_grammar(self.grammar)
+    newbc.set_characterset(self.characterset)
     newbc.scoping = scoping
     return newbc
 
@@ -487,8 +490,10 @@ def makebc(self,namelist,scoping='dictionary'):
     newbc.child_table.update(dict(new_top_level))
     newbc.lower_keys = set([a[0] for a in proto_child_table])
     newbc.dictionary = dict((a[0],self.dictionary[a[0]]) for a in proto_child_table)
+    newbc.block_input_order = [a for a in block_lower if a in newbc.lower_keys]
+    newbc.set_grammar(self.grammar)
+    newbc.set_characterset(self.characterset)
     newbc.scoping = scoping
-    newbc.block_input_order = block_lower
     return newbc
 
 
-- 
2.43.0


From e61886b78008fbcd9a07f6123ba37aa4f7a3f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 029/132] fix: merge_fast renames a block without a parent
 being given

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 5bb1989..bc5e954 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -716,7 +716,7 @@ def merge_fast(self,new_bc,parent=None):
                 start_key = dup_key
                 while start_key in self.lower_keys: start_key = start_key+'+'
                 self._rekey(dup_key,start_key)
-                if parent_name.lower() == dup_key:  #we just renamed the prospective parent!
+                if parent_name == dup_key:  #we just renamed the prospective parent!
                     parent_name = start_key
               elif our_parent is not None and parent is None and \
                    (their_parent is None or self.scoping == 'instance'):   #rename their block
-- 
2.43.0


From 36486d0678f6b77726a264a71e8093f89060f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 030/132] fix: no second block of the same name beside one
 whose key was changed

---
 src/StarFile.nw | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index bc5e954..e35d962 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -544,6 +544,9 @@ def NewBlock(self,blockname,blockcontents=None,fix=True,parent=None):
         newblockname = re.sub('[  \t]','_',blockname)
     else: newblockname = blockname
     new_lowerbn = newblockname.lower()
+    if self.standard is not None and new_lowerbn + '+' in self.lower_keys and \
+       self._sibling_exists(new_lowerbn,parent): #present under another key
+        raise StarError( "Attempt to replace existing block " + blockname)
     if new_lowerbn in self.lower_keys:   #already there
         if self.standard is not None:
            toplevelnames = [a[0] for a in self.child_table.items() if a[1].parent==None]
@@ -609,6 +612,11 @@ def _rekey(self,oldname,newname,block_id=''):
        self.child_table.update({newname:self.PC(block_id,move_block_info.parent)})
     if is_visible: self.visible_keys += [newname]
 
+def _sibling_exists(self,lowername,parent):
+    """Return `True` if a block printed as `lowername` is already present within `parent`"""
+    if parent is not None: parent = parent.lower()
+    return any(a.block_id.lower() == lowername and a.parent == parent for a in self.child_table.values())
+
 def rename(self,oldname,newname):
     """Rename datablock from [[oldname]] to [[newname]]. Both key and printed name are changed.  No
        conformance checks are conducted."""
@@ -618,6 +626,9 @@ def rename(self,oldname,newname):
         raise StarError('Cannot change blockname %s to %s as %s already present' % (oldname,newname,newname))
     if realoldname not in self.lower_keys:
         raise KeyError('Cannot find old block %s' % realoldname)
+    if realnewname + '+' in self.lower_keys and \
+       self._sibling_exists(realnewname,self.child_table[realoldname].parent):
+        raise StarError('Cannot change blockname %s to %s as %s already present' % (oldname,newname,newname))
     self._rekey(realoldname,realnewname,block_id=newname)
 
 @ Merging.  Originally, this package envisaged Cif and STAR files as collections
-- 
2.43.0


From 4260da5f0037cef477e61fe1c728c55960c75b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 031/132] fix: the new key of a renamed block differs from all
 incoming keys

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e35d962..2013d97 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -725,7 +725,7 @@ def merge_fast(self,new_bc,parent=None):
               elif (our_parent is None and their_parent is not None and parent is None) or\
                   parent is not None:  #rename our block
                 start_key = dup_key
-                while start_key in self.lower_keys: start_key = start_key+'+'
+                while start_key in self.lower_keys or start_key in new_bc.lower_keys: start_key = start_key+'+'
                 self._rekey(dup_key,start_key)
                 if parent_name == dup_key:  #we just renamed the prospective parent!
                     parent_name = start_key
-- 
2.43.0


From 83601c0385085fdbe779d5426ed22d4ca4aab1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 032/132] fix: copies of blocks and files are complete and
 independent

---
 src/CifFile_module.nw |  7 +------
 src/StarFile.nw       | 42 +++++++++++++++++++++---------------------
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 341da4b..97e3aee 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -242,8 +242,7 @@ def RemoveCifItem(self,itemname):
     """Remove `itemname` from the CifBlock"""
     self.RemoveItem(itemname)
 
-@ The second line in the copy method switches the class of the
-returned object to be a CifBlock. It may not be necessary.
+@ Lists become single-dataname loops if requested.
 
 <<Adjust emulation of a mapping type>>=
 def __setitem__(self,key,value):
@@ -254,10 +253,6 @@ def __setitem__(self,key,value):
              # single element loop
              self.CreateLoop([key])
 
-def copy(self):
-    newblock = super(CifBlock,self).copy()
-    return self.copy.im_class(newblock)   #catch inheritance
-
 @ This function was added for the dictionary validation routines.  It
 will return a list where each member is itself a list of item names,
 corresponding to the names in each loop of the file.
diff --git a/src/StarFile.nw b/src/StarFile.nw
index 2013d97..9c582b6 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -372,16 +372,15 @@ def clear(self):
     self.block_input_order = []
 
 def copy(self):
-    newcopy = self.dictionary.copy()  #all blocks
-    for k,v in self.dictionary.items():
-        newcopy[k] = v.copy()
-    newcopy = BlockCollection(newcopy)
+    """Return an independent collection of the same type with the same blocks"""
+    import copy
+    newcopy = copy.copy(self)   #catch inheritance
+    newcopy.dictionary = dict([(k,v.copy()) for k,v in self.dictionary.items()])
     newcopy.child_table = self.child_table.copy()
     newcopy.lower_keys = self.lower_keys.copy()
-    newcopy.block_input_order = self.block_input_order.copy()
-    newcopy.characterset = self.characterset
-    newcopy.SetTemplate(self.master_template.copy())
-    newcopy.scoping = self.scoping  #this sets visible keys
+    newcopy.renamed = self.renamed.copy()
+    newcopy.block_input_order = self.block_input_order[:]
+    newcopy.visible_keys = self.visible_keys[:]
     return newcopy
 
 def update(self,adict):
@@ -1507,11 +1506,16 @@ def __init__(self,data = (), maxoutlength=2048, wraplength=80, overwrite=True,
         for item in data:
             self.AddLoopItem(item)
     elif isinstance(data,StarBlock):
-        self.block = data.block.copy()
-        self.item_order = data.item_order[:]
-        self.true_case = data.true_case.copy()
-        # loops as well
-        self.loops = data.loops.copy()
+        self._copy_contents(data)
+
+def _copy_contents(self,data):
+    """Hold the same contents as block `data`, without sharing anything with it"""
+    import copy
+    self.block = copy.deepcopy(data.block)
+    self.item_order = data.item_order[:]
+    self.true_case = data.true_case.copy()
+    # loops as well
+    self.loops = dict([(a,data.loops[a][:]) for a in data.loops])
 
 def setmaxnamelength(self,maxlength):
     """Set the maximum allowable dataname length (-1 for no check)"""
@@ -1665,15 +1669,11 @@ def clear(self):
     self.item_order = []
     self.true_case = {}
 
-# doesn't appear to work
 def copy(self):
-    newcopy = StarBlock()
-    newcopy.block = self.block.copy()
-    newcopy.loops = []
-    newcopy.item_order = self.item_order[:]
-    newcopy.true_case = self.true_case.copy()
-    newcopy.loops = self.loops.copy()
-#    return self.copy.im_class(newcopy)   #catch inheritance
+    """Return an independent block of the same type with the same contents"""
+    import copy
+    newcopy = copy.copy(self)   #catch inheritance
+    newcopy._copy_contents(self)
     return newcopy
 
 def update(self,adict):
-- 
2.43.0


From fb45c7e5aaa2f8f21078bf5cbcc4675a8855c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 033/132] fix: a refused strict merge leaves the block
 unchanged

---
 src/StarFile.nw | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 9c582b6..621fb93 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3205,11 +3205,12 @@ not be added, but simply replaced.
 def merge(self,new_block,mode="strict",match_att=[],match_function=None,
                rel_keys = []):
     if mode == 'strict':
-       for key in new_block.keys():
-           if key in self and key not in match_att:
+       new_keys = [key for key in new_block.keys() if key not in match_att]
+       for key in new_keys:                     #check before changing anything
+           if key in self:
               raise StarError( "Identical keys %s in strict merge mode" % key)
-           elif key not in match_att:           #a new dataname
-               self[key] = new_block[key]
+       for key in new_keys:                     #a new dataname
+           self[key] = new_block[key]
        # we get here if there are no keys in common, so we can now copy
        # the loops and not worry about overlaps
        for one_loop in new_block.loops.values():
-- 
2.43.0


From 95fe8a93bb17cbf47434f23f4112d2e33dfd62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 034/132] fix: replacing merge keeps the matching items and
 takes looped items out of loops if necessary

---
 src/StarFile.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 621fb93..29fdca8 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3224,8 +3224,10 @@ def merge(self,new_block,mode="strict",match_att=[],match_function=None,
                newkeys.remove(ma)        #don't touch the special ones
           except ValueError:
                pass
-       for key in new_block.keys():
+       for key in newkeys:
               if isinstance(key,unicode):
+                  if self.FindLoop(key) >= 0 and new_block.FindLoop(key) < 0:
+                      self.RemoveItem(key)   #no longer looped
                   self[key] = new_block[key]
        # creating the loop will remove items from other loops
        for one_loop in new_block.loops.values():
-- 
2.43.0


From 39c2facfcdd676a9c9a9c77827cc0070366fda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 035/132] fix: replacing merge of block collections replaces
 blocks

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 29fdca8..d859051 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -784,6 +784,8 @@ def merge(self,new_bc,mode=None,parent=None,single_block=[],
                   block_to_item.remove(thisatt)
                   break
         if not basekey in self or mode=="replace":
+            if mode == "replace" and basekey in self:
+               del self[basekey]
             new_parent = new_bc.get_parent(key)
             if parent is not None and new_parent is None:
                new_parent = parent
-- 
2.43.0


From 06796d93f90381a3316299cd1c4162dbe0ade261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 036/132] fix: dictionary identification blocks are not merged

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 97e3aee..7236e69 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4356,7 +4356,7 @@ def merge_dic(diclist,mergemode="replace",ddlspec=None):
     basedic = dic_as_cif_list[0]
     if "on_this_dictionary" in basedic:   #DDL1 style only
         for dic in dic_as_cif_list[1:]:
-           basedic.merge(dic,mode=mergemode,match_att=["_name"])
+           basedic.merge(dic,mode=mergemode,match_att=["_name"],idblock="on_this_dictionary")
     elif len(basedic.keys()) == 1:                     #One block: DDL2/m style
         old_block = basedic[basedic.keys()[0]]
         for dic in dic_as_cif_list[1:]:
-- 
2.43.0


From 195ff972506e20d697f0e5cbff84de96366b3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 037/132] fix: merge_fast keeps to the scoping rules and does
 not list replaced blocks twice

---
 src/StarFile.nw | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index d859051..1e8716e 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -735,16 +735,18 @@ def merge_fast(self,new_bc,parent=None):
                 new_bc._rekey(dup_key,start_key)
               else:
                 raise StarError("In strict merge mode:duplicate keys %s" % dup_key)
+    incoming = [a for a in new_bc.block_input_order if a not in self.lower_keys]
     self.dictionary.update(new_bc.dictionary)
     self.lower_keys.update(new_bc.lower_keys)
-    self.visible_keys += (list(new_bc.lower_keys))
-    self.block_input_order += new_bc.block_input_order
+    self.block_input_order += incoming
     #print('Block input order now:' + repr(self.block_input_order))
     self.child_table.update(new_bc.child_table)
     if parent_name is not None:     #redo the child_table entries
           reparent_list = [(a[0],a[1].block_id) for a in new_bc.child_table.items() if a[1].parent==None]
           reparent_dict = [(a[0],self.PC(a[1],parent_name.lower())) for a in reparent_list]
           self.child_table.update(dict(reparent_dict))
+    self.visible_keys += [a for a in incoming if self.scoping == 'dictionary' or \
+                                                 self.child_table[a].parent is None]
 
 def merge(self,new_bc,mode=None,parent=None,single_block=[],
                idblock="",match_att=[],match_function=None):
-- 
2.43.0


From 66555786d61d269aeee08bba1e652cc5b5cd5a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 038/132] fix: merging pairs match attributes with the right
 blocks

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 1e8716e..df796e4 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -766,9 +766,9 @@ def merge(self,new_bc,mode=None,parent=None,single_block=[],
     if match_att:
         #make a blockname -> item name map
         if match_function:
-            block_to_item = [match_function(self[a]) for a in self.keys()]
+            block_to_item = [match_function(self[a]) for a in self.child_table]
         else:
-            block_to_item = [self[a].get(match_att[0],None) for a in self.keys()]
+            block_to_item = [self[a].get(match_att[0],None) for a in self.child_table]
         #print `block_to_item`
     for key in new_keys:        #run over incoming blocknames
         if key == idblock: continue    #skip dictionary id
-- 
2.43.0


From aa697f75860806af90dcfaaf1d39562508113229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 039/132] fix: no padding before line breaks, which could
 exceed the maximum line length

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index df796e4..6306c68 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2509,7 +2509,7 @@ class CIFStringIO(StringIO):
                 print('Could not format %s at column %d as already at %d' % (outstring,startcol,self.currentpos))
                 startcol = -1   #so that tabbing works as a backup
         #handle tabs
-        if self.tabwidth >0 and do_tab and startcol < 0:
+        if self.tabwidth >0 and do_tab and startcol < 0 and outstring[:1] != '\n':
             next_stop = ((self.currentpos//self.tabwidth)+1)*self.tabwidth
             #print 'Currentpos %d: Next tab stop at %d' % (self.currentpos,next_stop)
             # skip the tab if we would overflow, provided we are already separated
-- 
2.43.0


From b46bf1c35e8f4cfee1503041f2bfe0451b7649aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 040/132] fix: values can start in the column reached already

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 6306c68..f0b9b3c 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2505,6 +2505,8 @@ class CIFStringIO(StringIO):
                 StringIO.write(self,(startcol - self.currentpos)* ' ')
                 self.currentpos = startcol
                 self.last_char = ' '
+            elif self.currentpos == startcol and self.last_char in [' ','\n','\t']:
+                pass     #already in the right place
             else:
                 print('Could not format %s at column %d as already at %d' % (outstring,startcol,self.currentpos))
                 startcol = -1   #so that tabbing works as a backup
-- 
2.43.0


From 95c901cd95a5f5fd8f8002990d57afd027537774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 041/132] fix: triple quotes asked for by a template are not
 used where the value rules them out

---
 src/StarFile.nw | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f0b9b3c..3aa713f 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2804,6 +2804,9 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
         instring = "\n"+self.do_wrapping(instring,hints["reformat_indent"])
     allowed_delimiters = set(self.string_delimiters)
     if len(instring)==0: allowed_delimiters.difference_update([None])
+    for triple in ('"""',"'''"):
+        if triple in instring or instring[-1:] == triple[0]:
+            allowed_delimiters.difference_update([triple])
     if len(instring) > (self.maxoutlength-2):
             allowed_delimiters.intersection_update(["\n;"])
     if '\n' in instring:
-- 
2.43.0


From 562a6f7619774273492ca384219e85e570826500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 042/132] fix: templates may contain names with special
 characters or sharing a beginning

---
 src/StarFile.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 3aa713f..dc031f1 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3046,7 +3046,7 @@ def process_template(template_file):
         if not isinstance(item,int):    #not nested
             hint_dict = {"dataname":item}
             # find the line in the file
-            start_pos = re.search("(^[ \t]*(?P<name>" + item + ")[ \t\n]+)(?P<spec>([\\S]+)|(^;))",template_string,re.I|re.M)
+            start_pos = re.search("(^[ \t]*(?P<name>" + re.escape(item) + ")[ \t\n]+)(?P<spec>([\\S]+)|(^;))",template_string,re.I|re.M)
             if start_pos.group("spec") != None:
                 spec_pos = start_pos.start("spec")-start_pos.start(0)
                 spec_char = template_string[start_pos.start("spec"):start_pos.start("spec")+3]
@@ -3075,7 +3075,7 @@ def process_template(template_file):
             total_items = len(template_as_cif.loops[item])
             testname = testnames[0]
             #find the loop spec line in the file
-            loop_regex = "(^[ \t]*(?P<loop>loop_)[ \t\n\r]+(?P<name>" + testname + ")([ \t\n\r]+_[\\S]+){%d}[ \t]*$(?P<packet>(.(?!_loop|_[\\S]+))*))" % (total_items - 1)
+            loop_regex = "(^[ \t]*(?P<loop>loop_)[ \t\n\r]+(?P<name>" + re.escape(testname) + ")([ \t\n\r]+_[\\S]+){%d}[ \t]*$(?P<packet>(.(?!_loop|_[\\S]+))*))" % (total_items - 1)
             loop_line = re.search(loop_regex,template_string,re.I|re.M|re.S)
             loop_so_far = loop_line.end()
             packet_text = loop_line.group('packet')
@@ -3088,7 +3088,7 @@ def process_template(template_file):
             last_end = next_end
             for loopname in testnames:
                 #find the name in the file for name pos
-                name_regex = "(^[ \t]*(?P<name>" + loopname + "))"
+                name_regex = "(^[ \t]*(?P<name>" + re.escape(loopname) + ")(?=[ \t\n\r]))"
                 name_match = re.search(name_regex,template_string,re.I|re.M|re.S)
                 loop_name_indent = name_match.start('name')-name_match.start(0)
                 hint_dict = {"dataname":loopname,"name_pos":loop_name_indent}
-- 
2.43.0


From 0fcaa49c9fbe2dc10be1ce3b06126467c075ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 043/132] fix: dREL long strings end at their first closing
 delimiter

Two long strings in one method were read as a single one.
---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index b0855ee..524b0b3 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -151,7 +151,7 @@ def t_STRPREFIX(t):
 
 # try longstring first as otherwise the '' will match a shortstring
 def t_LONGSTRING(t):
-    r"('''([^\\]|(\\.))*''')|(\"\"\"([^\\]|(\\.))*\"\"\")"
+    r"('''([^\\]|(\\.))*?''')|(\"\"\"([^\\]|(\\.))*?\"\"\")"
     return t
 
 
-- 
2.43.0


From 6da957d6dc261705aefad78bec4cd07e01be747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 044/132] fix: escaped quotes do not end a dREL string

---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index 524b0b3..4e25a3e 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -156,7 +156,7 @@ def t_LONGSTRING(t):
 
 
 def t_SHORTSTRING(t):
-    r"('([^'\n]|(\\.))*')|(\"([^\"\n]|(\\.))*\")"
+    r"('([^'\n\\]|(\\.))*')|(\"([^\"\n\\]|(\\.))*\")"
     return t
 
 # special to avoid any ambiguity
-- 
2.43.0


From 003778839dc4f40e4315664d0dd5c9bd4bb15cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 045/132] fix: a dREL name starting with 'if' can follow else

---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index 4e25a3e..bd673a6 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -161,7 +161,7 @@ def t_SHORTSTRING(t):
 
 # special to avoid any ambiguity
 def t_ELSEIF(t):
-    r"[Ee][Ll][Ss][Ee]\s+[Ii][Ff]"
+    r"[Ee][Ll][Ss][Ee]\s+[Ii][Ff](?![a-zA-Z0-9_$])"
     return t
 
 reserved = {
-- 
2.43.0


From fbba3973e4396ed4b4660e55a54b813e5b530f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 046/132] fix: all forms of dREL slices are translated

[:], [:n], [::n], [a::n] and slices in several dimensions raised errors
or selected the wrong elements.
---
 src/drel/drel_ast_yacc.py | 17 ++++++++---------
 src/drel/py_from_ast.nw   | 12 +++++++-----
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/drel/drel_ast_yacc.py b/src/drel/drel_ast_yacc.py
index c3204f6..69045cf 100644
--- a/src/drel/drel_ast_yacc.py
+++ b/src/drel/drel_ast_yacc.py
@@ -338,11 +338,10 @@ def p_proper_slice(p):
                     | long_slice '''
     p[0] = [p[1]]
 
-# Our AST slice convention is that, if anything is mentioned,
-# the first element is always
-# explicitly mentioned. A single element will be a starting
+# Our AST slice convention is that a single element will be a starting
 # element. Two elements are start and finish. An empty list
 # is all elements. Three elements are start, finish, step.
+# An element that is not mentioned before one that is appears as None.
 # We combine these into a list of slices.
 
 def p_short_slice(p):
@@ -353,16 +352,13 @@ def p_short_slice(p):
     if len(p) == 2: p[0] = []
     if len(p) == 4: p[0] = [p[1],p[3]]
     if len(p) == 3 and p[1] == ":":
-        p[0] = [0,p[2]]
+        p[0] = [None,p[2]]
     if len(p) == 3 and p[2] == ":":
         p[0] = [p[1]]
 
 def p_long_slice(p):
     '''long_slice : short_slice ":" expression '''
-    if len(p) == 4:
-        p[0] = p[1] + [p[3]]
-    else:
-        p[0] = p[1]
+    p[0] = (p[1] + [None,None])[:2] + [p[3]]
 
 def p_slice_list(p):
     ''' slice_list : slice_item
@@ -375,7 +371,10 @@ def p_slice_list(p):
 def p_slice_item(p):
     ''' slice_item : expression
                    | proper_slice '''
-    p[0] = p[1]
+    if len(p[1]) == 1:    # a slice is already inside a list
+        p[0] = p[1][0]
+    else:
+        p[0] = p[1]
 
 def p_call(p):
     '''call : ID OPEN_PAREN CLOSE_PAREN
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 104e871..88ef3a6 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -331,13 +331,15 @@ mentioned so that we can create a dependency tree.
         outstring = traverse_ast(in_node[1]) + "["
         slice_list = in_node[2]
         for one_slice in slice_list:
-            if one_slice[0] == "EXPR":   #not a slice as such
-                outstring += traverse_ast(one_slice)
-            elif len(one_slice) == 0:
+            if len(one_slice) == 0:
                 outstring += ":"
+            elif one_slice[0] == "EXPR":   #not a slice as such
+                outstring += traverse_ast(one_slice)
             elif len(one_slice) >0:    # at least start
-                outstring += traverse_ast(one_slice[0]) + ":"
-                if len(one_slice) >1:    #start,finish only
+                if one_slice[0] is not None:
+                    outstring += traverse_ast(one_slice[0])
+                outstring += ":"
+                if len(one_slice) >1 and one_slice[1] is not None:    #start,finish only
                     outstring += traverse_ast(one_slice[1])
                 if len(one_slice) == 3:    #step as well
                     outstring += ":" + traverse_ast(one_slice[2])
-- 
2.43.0


From 64b97d3aedfa77cf7c91e703abd7b8cf4c2b7101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 047/132] fix: dREL lists outside assignments are lists

The brackets were lost in conditions, for example 'if (x in [1,2])'.
---
 src/drel/py_from_ast.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 88ef3a6..bbcb505 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -306,13 +306,13 @@ mentioned so that we can create a dependency tree.
     elif node_type == "LIST":
         if len(in_node)==1:  #empty list
            return "StarList([])"
-        if special_info["rhs"] == True:
+        if special_info["rhs"] != False:
             outstring = "StarList(["
         else:
             outstring = ""
         for list_elem in in_node[1:]:
             outstring = outstring + traverse_ast(list_elem) + ","
-        if special_info["rhs"] == True:
+        if special_info["rhs"] != False:
             return outstring[:-1] + "])"
         else:
             return outstring[:-1]
-- 
2.43.0


From aed5f4c281ef55d5f617369c417314b379257e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 048/132] fix: dREL operators keep their operands

The bounds of do statements and mixtures of & and | were regrouped by the
Python precedence rules.
---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index bbcb505..1cd2901 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -770,7 +770,7 @@ dREL and python, so that the AST contains the textual form of the operator.
         first_arg = traverse_ast(in_node[2])
         second_arg = traverse_ast(in_node[3])
         if op is not None:    #simple operation
-            outstring = first_arg + op + second_arg
+            outstring = "(" + first_arg + op + second_arg + ")"
         else:
             outstring = fix_mathops(in_node[1],first_arg,second_arg)
         return outstring
-- 
2.43.0


From 3af4c5728a0d149d3ea6a0f3d943292d63011484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 049/132] fix: dREL do statements counting down include the
 final value

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 1cd2901..5f0b998 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -538,7 +538,7 @@ are provided as keywords to the
         outstring = "for " + in_node[1] + " in range(" + traverse_ast(in_node[2]) + ","
         finish = traverse_ast(in_node[3])
         increment = traverse_ast(in_node[4])
-        outstring = outstring + finish + "+1" + "," + increment
+        outstring = outstring + finish + "+(1 if " + increment + ">0 else -1)" + "," + increment
         outstring = outstring + "):"
         suite = add_indent("\n"+traverse_ast(in_node[5]))
         return outstring + suite
-- 
2.43.0


From d728e5bf1875f326739ee96156d62ad3edbc7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 050/132] fix: the dREL assignments *= and /= are translated

---
 src/drel/py_from_ast.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 5f0b998..5a02840 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -797,7 +797,9 @@ mathop_table = {"+":None, "-":None, "<":"<", "*":None, "/":None,
 aug_assign_table = {"++=":"drel_runtime.aug_append",
                     "+=":"drel_runtime.aug_add",
                     "-=":"drel_runtime.aug_sub",
-                    "--=":"drel_runtime.aug_remove"}
+                    "--=":"drel_runtime.aug_remove",
+                    "*=":"drel_runtime.drel_dot",
+                    "/=":"numpy.true_divide"}
 
 @ To avoid cluttering up the main switch statement, we call out to this function
 in order to find out what the Python name of the given function is.  Where we have
-- 
2.43.0


From de3cb7cd6ef50c6ad3564e3db921a128f9e9bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 051/132] fix: dREL += and -= with a list accept calculated
 values

Adding a numpy number or array to a list gave None.
---
 src/drel/drel_runtime.nw | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index ce693f4..c4d2d0c 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -49,22 +49,16 @@ def aug_add(current,extra):
     """Sum the contents of extra to current"""
     have_list = isinstance(current,list)
     if have_list:
-        if isinstance(extra, (float,int)):
-           # requires numpy
-           return numpy.array(current) + extra
-        elif isinstance(extra, list):
-           return numpy.array(current) + numpy.array(extra)
+        # requires numpy
+        return numpy.array(current) + numpy.array(extra)
     else:
         return current + extra
 
 def aug_sub(current,extra):
    have_list = isinstance(current,(list,numpy.ndarray))
    if have_list:
-        if isinstance(extra, (float,int)):
-           # requires numpy
-           return numpy.array(current) - extra
-        elif isinstance(extra, (list,numpy.ndarray)):
-           return numpy.array(current) - numpy.array(extra)
+        # requires numpy
+        return numpy.array(current) - numpy.array(extra)
    else:
         return current - extra
 
-- 
2.43.0


From bf9e10a688aa70c703fea849cb953c1f193a123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 052/132] fix: dREL --= leaves other variables and data holding
 the list alone

---
 src/drel/drel_runtime.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index c4d2d0c..3025fe6 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -68,9 +68,9 @@ def aug_remove(current,extra):
     have_list = isinstance(current,list)
     if have_list:
         if extra in current:
-            # not efficient as we modify in place here
-            current.remove(extra)
-            return current
+            newlist = current[:]
+            newlist.remove(extra)
+            return newlist
         else:
             print('Removal Warning: %s not in %s' % (repr(extra),repr(current)))
             return current
-- 
2.43.0


From 3c95e1814b576c9ade289763866eea1e7edd4f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 053/132] fix: dREL names unacceptable to Python are translated

Methods with a variable such as 'lambda' or 'x$1' could not be run.
---
 src/drel/py_from_ast.nw | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 5a02840..81b7a93 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -18,6 +18,7 @@ if isinstance(u"abc",str):   #Python3
     unicode = str
 
 import re
+import keyword
 from CifFile import CifError
 <<Configuration>>
 <<AST builder>>
@@ -296,7 +297,7 @@ mentioned so that we can create a dependency tree.
             if in_node[1].lower() == 'pi':
                 return "math.pi"
             else:
-                return in_node[1]
+                return python_name(in_node[1])
         else:
             return traverse_ast(in_node[1])
     elif node_type == "ITEM_TAG":
@@ -535,7 +536,7 @@ are provided as keywords to the
 # dREL for statements include the final value, whereas a python range will include
 # everything up to the final number
     elif node_type == "DO":    #DO ID = start, finish, incr, suite
-        outstring = "for " + in_node[1] + " in range(" + traverse_ast(in_node[2]) + ","
+        outstring = "for " + python_name(in_node[1]) + " in range(" + traverse_ast(in_node[2]) + ","
         finish = traverse_ast(in_node[3])
         increment = traverse_ast(in_node[4])
         outstring = outstring + finish + "+(1 if " + increment + ">0 else -1)" + "," + increment
@@ -545,7 +546,7 @@ are provided as keywords to the
     elif node_type == "FOR": # FOR target_list expression_list suite
         outstring = "for "
         for express in in_node[1]:
-            outstring = outstring + traverse_ast(express) + ","
+            outstring = outstring + python_name(express) + ","
         outstring = outstring[:-1] + " in "
         special_info["rhs"] = True
         for target in in_node[2]:
@@ -573,7 +574,7 @@ We do need to catch the case where a looped category has an explicit
 <<With statements>>=
 elif node_type == "WITH": #new_id old_id suite
     # each entry in special_id is [alias:[cat_name,loop variable, is_loop]]
-    alias_id = in_node[1]
+    alias_id = python_name(in_node[1])
     cat_id = in_node[2]
     is_already_there = [a for a in special_info['special_id'][-1].keys() if \
         special_info['special_id'][-1][a][0] == cat_id]
@@ -591,7 +592,7 @@ for datanames as necessary and inserting the packet index as well.
 
 <<Loop statements>>=
 elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE 
-    alias_id = in_node[1]
+    alias_id = python_name(in_node[1])
     cat_id = in_node[2]
     var_info = [cat_id,"",False]
     if cat_id not in special_info['loopable_cats'].keys():
@@ -603,7 +604,7 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
     if in_node[3] == "":  # provide our own
         loop_index = "__pi%d" % loop_num
     else:
-        loop_index = in_node[3]
+        loop_index = python_name(in_node[3])
     var_info[1] = loop_index
     var_info[2] = True
     special_info['special_id'][-1].update({alias_id:var_info})
@@ -630,7 +631,7 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
         #outstring +="\n" + "for __noloop in [0]:"
     # deal with this comparison test
     if in_node[4] != "":
-        outstring += "\n" + "__loop_range%d = [a for a in __loop_range%d if a %s %s]" % (loop_num,loop_num,in_node[4],in_node[5])
+        outstring += "\n" + "__loop_range%d = [a for a in __loop_range%d if a %s %s]" % (loop_num,loop_num,in_node[4],python_name(in_node[5]))
     # now output the looping command
     outstring += "\n" + "for %s in __loop_range%d:" % (loop_index,loop_num)
     # now the actual body of the loop
@@ -647,10 +648,10 @@ that occurs automatically in key lookup code generation.
 
 <<Function definitions>>=
 elif node_type == "FUNCTION":   #FUNCTION ID ARGLIST SUITE
-    func_name = in_node[1]
+    func_name = python_name(in_node[1])
     outstring = "def %s (" % func_name
     for one_arg in in_node[2]:
-        outstring += one_arg[0] + ","
+        outstring += python_name(one_arg[0]) + ","
     outstring = outstring + "ciffile):"
     # imports
     #import_lines = "import numpy\nfrom CifFile.drel import drel_runtime\n"
@@ -862,7 +863,7 @@ def get_function_name(in_name):
         return "numpy.matrix","",".astype('float64')"
     if test_name == 'sort':
         return "","",".sort()"
-    return in_name,"",None   #dictionary defined
+    return python_name(in_name),"",None   #dictionary defined
 
 @  Mathematical operations in dREL are complicated by the need to handle matrix
 operations transparently.  The two operators that are affected are "^" (cross
@@ -890,6 +891,13 @@ def add_indent(text,n=4):
     """Indent text by n spaces"""
     return re.sub("\n","\n"+4*" ",text)
 
+def python_name(name):
+    """Return a Python name for dREL variable or function [[name]]"""
+    name = name.replace("$","__dollar__")
+    if keyword.iskeyword(name) and name.islower():   #leave None,True,False
+        name = name + "__"
+    return name
+
 def getcatname(dataname):
     """Return cat,name pair from dataname"""
     try:
-- 
2.43.0


From 1f0727a671502a88f7311049bd0d75ac9b3f44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 054/132] fix: dREL vectors multiplied by a number remain
 vectors

The result had an extra dimension, so that its elements could not be
accessed.
---
 src/drel/drel_runtime.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index 3025fe6..792ae8a 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -131,6 +131,8 @@ def drel_dot(first_arg,second_arg):
             return numpy.array(result).squeeze()
         else:
             return result
+    elif first_matrix or second_matrix:  #multiply each element
+        return numpy.multiply(first_arg,second_arg)
     return fa * sa
 
 def drel_add(first_arg,second_arg):
-- 
2.43.0


From cec53dbe0666d03bc484e323f2034ec220955310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 055/132] fix: calculated integers can be raised to negative
 powers in dREL

---
 src/drel/drel_runtime.nw | 7 +++++++
 src/drel/py_from_ast.nw  | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index 792ae8a..83f4309 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -144,6 +144,13 @@ def drel_add(first_arg,second_arg):
         return result
 
 
+def drel_power(base,exponent):
+    """Raise base to a power. Numpy does not accept negative powers
+    of its integers, so we switch to Python integers"""
+    if isinstance(base,numpy.integer): base = base.item()
+    if isinstance(exponent,numpy.integer): exponent = exponent.item()
+    return base ** exponent
+
 @  Other mathematical functions.  dREL defines some linear algebra type functions,
 which we have to wrap because e.g. the eigenvalues should be sorted.  Note that we
 are assuming the right eigenvalues, not the left eigenvalues.
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 81b7a93..0edd548 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -793,7 +793,7 @@ mathop_table = {"+":None, "-":None, "<":"<", "*":None, "/":None,
                 ">":">", "<=":"<=", ">=":">=", "!=":"!=",
                 "or":" or ", "and":" and ",
                 "==":"==", "in":" in ", "not in":" not in ",
-                "^":None,"**":"**"}
+                "^":None,"**":None}
 
 aug_assign_table = {"++=":"drel_runtime.aug_append",
                     "+=":"drel_runtime.aug_add",
@@ -883,6 +883,8 @@ def fix_mathops(op,first_arg,second_arg):
     # beware integer division on this one...
     elif op == "/":
         return "numpy.true_divide(%s,%s)" % (first_arg, second_arg)
+    elif op == "**":
+        return "drel_runtime.drel_power(%s,%s)" % (first_arg, second_arg)
 
 @  We have a few simple utility functions for commonly-required operations.
 
-- 
2.43.0


From e72668bba86bb1768c731e7b9df8187dd8db8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 056/132] fix: calculated whole numbers can index lists in dREL

numpy integers were taken for the extended comma notation.
---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index dc031f1..3a0ab8b 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1225,7 +1225,7 @@ opportunity to expand the getitem method to allow multiple arguments.
 <<Define a collection datatype>>=
 class StarList(list):
     def __getitem__(self,args):
-        if isinstance(args,(int,slice)):
+        if not isinstance(args,tuple):
             return super(StarList,self).__getitem__(args)
         elif isinstance(args,tuple) and len(args)>1:   #extended comma notation
             return super(StarList,self).__getitem__(args[0]).__getitem__(args[1:])
-- 
2.43.0


From 1aa88dbdac6c287c00e14fc4638d5a8f9a72e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 057/132] fix: dREL syntax errors inside parentheses do not
 affect later methods

The shared lexer went on ignoring line breaks.
---
 src/drel/drel_ast_yacc.py | 1 +
 src/drel/drel_lex.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/drel/drel_ast_yacc.py b/src/drel/drel_ast_yacc.py
index 69045cf..7de9a19 100644
--- a/src/drel/drel_ast_yacc.py
+++ b/src/drel/drel_ast_yacc.py
@@ -575,6 +575,7 @@ def p_error(p):
     except:
         pass
     parser.restart()
+    lexer.begin('INITIAL')   # we may be inside parentheses
     raise SyntaxError
 
 #lexer = drel_lex.lexer
diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index bd673a6..91a7175 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -62,6 +62,7 @@ t_paren_ignore = ' \t\n'
 
 def t_error(t):
     print('Illegal character %s' % repr(t.value[0]))
+    t.lexer.begin('INITIAL')   # we may be inside parentheses
 
 t_POWER = r'\*\*'
 t_ISEQUAL = r'=='
-- 
2.43.0


From c2c15655c7e5014b9346159a1473c416b949b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 058/132] fix: the compiled scanner does not drop the text of
 an unfinished or irregular text field

---
 src/lib/lex.yy.c | 3 +++
 src/lib/star.l   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lib/lex.yy.c b/src/lib/lex.yy.c
index e97b1e9..81aaacf 100644
--- a/src/lib/lex.yy.c
+++ b/src/lib/lex.yy.c
@@ -583,6 +583,9 @@ if(string_pos + max_size <= in_string_len) {\
     }\
 }
 
+/* text that no rule matches (only possible inside text fields) */
+#define ECHO { YY_FLUSH_BUFFER; return(DERROR); }
+
 /* These have been modified from starbase, as they allow all sorts of
    forbidden characters */
 
diff --git a/src/lib/star.l b/src/lib/star.l
index adf7ded..2fdc85e 100644
--- a/src/lib/star.l
+++ b/src/lib/star.l
@@ -34,6 +34,9 @@ if(string_pos + max_size <= in_string_len) {\
     }\
 }
 
+/* text that no rule matches (only possible inside text fields) */
+#define ECHO { YY_FLUSH_BUFFER; return(DERROR); }
+
 %}
 
 /* These have been modified from starbase, as they allow all sorts of
-- 
2.43.0


From 886393cc1d71f8cbdef95a930c2678e1cfa7d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 059/132] fix: dREL methods for loop items give one value per
 packet, and look up conditional items when needed

---
 src/drel/py_from_ast.nw | 52 +++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 0edd548..11c28d0 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -41,7 +41,6 @@ value types (iv) the results of all applications are values ready for calculatio
 <<Configuration>>=
 pycifrw_func_table = {   #how to use PyCIFRW CifFile objects
          "data_access": "ciffile[%s]",   # argument is dataname to be accessed
-         "optional_data_access":"ciffile.get(%s,None)",
          "element_no": "%s[%s]", # accessing a particular element of the result of data_access
          "count_data": "len(%s)", # number of elements for result of data_access
          "cat_names":"ciffile.dictionary.names_in_cat(%s)", #names in category %s
@@ -84,6 +83,9 @@ def make_python_function(in_ast,func_name,targetname, special_ids=[{}],
         return func_text
     elif func_def:
         return func_text, None
+    # a method for a loop column always gives one value per packet
+    if not cat_meth and not func_def and targetname is not None:
+        cur_row = cur_row or getcatname(targetname)[0] in loopable.keys()
     # now indent the string
     noindent = func_text.splitlines()
     # get the minimum indent and remove empty lines
@@ -125,16 +127,11 @@ number of packets during execution of the method.
     dummy_vars = ",".join(d_vars)
     actual_names = [k for k in withtable.keys()]
     actual_names = [func_table["data_access"]% ("'"+a+"'") for a in actual_names]
-    # intercept optional values and replace with [] if None
-    optional_names = ["__option_w%d"%n for n,k in enumerate(withtable.keys()) if withtable[k][2]]
-    if cur_row:
-        actual_names+=['__row_id']
     final_names = actual_names[:]
     one_pack_names = [func_table["element_no"] % (a,"packet_no") for a in actual_names]
-    for n,k in enumerate(withtable.keys()):
-        if withtable[k][2]:
-            final_names[n]="__option_w%d"%n  #pre-evaluated
-            one_pack_names[n] = "__option_w%d"%n
+    if cur_row:
+        final_names += ['__row_id']
+        one_pack_names += ['packet_no']
     map_names = ",".join(final_names)
     one_packet_each = ",".join(one_pack_names)
     preamble = "def %s(ciffile,packet_no=-1):\n" % (func_name)
@@ -142,27 +139,23 @@ number of packets during execution of the method.
     preamble +="        from itertools import repeat,imap\n"   #note that imap might fail
     preamble +="    except ImportError: #python3\n"
     preamble +="        imap = map\n"
+    # columns that are only looked up if they are needed
+    preamble +="    __columns = {}\n"
+    preamble +="    def __column(name):\n"
+    preamble +="        if name not in __columns: __columns[name] = %s\n" % (func_table["data_access"] % "name")
+    preamble +="        return __columns[name]\n"
     preamble +="    def drel_func(%s):\n" % dummy_vars
     # for debugging
     print_instruction = "'Function passed variables "+("{!r} "*len(d_vars))+"'.format("+dummy_vars+",)"
     preamble +="        print(%s)\n" % print_instruction
     # preamble +="        print('Globals inside looped drel_func:' + repr(globals())\n")
     # the actual function gets inserted here
-    # Handle the optional names
     end_body = "\n"
-    for n,one_opt in enumerate(withtable.keys()):
-        if withtable[one_opt][2]:
-            end_body += "    try:\n"
-            end_body += "            %s%d = %s\n" % ("__option_w",n,func_table["optional_data_access"]%("'"+one_opt+"'"))
-            end_body += "    except KeyError:\n"
-            end_body += "            %s%d = None\n" % ("__option_w",n)
     end_body+=      "    if packet_no < 0:   #map\n"
-    for one_opt in optional_names:
-        end_body += "        if %s is None: %s = repeat(None)\n" % (one_opt,one_opt)
 
-    if cur_row and len(actual_names) > 1:    #i.e. have real names from category
-        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % ("'"+actual_names[0]+"'"))
-    elif cur_row and len(actual_names)==1:   #so no actual names available
+    if cur_row and len(actual_names) > 0:    #i.e. have real names from category
+        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % actual_names[0])
+    elif cur_row:   #so no actual names available
 
         end_body += "        cat_names = %s\n" % (func_table["cat_names"] % ("'"+getcatname(targetname)[0]+"'"))
         end_body += "        have_name = [a for a in cat_names if %s]\n" % (func_table["has_name"] % "a")
@@ -398,9 +391,9 @@ reference, keyed by the actual dataname looked up via the (cat,obj)
 tuple.  We store the order that it appears in the function call that
 is created, so that we can include the function within a 'map'
 statement and give the correct order of items.  Additionally, if the
-variable appears inside an IF statement, evaluation may be optional,
-so a flag is set (True means optional). So the withtable has syntax
-{``dataname'':(dummyname,dummyorder,optional = True/False)}.
+variable appears inside an IF statement, its value may never be needed,
+so it is not passed to the function but looked up when it is reached.
+So the withtable has syntax {``dataname'':(dummyname,dummyorder)}.
 
 Furthermore, the square bracket syntax for keyed access to data packets requires
 that the result of the keyed access is accessed by attribute.  While dREL does not
@@ -443,12 +436,15 @@ elif node_type == "ATTRIBUTE":  # id/tag , att
             special_info["depends"].add(true_name)
             if newid[1]:  # a loop statement requires an index
                 outstring += "[" + newid[1]+ "]"
+        elif special_info["inif"] and true_name not in special_info["withtable"]:
+            outstring = "__column('" + true_name + "')[__current_row]"  #only if needed
+            special_info["need_current_row"] = True
+            special_info["depends"].add(true_name)
         else:   # a with statement; capture the name and create a dummy variable
             if true_name not in special_info["withtable"]:  #new
                 position = len(special_info["withtable"])
                 new_var = "__w%d" % position
-                isoptional = special_info["inif"]
-                special_info["withtable"][true_name] = (new_var,position,isoptional)
+                special_info["withtable"][true_name] = (new_var,position)
             outstring += special_info["withtable"][true_name][0]
             special_info["depends"].add(true_name)
     elif in_node[1][0] == "ATOM" and primary[0] == "_":   # a cat/obj name
@@ -509,8 +505,8 @@ to allow these objects to be modified inside the suite.
 
 The expression inside an IF statement may never be executed, so we do not have to
 provide a value for any dataitems referenced here. We flag this by setting the
-``inif'' variable to True, and any dataitems referenced when this flag is True
-are provided as keywords to the 
+``inif'' variable to True.  Any dataitems of the current category first referenced
+when this flag is True are looked up at that point.
 
 <<Compound statements>>=
     elif node_type == "IF_EXPR":   #IF_EXPR test true_suite [ELSE IF_EXPR] false_suite
-- 
2.43.0


From 2db9b9244120763336bb7c1d66145716601503ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 060/132] fix: dictionary aliases are found whatever the case
 of the datanames

---
 src/CifFile_module.nw | 6 +++---
 src/StarFile.nw       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 7236e69..9afb90d 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1030,7 +1030,7 @@ alternatives.
 def create_alias_table(self):
     """Populate an alias table that we can look up when searching for a dataname"""
     all_aliases = [a for a in self.keys() if '_alias.definition_id' in self[a]]
-    self.alias_table = dict([[a,self[a]['_alias.definition_id']] for a in all_aliases])
+    self.alias_table = dict([[a.lower(),[b.lower() for b in listify(self[a]['_alias.definition_id'])]] for a in all_aliases])
 
 @ DDLm internally refers to data items by the category.object notation, with the twist
 that child categories of loops can have their objects appear in the parent category. So
@@ -3293,12 +3293,12 @@ other derivation routes possible.
 <<Resolve using aliases>>=
 # check for aliases
 # check for an older form of a new value
-found_it = [k for k in self.alias_table.get(key,[]) if k in cifdata]
+found_it = [k for k in self.alias_table.get(key.lower(),[]) if k in cifdata]
 if len(found_it)>0:
     corrected_type = self.change_type(key,cifdata[found_it[0]])
     return corrected_type
 # now do the reverse check - any alternative form
-alias_name = [a for a in self.alias_table.items() if key in a[1]]
+alias_name = [a for a in self.alias_table.items() if key.lower() in a[1]]
 print('Aliases for %s: %s' % (key,repr(alias_name)))
 if len(alias_name)==1:
     key = alias_name[0][0]   #actual definition name
diff --git a/src/StarFile.nw b/src/StarFile.nw
index 3a0ab8b..5c4c3a1 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1655,7 +1655,7 @@ def has_key_or_alias(self,key):
     initial_test = key in self
     if initial_test: return True
     elif self.dictionary:
-        aliases = [k for k in self.dictionary.alias_table.get(key,[]) if self.has_key(k)]
+        aliases = [k for k in self.dictionary.alias_table.get(key.lower(),[]) if self.has_key(k)]
         if len(aliases)>0:
            return True
     return False
-- 
2.43.0


From 0d79fe7720dff4c6896c559eb469a24a8cee02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 061/132] fix: unknown values take defaults, and are not lost
 if they cannot be derived

---
 src/StarFile.nw | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 5c4c3a1..cac3e90 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1605,20 +1605,23 @@ the enclosing block collection (e.g. CIF or STAR file object)""")
             elif rawitem == '?':
                     do_calculate = True
             if do_calculate:
-               # remove old value
+               # remove old value, it is put back if there is no other
+               saved = (dict(self.block),dict(self.true_case),self.item_order[:],dict([(k,v[:]) for k,v in self.loops.items()]))
                del self[key]
+               new_value = None
                try:
-                   new_value = self.dictionary.derive_item(key,self,store_value=True,allow_defaults=False)
-               except StarDerivationFailure as s:
                    try:
+                       new_value = self.dictionary.derive_item(key,self,store_value=True,allow_defaults=False)
+                   except StarDerivationFailure:
                        new_value = self.dictionary.derive_item(key,self,store_value=True,allow_defaults=True)
-                   except StarDerivationFailure as s:
-
-                       print("Could not turn %s into a value:" + repr(s))
-                       return rawitem
-               else:
-                   print('Set %s to derived value %s' % (key, repr( new_value )))
-                   return new_value
+               except StarDerivationFailure as s:
+                   print("Could not turn %s into a value: %s" % (key,repr(s)))
+                   return rawitem
+               finally:
+                   if new_value is None:
+                       self.block,self.true_case,self.item_order,self.loops = saved
+               print('Set %s to derived value %s' % (key, repr( new_value )))
+               return new_value
         return rawitem   #can't do anything
 
 def __delitem__(self,key):
-- 
2.43.0


From 36ee18424811fe414f5fb71a9123bdb7c591b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 062/132] fix: categories are caseless in dREL methods

---
 src/drel/py_from_ast.nw | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 11c28d0..7f17c1e 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -85,7 +85,7 @@ def make_python_function(in_ast,func_name,targetname, special_ids=[{}],
         return func_text, None
     # a method for a loop column always gives one value per packet
     if not cat_meth and not func_def and targetname is not None:
-        cur_row = cur_row or getcatname(targetname)[0] in loopable.keys()
+        cur_row = cur_row or getcatname(targetname)[0].lower() in loopable.keys()
     # now indent the string
     noindent = func_text.splitlines()
     # get the minimum indent and remove empty lines
@@ -227,7 +227,7 @@ def start_traverse(in_node,api_table,target_id=None,loopable={},cat_meth=False,d
                   "need_current_row":False,"rhs":None,"inif":False}
   # create a virtual enclosing 'with' statement
   if target_id is not None and not cat_meth and not func:
-      cat,name = getcatname(target_id)
+      cat,name = getcatname(target_id.lower())   #names of categories are caseless
       special_info["special_id"][-1].update({"_"+cat:[cat,"",False]})
       if cat in special_info["loopable_cats"].keys():    #
           special_info["special_id"][-1]["_"+cat][1] = "looped_cat"
@@ -294,7 +294,7 @@ mentioned so that we can create a dependency tree.
         else:
             return traverse_ast(in_node[1])
     elif node_type == "ITEM_TAG":
-        return in_node[1]
+        return in_node[1].lower()
     elif node_type == "LITERAL":
         return in_node[1]
     elif node_type == "LIST":
@@ -361,15 +361,15 @@ elif node_type == "SUBSCRIPTION":  # variable, single expression
     newid = 0
     if in_node[1][0] == "ATOM" and in_node[1][1][0] == "ITEM_TAG":  #keyed lookup
         print("Found category used as item tag: subscribing")
-        newid = [in_node[1][1][1][1:],False,False]  #drop underscore and remember
+        newid = [in_node[1][1][1][1:].lower(),False,False]  #drop underscore and remember
     else:
         primary = traverse_ast(in_node[1])
         # check to see if this is a special variable
         for idtable in special_info["special_id"]:
             newid = idtable.get(primary,0)
             if newid: break
-            if primary in special_info["loopable_cats"].keys():   #loop category used
-                newid = [primary,False,False]
+            if primary.lower() in special_info["loopable_cats"].keys():   #loop category used
+                newid = [primary.lower(),False,False]
                 break
     if newid:
         #FIXME: the dataname may not be the <cat>.<obj> construction (eg pdCIF)
@@ -571,14 +571,14 @@ We do need to catch the case where a looped category has an explicit
 elif node_type == "WITH": #new_id old_id suite
     # each entry in special_id is [alias:[cat_name,loop variable, is_loop]]
     alias_id = python_name(in_node[1])
-    cat_id = in_node[2]
+    cat_id = in_node[2].lower()
     is_already_there = [a for a in special_info['special_id'][-1].keys() if \
         special_info['special_id'][-1][a][0] == cat_id]
     if len(is_already_there)>0:
         del special_info['special_id'][-1][is_already_there[0]]
         print("Found explicit loop category alias: %s for %s" % (alias_id,cat_id) )
     special_info['special_id'][-1].update({alias_id:[cat_id,"",False]})
-    if in_node[2] in special_info['loopable_cats'].keys(): #flag this
+    if cat_id in special_info['loopable_cats'].keys(): #flag this
         special_info['special_id'][-1][alias_id][1] = "looped_cat"
     outstring = traverse_ast(in_node[3])
     return outstring
@@ -589,7 +589,7 @@ for datanames as necessary and inserting the packet index as well.
 <<Loop statements>>=
 elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE 
     alias_id = python_name(in_node[1])
-    cat_id = in_node[2]
+    cat_id = in_node[2].lower()
     var_info = [cat_id,"",False]
     if cat_id not in special_info['loopable_cats'].keys():
         message =  "%s is not a loopable category (must be one of:\n%s)" % (cat_id,special_info['loopable_cats'].keys())
-- 
2.43.0


From c9550f68d87bcd9318222bbeaac0306c2b4ec0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 063/132] fix: packets of a category are counted without
 needing the value of an arbitrary item, and whatever names they have

---
 src/CifFile_module.nw   | 16 +++++++++++++---
 src/drel/py_from_ast.nw |  9 ++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 9afb90d..0d91740 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1325,6 +1325,14 @@ is true, we return only the object part of the dataname.  Note that sub
 categories are excluded.  TODO: use cat-obj table for speed.
 
 <<List all items in a category>>=
+def packet_count(self,cifdata,dataname):
+    """Return the number of packets containing [[dataname]] in [[cifdata]], where
+    it may be present as an alias"""
+    for name in [dataname] + self.alias_table.get(dataname.lower(),[]):
+        if name in cifdata:
+            return len(cifdata.GetItemValue(name))
+    return 0
+
 def names_in_cat(self,cat,names_only=False):
     names = [a for a in self.keys() if self[a].get('_name.category_id','').lower()==cat.lower()]
     if not names_only:
@@ -2902,7 +2910,7 @@ def derive_item(self,start_key,cifdata,store_value = False,allow_defaults=True):
     default_result = False #we have not used a default value
     <<Resolve using aliases>>
     the_category = self[key]["_name.category_id"]
-    cat_names = [a for a in self.keys() if self[a].get("_name.category_id",None)==the_category]
+    cat_names = self.names_in_cat(the_category)
     has_cat_names = [a for a in cat_names if cifdata.has_key_or_alias(a)]
     # store any default value in case we have a problem
     def_val = self[key].get("_enumeration.default","")
@@ -2944,7 +2952,7 @@ if self[the_category].get('_definition.class','Set')=='Loop':
     is_looped = True
     if len(has_cat_names)>0:   #this category already exists
         if result is None or default_result: #need to create a list of values
-            loop_len = len(cifdata[has_cat_names[0]])
+            loop_len = self.packet_count(cifdata,has_cat_names[0])
             out_result = [result]*loop_len
             result = out_result
     else:   #nothing exists in this category, we can't store this at all
@@ -2983,7 +2991,9 @@ def store_new_looped_value(self,key,cifdata,result,default_result):
                         return one_elem
               out_result = [conv_from_numpy(a) for a in result]
       # so out_result now contains a value suitable for storage
-      cat_names = [a for a in self.keys() if self[a].get("_name.category_id",None)==the_category]
+      cat_names = self.names_in_cat(the_category)
+      # they may be present under other names
+      cat_names = sum([[a] + self.alias_table.get(a.lower(),[]) for a in cat_names],[])
       has_cat_names = [a for a in cat_names if a in cifdata]
       print('Adding {}, found pre-existing names: '.format(key) + repr(has_cat_names))
       if len(has_cat_names)>0:   #this category already exists
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 7f17c1e..f0b16ca 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -43,6 +43,7 @@ pycifrw_func_table = {   #how to use PyCIFRW CifFile objects
          "data_access": "ciffile[%s]",   # argument is dataname to be accessed
          "element_no": "%s[%s]", # accessing a particular element of the result of data_access
          "count_data": "len(%s)", # number of elements for result of data_access
+         "count_packets": "ciffile.dictionary.packet_count(ciffile,%s)", # number of packets having dataname
          "cat_names":"ciffile.dictionary.names_in_cat(%s)", #names in category %s
          "has_name":"ciffile.has_key_or_alias(%s)",
          "semantic_packet":"ciffile.GetKeyedSemanticPacket(%s,%s)" #get a packet for key, value
@@ -160,7 +161,7 @@ number of packets during execution of the method.
         end_body += "        cat_names = %s\n" % (func_table["cat_names"] % ("'"+getcatname(targetname)[0]+"'"))
         end_body += "        have_name = [a for a in cat_names if %s]\n" % (func_table["has_name"] % "a")
         end_body += "        if len(have_name)>0:\n"
-        end_body += "           full_length = %s \n" % (func_table["count_data"] % (func_table["data_access"] % "have_name[0]"))
+        end_body += "           full_length = %s \n" % (func_table["count_packets"] % "have_name[0]")
         end_body += "           __row_id = range(full_length)\n"
         end_body += "        else:\n"
         end_body += "           return []\n"
@@ -607,7 +608,9 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
     # now emit some text: first to find the length of the category
     # loopable cats contains a list of names defined for the category
     # this might not be robust as we ignore alternative resolutions of the (cat,name) pair
-    catnames = set([a[1][0] for a in cif_dic.cat_obj_lookup_table.items() if a[0][0]==cat_id.lower()])
+    # the names of the category itself come before those of child categories
+    catnames = set([a[1][0] for a in cif_dic.cat_obj_lookup_table.items() if a[0][0]==cat_id])
+    catnames = sorted(catnames,key=lambda a:(cif_dic[a]['_name.category_id'].lower()!=cat_id,a))
     outstring = "__pyallitems = " + repr(catnames)
     outstring += "\nprint('names in cat = %s' % repr(__pyallitems))"
     outstring += "\n" + "__pycitems = [a for a in __pyallitems if %s]" % (api_table["has_name"] % "a")
@@ -620,7 +623,7 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
     outstring += "    print('After category creation, names in cat ->' + repr(__pycitems))\n"
     special_info["depends"].add(cat_key)  #add key as a dependency
     if var_info[2] == True:
-        access_string = api_table["count_data"] % (api_table["data_access"] % "__pycitems[0]")
+        access_string = api_table["count_packets"] % "__pycitems[0]"
         outstring += "\n" + "__loop_range%d = range(%s)" % (loop_num,access_string)
     else:
         outstring += "\n" + "__loop_range%d = [0]" % loop_num
-- 
2.43.0


From 346556945d1c0a724a4e54c0eb328cdab6235f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 064/132] fix: a packet can be obtained when some of its
 unknown values cannot be derived

---
 src/StarFile.nw | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index cac3e90..b0ae0fe 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1301,13 +1301,22 @@ def __contains__(self,key):
 def has_key(self,key):
     return key in self
 
+def packet_column(self,dataname):
+    """Return the values of [[dataname]] for construction of packets, and whether
+    they are the final values"""
+    try:
+        return self.parent_block[dataname],True
+    except StarDerivationError:   #unknown and not derivable just now
+        return self.parent_block.GetItemValue(dataname),False
+
 def __iter__(self):
-    packet_list = zip(*self.values())
-    names = self.keys()
-    for p in packet_list:
+    names = self.keys()[:]
+    columns = [self.packet_column(a) for a in names]
+    for p in zip(*[values for values,known in columns]):
         r = StarPacket(p)
         for n in range(len(names)):
-            setattr(r,names[n].lower(),r[n])
+            if columns[n][1]:   #otherwise derived when asked for
+                setattr(r,names[n].lower(),r[n])
         yield r
 
 # for compatibility
@@ -1365,9 +1374,11 @@ class StarPacket(list):
 <<Get nth loop packet>>=
 def GetPacket(self,index):
     thispack = StarPacket([])
-    for myitem in self.parent_block.loops[self.loop_no]:
-        thispack.append(self[myitem][index])
-        setattr(thispack,myitem,thispack[-1])
+    for myitem in self.GetItemOrder():
+        values,known = self.packet_column(myitem)
+        thispack.append(values[index])
+        if known:
+            setattr(thispack,myitem,thispack[-1])
     return thispack
 
 @ Adding a packet.  We are passed a StarPacket object, which is just a list which is accessible by attribute.
-- 
2.43.0


From a2f1d765e6178f7af5076ece104261a7d2f62acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 065/132] fix: attributes of keyed packets are found under the
 aliases of their datanames

---
 src/StarFile.nw | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index b0ae0fe..d2f15e1 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1367,6 +1367,10 @@ class StarPacket(list):
         # self.key is a list of the key values
         keydict = dict([(v,(getattr(self,v),True)) for v in k])
         full_pack = c.GetCompoundKeyedPacket(keydict)
+        if att_name.lower() not in full_pack.__dict__:  # it may be present under another name
+            for alias in d.alias_table.get(att_name.lower(),[]):
+                if alias.lower() in full_pack.__dict__:
+                    return d.change_type(att_name,getattr(full_pack,alias.lower()))
         return getattr(full_pack,att_name)
 
 @ Get nth looped packet.  This returns a packet of data.
-- 
2.43.0


From ef279ef25de06ac71c5fdabe1d2dc4d5f9bb0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 066/132] fix: validation does not remove items from the file
 validated

---
 src/CifFile_module.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 0d91740..ce7bfb5 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3896,13 +3896,14 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
            block_scope = 'Item'
         else:
            block_scope = 'Datablock'
-        no_matches[block] = [a for a in check_file[block].keys() if a not in fulldic]
+        check_block = check_file[block].copy()   #leave the file alone
+        no_matches[block] = [a for a in check_block.keys() if a not in fulldic]
         # remove non-matching items
         print("Not matched: " + repr(no_matches[block]))
         for nogood in no_matches[block]:
-             del check_file[block][nogood]
+             del check_block[nogood]
         print("Validating block %s, scope %s" % (block,block_scope))
-        valid_result[block] = run_data_checks(check_file[block],fulldic,block_scope=block_scope)
+        valid_result[block] = run_data_checks(check_block,fulldic,block_scope=block_scope)
     return valid_result,no_matches
 
 def validate_report(val_result,use_html=False):
-- 
2.43.0


From 147bd6b40a8db4be10a0ee7b9ea29b150ab3a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 067/132] fix: loops mixing categories of DDL1 and DDL2
 dictionaries are not valid

---
 src/CifFile_module.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index ce7bfb5..bf5d81b 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2181,6 +2181,8 @@ def get_final_cats(self,loop_names):
         categories = [self[a][self.cat_spec].lower() for a in loop_names]
     except KeyError:       #category_id is mandatory
         raise ValidCifError( "%s missing from dictionary %s for item in loop containing %s" % (self.cat_spec,self.dicname,loop_names[0]))
+    if self.diclang != "DDLm":   #no loopable categories or category parents
+        return categories
     truly_looped = [a for a in categories if a in self.parent_lookup.keys()]
     return [self.parent_lookup[a] for a in truly_looped]
 
-- 
2.43.0


From b82e8c9116d48e2202c71b6fc6610ed39350fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 068/132] fix: the mandatory items of a DDL1 category are
 required in its loops

---
 src/CifFile_module.nw | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index bf5d81b..b6d7de2 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -603,7 +603,7 @@ def dic_determine(self):
         self.must_loop_spec = "_list"
         self.must_exist_spec = "_list_mandatory"
         self.list_ref_spec = "_list_reference"
-        self.key_spec = "_list_mandatory"
+        self.key_spec = "_category_mandatory.name"   #as collected later
         self.unique_spec = "_list_uniqueness"
         self.child_spec = "_list_link_child"
         self.parent_spec = "_list_link_parent"
@@ -2197,7 +2197,7 @@ the given category itself.
 def validate_loop_key(self,loop_names):
     category = self[loop_names[0]][self.cat_spec]
     # find any unique values which must be present
-    key_spec = self[category].get(self.key_spec,[])
+    key_spec = listify(self[category].get(self.key_spec,[]))
     for names_to_check in key_spec:
         if isinstance(names_to_check,unicode):   #only one
             names_to_check = [names_to_check]
@@ -2209,10 +2209,8 @@ def validate_loop_key(self,loop_names):
                 alternates = self.get_alternates(loop_key)
                 if alternates == []:
                     return {"result":False,"bad_items":loop_key}
-                for alt_names in alternates:
-                    alt = [a for a in alt_names if a in loop_names]
-                    if len(alt) == 0:
-                        return {"result":False,"bad_items":loop_key}  # no alternates
+                if len(filter_present(alternates,loop_names)) == 0:
+                    return {"result":False,"bad_items":loop_key}  # no alternates
     return {"result":True}
 
 @  Validating keys in DDLm. We move everything to the uppermost parent category, and
-- 
2.43.0


From 849981273b6e95b2e7da8dd595ab5ae44720d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 069/132] fix: uncertainties are checked for numeric items with
 type constructs and in DDL2

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index b6d7de2..b24b130 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2039,7 +2039,7 @@ esd if _type.purpose is Number.
 
 <<Validate esd presence>>=
 def validate_item_esd(self,item_name,item_value):
-    if self[item_name].get(self.primitive_type) != 'numb':
+    if self.primdic.get(self[item_name].get(self.type_spec)) != 'numb':
         return {"result":None}
     can_esd = self[item_name].get(self.esd_spec,"none") == "esd"
     if can_esd: return {"result":True}         #must be OK!
-- 
2.43.0


From 324404df4ae8e58825abd3ff25fb5e9dbd14b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 070/132] fix: an enumeration may consist of a single unlooped
 value

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index b24b130..0fd03b0 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2107,7 +2107,7 @@ will probably have a mismatch.
 <<Validate an enumeration>>=
 def validate_item_enum(self,item_name,item_value):
     try:
-        enum_list = self[item_name][self.enum_spec][:]
+        enum_list = list(listify(self[item_name][self.enum_spec]))
     except KeyError:
         return {"result":None}
     enum_list.append(".")   #default value
-- 
2.43.0


From 4cfbd94fcdd05d289b809360f3f16cc174fbbafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 071/132] fix: loops without any item of a referenced group are
 not valid

---
 src/CifFile_module.nw | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 0fd03b0..05376af 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2258,8 +2258,9 @@ def validate_loop_references(self,loop_names):
         nl = map(lambda a:a[:len(s_item)],name_list)
         if s_item in nl: return True
         return False
-    res_g = [a for a in group_mh if check_gr(a,loop_names)]
-    if len(res) == 0 and len(res_g) == 0: return {"result":True}
+    res_g = [a for a in group_mh if not check_gr(a,loop_names)]
+    if len(res_g) > 0: return {"result":False,"bad_items":set(res_g)}
+    if len(res) == 0: return {"result":True}
     # construct alternate list
     alternates = [(a,self.get_alternates(a)) for a in res]
     real_alternates = [a for a in alternates if len(a[1]) != 0]
-- 
2.43.0


From e9f7ba55787f3c12ac943583f14fdcd533704d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 072/132] fix: combinations of values are compared exactly in
 checks for uniqueness

---
 src/CifFile_module.nw | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 05376af..d673ed0 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1010,7 +1010,7 @@ def ddl1_cat_load(self):
         # is true for all current (May 2005) ddl1 dictionaries.
         if self[single_def].get(self.unique_spec,None)!=None:
             thiscat = self[single_def]["_category"]
-            new_unique = self[single_def][self.unique_spec]
+            new_unique = self[single_def][self.unique_spec].lower()
             uis = cat_unique_dic.get(thiscat,[])
             if single_def not in uis: uis.append(single_def)
             if new_unique not in uis: uis.append(new_unique)
@@ -2530,9 +2530,8 @@ def validate_uniqueness(self,item_name,item_value,whole_block,provisional_items=
         return {"result":None}
     # print("Category {!r} for item {}".format(category, item_name))
     # we make a copy in the following as we will be removing stuff later!
-    unique_i = self[category].get("_category_key.name",[])[:]
-    if isinstance(unique_i,unicode):
-        unique_i = [unique_i]
+    unique_i = [a.lower() for a in listify(self[category].get("_category_key.name",[]))]
+    item_name = item_name.lower()
     if item_name not in unique_i:       #no need to verify
         return {"result":None}
     if isinstance(item_value,unicode):  #not looped
@@ -2561,18 +2560,22 @@ def validate_uniqueness(self,item_name,item_value,whole_block,provisional_items=
                other_data.append([item_name]*len(item_value))  #placeholder
            else:
                return {"result":False,"bad_items":other_name}#missing data name
+           if isinstance(other_data[-1],unicode):   #the same for all packets
+               other_data[-1] = [other_data[-1]]*len(item_value)
+           elif len(other_data[-1]) != len(item_value) or \
+                (other_name not in provisional_items and item_name in whole_block and
+                 whole_block.FindLoop(other_name) != whole_block.FindLoop(item_name)):
+               return {"result":False,"bad_items":other_name}  #not in the same loop
     # ok, so we go through all of our values
     # this works by comparing lists of strings to one other, and
     # so could be fooled if you think that '1.' and '1' are
     # identical
     for i in range(len(item_value)):
         #print("Value no. %d" % i, end=" ")
-        this_entry = item_value[i]
-        for j in range(len(other_data)):
-            this_entry = " ".join([this_entry,other_data[j][i]])
+        this_entry = [item_value[i]] + [other[i] for other in other_data]
         #print("Looking for {!r} in {!r}: ".format(this_entry, val_list))
         if this_entry in val_list:
-            return {"result":False,"bad_values":this_entry}
+            return {"result":False,"bad_values":[" ".join(this_entry)]}
         val_list.append(this_entry)
     return {"result":True}
 
-- 
2.43.0


From 4620fb6346bb5286fb0d12ebf4c9f8ef7efe981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 073/132] fix: alternative datanames are found whatever their
 case

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index d673ed0..0ba0ede 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2311,7 +2311,7 @@ def get_alternates(self,main_name,exclusive_only=False):
         alt_names = list([a[0] for a in alt_names])
     # now do the alias thing
     alias_names = listify(self[main_name].get("_item_aliases.alias_name",[]))
-    alt_names.extend(alias_names)
+    alt_names = [a.lower() for a in alt_names + alias_names]
     # print("Alternates for {}: {!r}".format(main_name, alt_names))
     return alt_names
 
-- 
2.43.0


From 628636a3f5de6fa8a75b4fd7a337a3a19620e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 074/132] fix: the whole value has to match alternatives in
 type constructs

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 0ba0ede..c12ec16 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2727,7 +2727,7 @@ def add_type_info(self):
     if "_item_type_list.construct" in self.master_block:
         types = self.master_block["_item_type_list.code"]
         prim_types = self.master_block["_item_type_list.primitive_code"]
-        constructs = list([a + "$" for a in self.master_block["_item_type_list.construct"]])
+        constructs = list(["(?:" + a + ")$" for a in self.master_block["_item_type_list.construct"]])
         # add in \r wherever we see \n, and change \{ to \\{
         def regex_fiddle(mm_regex):
             brack_match = r"((.*\[.+)(\\{)(.*\].*))"
-- 
2.43.0


From bfdf831f125db5961f0eea4fc554db909816753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 075/132] fix: numbers may have a plus sign

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index c12ec16..2cef92c 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -698,7 +698,7 @@ def DDL1_normalise(self):
     base_types = ["char","numb","null"]
     prim_types = base_types[:]
     base_constructs = [".*",
-        '(-?(([0-9]*[.][0-9]+)|([0-9]+)[.]?)([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?)|\\?|\\.',
+        '([+-]?(([0-9]*[.][0-9]+)|([0-9]+)[.]?)([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?)|\\?|\\.',
         "\"\" "]
     for key,value in self.items():
        newnames = [key]  #keep by default
@@ -4108,7 +4108,7 @@ if necessary, apply the exponent.
 
 <<Extract number and esd>>=
 def get_number_with_esd(numstring):
-    numb_re = '((-?(([0-9]*[.]([0-9]+))|([0-9]+)[.]?))([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?)|(\\?)|(\\.)'
+    numb_re = '(([+-]?(([0-9]*[.]([0-9]+))|([0-9]+)[.]?))([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?)|(\\?)|(\\.)'
     our_match = re.match(numb_re,numstring)
     if our_match:
         a,base_num,b,c,dad,dbd,esd,exp,q,dot = our_match.groups()
-- 
2.43.0


From 46268a63697f40b92c67411b80b0847a147ba750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 076/132] fix: validation results can be asked about whole
 files

---
 src/CifFile_module.nw | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 2cef92c..21ec58b 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3819,7 +3819,7 @@ class ValidationResult:
         """results is return value of validate function"""
         self.valid_result, self.no_matches = results
 
-    def report(self,use_html):
+    def report(self,use_html=False):
         """Return string with human-readable description of validation result"""
         return validate_report((self.valid_result, self.no_matches),use_html)
 
@@ -3828,28 +3828,16 @@ class ValidationResult:
         if block_name is not None:
             block_names = [block_name]
         else:
-            block_names = self.valid_result.iterkeys()
-        for block_name in block_names:
-            if not self.valid_result[block_name] == (True,{}):
-                valid = False
-                break
-            else:
-                valid = True
-        return valid
+            block_names = self.valid_result.keys()
+        return all([self.valid_result[a][0] for a in block_names])
 
     def has_no_match_items(self,block_name=None):
         """Return true if some items are not found in dictionary"""
         if block_name is not None:
             block_names = [block_name]
         else:
-            block_names = self.no_matches.iter_keys()
-        for block_name in block_names:
-            if self.no_matches[block_name]:
-                has_no_match_items = True
-                break
-            else:
-                has_no_match_items = False
-        return has_no_match_items
+            block_names = self.no_matches.keys()
+        return any([len(self.no_matches[a])>0 for a in block_names])
 
 
 
-- 
2.43.0


From 5fc116d0456325bc45bd2beac8433e29ad516e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 077/132] fix: AddCifItem does not split single values into
 characters

---
 src/CifFile_module.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 21ec58b..02f79fc 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -290,9 +290,11 @@ def AddCifItem(self,data):
               raise TypeError('Cif datanames are either a string, tuple or list')
     # we catch single item loops as well...
     if isinstance(data[0],(unicode,str)):
-        self.AddSingleCifItem(data[0],list(data[1]))
         if isinstance(data[1],(tuple,list)) and not isinstance(data[1],StarFile.StarList):  # a single element loop
+            self.AddSingleCifItem(data[0],list(data[1]))
             self.CreateLoop([data[0]])
+        else:
+            self.AddSingleCifItem(data[0],data[1])
         return
     # otherwise, we loop over the datanames
     keyvals = zip(data[0][0],[list(a) for a in data[1][0]])
-- 
2.43.0


From f269fbf3bd7920a9b7c818fe24f0b49d9c7b5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 078/132] fix: blocks containing items that are not in the
 dictionary can be valid

---
 src/CifFile_module.nw | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 02f79fc..c3303c6 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3569,13 +3569,16 @@ facilities provided in the [[CifDic]] object.
 def run_data_checks(self,verbose=False):
     self.v_result = {}
     self.fulldic.optimize_on()
+    known = CifBlock(data=self)   #only those items found in the dictionary
     for dataname in self.keys():
-        update_value(self.v_result,self.fulldic.run_item_validation(dataname,self[dataname]))
-        update_value(self.v_result,self.fulldic.run_global_validation(dataname,self[dataname],self))
-    for loop_names in self.loops.values():
+        if dataname not in self.fulldic: known.RemoveItem(dataname)
+    for dataname in known.keys():
+        update_value(self.v_result,self.fulldic.run_item_validation(dataname,known[dataname]))
+        update_value(self.v_result,self.fulldic.run_global_validation(dataname,known[dataname],known))
+    for loop_names in known.loops.values():
         update_value(self.v_result,self.fulldic.run_loop_validation(loop_names))
     # now run block-level checks
-    update_value(self.v_result,self.fulldic.run_block_validation(self))
+    update_value(self.v_result,self.fulldic.run_block_validation(known,block_scope='Datablock'))
     # return false and list of baddies if anything didn't match
     self.fulldic.optimize_off()
     all_keys = list(self.v_result.keys()) #dictionary will change
@@ -3601,7 +3604,7 @@ def report(self):
    for item_name,val_func_list in self.v_result.items():
        outstr.write("%s fails following tests:\n" % item_name)
        for val_func in val_func_list:
-           outstr.write("\t%s\n")
+           outstr.write("\t%s\n" % val_func[0])
    return outstr.getvalue()
 
 @ It is not a mistake for a data name to be absent from any of the
-- 
2.43.0


From 3b9c1d48cc89e37d6c6eb98cff258d1f3b4145ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 079/132] fix: items can be removed from validated blocks

---
 src/CifFile_module.nw | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index c3303c6..2507b52 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2670,8 +2670,17 @@ def run_global_validation(self,item_name,item_value,data_block,provisional_items
     results = list([(f.__name__,f(item_name,item_value,data_block,provisional_items,globals)) for f in self.global_validation_funs])
     return {item_name:results}
 
+def run_remove_global_validation(self,item_name,whole_block):
+    results = list([(f.__name__,f(item_name,whole_block)) for f in self.global_remove_validation_funs])
+    return {item_name:results}
+
 def run_block_validation(self,whole_block,block_scope='Item'):
-    results = list([(f.__name__,f(whole_block)) for f in self.block_validation_funs])
+    results = []
+    for f in self.block_validation_funs:
+        if f == self.validate_mandatory_category:
+            results.append((f.__name__,f(whole_block)))
+        else:
+            results.append((f.__name__,f(whole_block,default_scope=block_scope)))
     # fix up the return values
     return {"whole_block":results}
 
@@ -3628,9 +3637,8 @@ def single_item_check(self,item_name,item_value):
 def loop_item_check(self,loop_names):
     in_dic_names = list([a for a in loop_names if a in self.fulldic])
     if len(in_dic_names)==0:
-        result = {loop_names[0]:[]}
-    else:
-        result = self.fulldic.run_loop_validation(in_dic_names)
+        return True,[]
+    result = self.fulldic.run_loop_validation(in_dic_names)
     baddies = list([a for a in result[in_dic_names[0]] if a[1]["result"]==False])
     # if even one false one is found, this should trigger
     isvalid = (len(baddies) == 0)
@@ -3653,7 +3661,7 @@ def remove_global_item_check(self,item_name):
     if item_name not in self.fulldic:
         result = {item_name:[]}
     else:
-        result = self.fulldic.run_remove_global_validation(item_name,self,False)
+        result = self.fulldic.run_remove_global_validation(item_name,self)
     baddies = list([a for a in result[item_name] if a[1]["result"]==False])
     # if even one false one is found, this should trigger
     isvalid = (len(baddies) == 0)
@@ -3712,16 +3720,13 @@ def __delitem__(self,key):
     # we don't need to run single item checks; we do need to run loop and
     # global checks.
     if key in self:
-        try:
-            loop_items = self.GetLoop(key)
-        except TypeError:
-            loop_items = []
-        if loop_items:             #need to check loop conformance
-            loop_names = [a[0] for a in loop_items if a[0] != key]
+        loop_no = self.FindLoop(key)
+        if loop_no >= 0:             #need to check loop conformance
+            loop_names = [a for a in self.loops[loop_no] if a != key.lower()]
             valid,problems = self.loop_item_check(loop_names)
-            self.report_if_invalid(valid,problems)
+            self.report_if_invalid(valid,problems,key)
         valid,problems = self.remove_global_item_check(key)
-        self.report_if_invalid(valid,problems)
+        self.report_if_invalid(valid,problems,key)
     self.RemoveCifItem(key)
 
 @ Adding to a loop.  We find the loop containing the dataname that
-- 
2.43.0


From 6a9d708fbd6a1d372614f71e5b266a643401cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 080/132] fix: loops can be added to validated blocks

---
 src/CifFile_module.nw | 61 +++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 2507b52..1b076b5 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3682,23 +3682,24 @@ def AddCifItem(self,data):
         self.report_if_invalid(valid,problems,data[0])
         valid,problems = self.global_item_check(data[0],data[1])
         self.report_if_invalid(valid,problems,data[0])
+        super(ValidCifBlock,self).AddCifItem(data)
     elif isinstance(data[0],tuple) or isinstance(data[0],list):
-        paired_data = list(zip(data[0],data[1]))
+        names,values = data
+        if not isinstance(names[0],(unicode,str)):   #nested, as for CifBlock
+            names,values = names[0],values[0]
+        paired_data = list(zip(names,[list(a) for a in values]))
         for name,value in paired_data:
             valid,problems = self.single_item_check(name,value)
             self.report_if_invalid(valid,problems,name)
-        valid,problems = self.loop_item_check(data[0])
-        self.report_if_invalid(valid,problems,data[0])
-        prov_dict = {}            # for storing temporary items
-        for name,value in paired_data: prov_dict[name]=value
+        valid,problems = self.loop_item_check([a.lower() for a in names])
+        self.report_if_invalid(valid,problems,names)
+        self.check_together(dict(paired_data))
+        # everything has been checked
         for name,value in paired_data:
-            del prov_dict[name]   # remove temporarily
-            valid,problems = self.global_item_check(name,value,prov_dict)
-            prov_dict[name] = value  # add back in
-            self.report_if_invalid(valid,problems,name)
+            super(ValidCifBlock,self).AddItem(name,value)
+        self.CreateLoop(names)
     else:
         raise ValueError("Programming error: AddCifItem passed non-tuple,non-string item")
-    super(ValidCifBlock,self).AddCifItem(data)
 
 def AddItem(self,key,value,**kwargs):
     """Set value of dataname `key` to `value` after checking for conformance with CIF dictionary"""
@@ -3708,7 +3709,14 @@ def AddItem(self,key,value,**kwargs):
     self.report_if_invalid(valid,problems,key)
     super(ValidCifBlock,self).AddItem(key,value,**kwargs)
 
-# utility function
+# utility functions
+def check_together(self,new_items):
+    """Check the effect of adding a dictionary of items that depend on each other"""
+    for name,value in new_items.items():
+        others = dict([(a.lower(),b) for a,b in new_items.items() if a != name])
+        valid,problems = self.global_item_check(name,value,others)
+        self.report_if_invalid(valid,problems,name)
+
 def report_if_invalid(self,valid,bad_list,data_name):
     if not valid:
         bad_tests = [a[0] for a in bad_list]
@@ -3740,26 +3748,21 @@ loop, and has no other significance.
 <<Add to looped data with validity checks>>=
 def AddToLoop(self,dataname,loopdata):
     # single item checks
-    paired_data = loopdata.items()
-    for name,value in paired_data:
+    for name,value in loopdata.items():
         valid,problems = self.single_item_check(name,value)
-        self.report_if_invalid(valid,problems)
+        self.report_if_invalid(valid,problems,name)
     # loop item checks; merge with current loop
-    found = 0
-    for aloop in self.block["loops"]:
-        if dataname in aloop:
-            loopnames = aloop.keys()
-            for new_name in loopdata.keys():
-                if new_name not in loopnames: loopnames.append(new_name)
-            valid,problems = self.looped_item_check(loopnames)
-            self.report_if_invalid(valid,problems)
-    prov_dict = loopdata.copy()
-    for name,value in paired_data:
-        del prov_dict[name]   # remove temporarily
-        valid,problems = self.global_item_check(name,value,prov_dict)
-        prov_dict[name] = value  # add back in
-        self.report_if_invalid(valid,problems)
-    CifBlock.AddToLoop(self,dataname,loopdata)
+    if self.FindLoop(dataname) >= 0:
+        loopnames = self.loops[self.FindLoop(dataname)][:]
+        for new_name in loopdata.keys():
+            if new_name.lower() not in loopnames: loopnames.append(new_name.lower())
+        valid,problems = self.loop_item_check(loopnames)
+        self.report_if_invalid(valid,problems,dataname)
+    self.check_together(loopdata)
+    for name,value in loopdata.items():
+        super(ValidCifBlock,self).AddItem(name,value)
+    for name in loopdata:
+        self.AddLoopName(dataname,name)
 
 @  Note that a dictionary must be specified in order to create a valid
 Cif file.  This dictionary is then passed to any blocks.  If they were
-- 
2.43.0


From e1fa80f1db17b87e8689c3bf7d22cc99a26c98b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 081/132] fix: all children of an item are checked when
 initialising validated blocks

---
 src/CifFile_module.nw | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 1b076b5..dfcff54 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2376,10 +2376,10 @@ def validate_parent(self,item_name,item_value,whole_block,provisional_items={},g
     if isinstance(parent_item,list):
         parent_item = parent_item[0]
     if self.optimize:
-        if parent_item in self.done_parents:
+        if (parent_item,item_name) in self.done_parents:
             return {"result":None}
         else:
-            self.done_parents.append(parent_item)
+            self.done_parents.append((parent_item,item_name))
             print("Done parents %s" % repr(self.done_parents))
     # initialise parent/child values
     if isinstance(item_value,unicode):
@@ -2437,10 +2437,10 @@ def validate_child(self,item_name,item_value,whole_block,provisional_items={},gl
     # now loop over the children
     for child_item in child_items:
         if self.optimize:
-            if child_item in self.done_children:
-                return {"result":None}
+            if (item_name,child_item) in self.done_children:
+                continue
             else:
-                self.done_children.append(child_item)
+                self.done_children.append((item_name,child_item))
                 print("Done children %s" % repr(self.done_children))
         if child_item in provisional_items:
             child_values = provisional_items[child_item][:]
-- 
2.43.0


From 41561ae988aa1260d0d4d14f04e998e8720399d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 082/132] fix: parents and children are found in added loops
 whatever the case of their names

---
 src/CifFile_module.nw | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index dfcff54..d16d8f3 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2375,6 +2375,7 @@ def validate_parent(self,item_name,item_value,whole_block,provisional_items={},g
     if not parent_item: return {"result":None}   #no parent specified
     if isinstance(parent_item,list):
         parent_item = parent_item[0]
+    parent_item = parent_item.lower()
     if self.optimize:
         if (parent_item,item_name) in self.done_parents:
             return {"result":None}
@@ -2420,14 +2421,12 @@ def validate_parent(self,item_name,item_value,whole_block,provisional_items={},g
 
 def validate_child(self,item_name,item_value,whole_block,provisional_items={},globals={}):
     try:
-        child_items = self[item_name][self.child_spec][:]  #copy
+        child_items = [a.lower() for a in listify(self[item_name][self.child_spec])]
     except KeyError:
         return {"result":None}    #not relevant
     # special case for dictionaries  -> we check parents of children only
     if item_name in globals:  #dictionary so skip
         return {"result":None}
-    if isinstance(child_items,unicode): # only one child
-        child_items = [child_items]
     if isinstance(item_value,unicode): # single value
         parent_values = [item_value]
     else: parent_values = item_value[:]
-- 
2.43.0


From c66f0db396c737555e97ef1f3e86a4403a01e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 083/132] fix: uncertainties are checked for DDLm dictionaries

---
 src/CifFile_module.nw | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index d16d8f3..4b8e0cd 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2036,8 +2036,8 @@ Note that we make use of the primitive type here; there are some
 cases where a string type looks like an esd, so unless we know
 we have a number we ignore these cases.
 
-DDLm requires an esd if _type.purpose is Measurand, and should not have an
-esd if _type.purpose is Number.
+DDLm requires an esd if _type.purpose is Measurand, but this could be given as
+the value of a separate dataname.  There should not be an esd otherwise.
 
 <<Validate esd presence>>=
 def validate_item_esd(self,item_name,item_value):
@@ -2051,16 +2051,15 @@ def validate_item_esd(self,item_name,item_value):
     return {"result":True}
 
 def validate_item_esd_ddlm(self,item_name,item_value):
-    if self[item_name].get('self.primitive_type') not in \
+    if self[item_name].get(self.primitive_type) not in \
     ['Count','Index','Integer','Real','Imag','Complex','Binary','Hexadecimal','Octal']:
         return {"result":None}
-    can_esd = True
-    if self[item_name].get('_type.purpose') != 'Measurand':
-        can_esd = False
+    if self[item_name].get('_type.container','Single') != 'Single':
+        return {"result":None}
+    if self[item_name].get('_type.purpose') == 'Measurand':
+        return {"result":True}    #the uncertainty may be in a separate item
     item_values = listify(item_value)
-    check_all = [get_number_with_esd(a)[1] for a in item_values]
-    check_all = [v for v in check_all if (can_esd and v == None) or \
-             (not can_esd and v != None)]
+    check_all = [a for a in item_values if get_number_with_esd(a)[1] != None]
     if len(check_all)>0: return {"result":False,"bad_values":check_all}
     return {"result":True}
 
-- 
2.43.0


From 0aa098ea3d1bc113d00eb25846253886ebfb8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 084/132] fix: looped categories can be nested more than one
 deep

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 4b8e0cd..d8a0a8a 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1112,7 +1112,7 @@ def create_cat_key_table(self):
             kk = []
             for child_cat in child_cats:
                 if child_cat in self.loop_expand_list:
-                    kk += collect_keys(child_cat)
+                    kk += collect_keys(child_cat,self.loop_expand_list[child_cat])
                 # add these keys to our list
                 kk += [listify(self[child_cat].get('_category_key.name',[self[child_cat].get('_category.key_id')]))]
             self.cat_key_table[parent_cat] = self.cat_key_table[parent_cat] + kk
-- 
2.43.0


From 3bf3b2ec7cbb7839afec6098044bec96d1529366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 085/132] fix: loops of a child category can be identified by
 the key of that category

---
 src/CifFile_module.nw | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index d8a0a8a..1fc0022 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2223,7 +2223,11 @@ def validate_loop_key_ddlm(self,loop_names):
     """Make sure at least one of the necessary keys are available"""
     final_cats = self.get_final_cats(loop_names)
     if len(final_cats)>0:
-        poss_keys = self.cat_key_table[final_cats[0]][0] # 
+        poss_keys = []
+        for one_cat in set([self[a][self.cat_spec].lower() for a in loop_names]):
+            while one_cat in self.parent_lookup:   #own keys, then those of the parents
+                poss_keys += [a.lower() for a in self.cat_key_table[one_cat][0] if a is not None]
+                one_cat = self[one_cat]['_name.category_id'].lower()
         found_keys = [a for a in poss_keys if a in loop_names]
         if len(found_keys)>0:
             return {"result":True}
-- 
2.43.0


From 6c545ba2471f84281acc8527417d3acfd04036d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 086/132] fix: a reference dictionary need not restrict all
 scopes

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 1fc0022..caf11aa 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2634,7 +2634,7 @@ def check_mandatory_items(self,whole_block,default_scope='Item'):
     scope = whole_block.get('_definition.scope',default_scope)
     if '_dictionary.title' in whole_block:
        scope = 'Dictionary'
-    missing = list([a for a in self.scopes_mandatory[scope] if a not in whole_block])
+    missing = list([a for a in self.scopes_mandatory.get(scope,[]) if a not in whole_block])
     if len(missing)==0:
         return {"result":True}
     else:
@@ -2649,7 +2649,7 @@ def check_prohibited_items(self,whole_block,default_scope='Item'):
     scope = whole_block.get('_definition.scope',default_scope)
     if '_dictionary.title' in whole_block:
        scope = 'Dictionary'
-    present = list([a for a in self.scopes_naughty[scope] if a in whole_block])
+    present = list([a for a in self.scopes_naughty.get(scope,[]) if a in whole_block])
     if len(present)==0:
         return {"result":True}
     else:
-- 
2.43.0


From a3b94fed8d522d1ee7ccce9252fb239da9759fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 087/132] fix: validation reports cover all DDLm tests

---
 src/CifFile_module.nw | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index caf11aa..30bfee9 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3964,12 +3964,16 @@ def validate_report(val_result,use_html=False):
             "The following data items had badly formed values",
         'validate_item_esd':\
             "The following data items should not have esds appended",
+        'validate_item_esd_ddlm':\
+            "The following data items should not have esds appended",
         'validate_enum_range':\
             "The following data items have values outside permitted range",
         'validate_item_enum':\
             "The following data items have values outside permitted set",
         'validate_looping':\
             "The following data items violate looping constraints",
+        'validate_looping_ddlm':\
+            "The following data items are looped, but are not from looped categories",
         'validate_loop_membership':\
             "The following looped data names are of different categories to the first looped data name",
         'validate_loop_key':\
-- 
2.43.0


From 5732b268590dbdc8e2c24e1c2f5ff3c20fd2babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 088/132] fix: parsers report the position of tokens no
 alternative matches

---
 src/yapps3/grammar.py       | 8 ++++----
 src/yapps3/parsetree.py     | 4 ++--
 src/yapps3/yapps_grammar.py | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/yapps3/grammar.py b/src/yapps3/grammar.py
index f291072..84d523f 100644
--- a/src/yapps3/grammar.py
+++ b/src/yapps3/grammar.py
@@ -120,7 +120,7 @@ class ParserDescription(yappsrt.Parser):
                 Str = self.Str(_context)
                 tok.append( ('#ignore',Str) )
             else:
-                raise yappsrt.YappsSyntaxError(_token[0], 'Could not match Tokens')
+                raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match Tokens')
         if self._peek() not in ['"token"', '"ignore"', 'EOF', '"rule"']:
             raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Need one of ' + ', '.join(['"token"', '"ignore"', 'EOF', '"rule"']))
         return tok
@@ -178,7 +178,7 @@ class ParserDescription(yappsrt.Parser):
         elif _token not in ['"ignore"', '"token"', '"option"', '":"', '"parser"', 'ATTR', 'COLON']:
             return ClauseD
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match ClauseC')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match ClauseC')
 
     def ClauseD(self, rule, tokens, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'ClauseD', [rule, tokens])
@@ -206,7 +206,7 @@ class ParserDescription(yappsrt.Parser):
             STMT = self._scan('STMT')
             return parsetree.Eval(rule, STMT[2:-2])
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match ClauseD')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match ClauseD')
 
     def OptParam(self, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'OptParam', [])
@@ -217,7 +217,7 @@ class ParserDescription(yappsrt.Parser):
         elif _token not in ['"ignore"', '"token"', '"option"', '"parser"', 'COLON']:
             return ''
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match OptParam')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match OptParam')
 
     def Str(self, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'Str', [])
diff --git a/src/yapps3/parsetree.py b/src/yapps3/parsetree.py
index c8c1af5..e06996f 100644
--- a/src/yapps3/parsetree.py
+++ b/src/yapps3/parsetree.py
@@ -548,8 +548,8 @@ class Choice(Node):
 
         if tokens_unseen:
             gen.write(indent, "else:\n")
-            gen.write(indent, INDENT, "raise yappsrt.YappsSyntaxError(_token[0], ")
-            gen.write("'Could not match ", self.rule, "')\n")
+            gen.write(indent, INDENT, "raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, ")
+            gen.write("msg='Could not match ", self.rule, "')\n")
 
 class Wrapper(Node):
     """This is a base class for nodes that modify a single child."""
diff --git a/src/yapps3/yapps_grammar.py b/src/yapps3/yapps_grammar.py
index f291072..84d523f 100644
--- a/src/yapps3/yapps_grammar.py
+++ b/src/yapps3/yapps_grammar.py
@@ -120,7 +120,7 @@ class ParserDescription(yappsrt.Parser):
                 Str = self.Str(_context)
                 tok.append( ('#ignore',Str) )
             else:
-                raise yappsrt.YappsSyntaxError(_token[0], 'Could not match Tokens')
+                raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match Tokens')
         if self._peek() not in ['"token"', '"ignore"', 'EOF', '"rule"']:
             raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Need one of ' + ', '.join(['"token"', '"ignore"', 'EOF', '"rule"']))
         return tok
@@ -178,7 +178,7 @@ class ParserDescription(yappsrt.Parser):
         elif _token not in ['"ignore"', '"token"', '"option"', '":"', '"parser"', 'ATTR', 'COLON']:
             return ClauseD
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match ClauseC')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match ClauseC')
 
     def ClauseD(self, rule, tokens, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'ClauseD', [rule, tokens])
@@ -206,7 +206,7 @@ class ParserDescription(yappsrt.Parser):
             STMT = self._scan('STMT')
             return parsetree.Eval(rule, STMT[2:-2])
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match ClauseD')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match ClauseD')
 
     def OptParam(self, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'OptParam', [])
@@ -217,7 +217,7 @@ class ParserDescription(yappsrt.Parser):
         elif _token not in ['"ignore"', '"token"', '"option"', '"parser"', 'COLON']:
             return ''
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match OptParam')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match OptParam')
 
     def Str(self, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'Str', [])
-- 
2.43.0


From f6b2baf4d60ee8018b0471a05134b8b34112432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 089/132] fix: all tokens matched by more than one clause are
 reported

---
 src/yapps3/parsetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapps3/parsetree.py b/src/yapps3/parsetree.py
index e06996f..4426040 100644
--- a/src/yapps3/parsetree.py
+++ b/src/yapps3/parsetree.py
@@ -511,7 +511,7 @@ class Choice(Node):
         for c in self.children:
             testset = c.first[:]
             removed = []
-            for x in testset:
+            for x in c.first:
                 if x in tokens_seen:
                     testset.remove(x)
                     removed.append(x)
-- 
2.43.0


From 6b1973645b46726a0081f3238f5ed0a41c155beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 090/132] fix: errors in grammars are reported with their line
 and fail the command

---
 src/yapps3/yapps2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapps3/yapps2.py b/src/yapps3/yapps2.py
index 4a16d40..95837be 100755
--- a/src/yapps3/yapps2.py
+++ b/src/yapps3/yapps2.py
@@ -15,7 +15,8 @@ from __future__ import print_function
 
 import sys, re
 
-import yappsrt, parsetree
+import yapps3_compiled_rt as yappsrt
+import parsetree
 
 def generate(inputfilename, outputfilename='', dump=0, **flags):
     """Generate a grammar, given an input filename (X.g)
@@ -46,7 +47,7 @@ def generate(inputfilename, outputfilename='', dump=0, **flags):
     if preparser: scanner.first_line_number = 1 + preparser.count('\n')
     parser = grammar.ParserDescription(scanner)
     t = yappsrt.wrap_error_reporter(parser, 'Parser')
-    if t is None: return # Failure
+    if t is None: return 1 # Failure
     if preparser is not None: t.preparser = preparser
     if postparser is not None: t.postparser = postparser
 
@@ -110,4 +111,4 @@ if __name__ == '__main__':
         else:
             import grammar
 
-        generate(*tuple(args), **flags)
+        sys.exit(generate(*tuple(args), **flags))
-- 
2.43.0


From 8548dc5547d3683964015715314b996cd6a46c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 091/132] fix: parsers with choices that nothing can match are
 valid Python

---
 src/yapps3/parsetree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapps3/parsetree.py b/src/yapps3/parsetree.py
index 4426040..a0de7d5 100644
--- a/src/yapps3/parsetree.py
+++ b/src/yapps3/parsetree.py
@@ -547,8 +547,10 @@ class Choice(Node):
                 test = "elif"
 
         if tokens_unseen:
-            gen.write(indent, "else:\n")
-            gen.write(indent, INDENT, "raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, ")
+            if test == "elif":
+                gen.write(indent, "else:\n")
+                indent = indent + INDENT
+            gen.write(indent, "raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, ")
             gen.write("msg='Could not match ", self.rule, "')\n")
 
 class Wrapper(Node):
-- 
2.43.0


From b07ff33c901bc300e5f98ec7b7d4669e2e4b9b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 092/132] fix: parsers decide by what can follow in each place,
 as documented for the FOLLOW sets

---
 src/yapps3/parsetree.py | 68 +++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/yapps3/parsetree.py b/src/yapps3/parsetree.py
index a0de7d5..c884b6f 100644
--- a/src/yapps3/parsetree.py
+++ b/src/yapps3/parsetree.py
@@ -245,11 +245,11 @@ class Generator:
                 del queue[0]
 
                 print('Rule', repr(top), 'of class', top.__class__.__name__)
-                top.first.sort()
+                top.start.sort()
                 top.follow.sort()
                 eps = []
                 if top.accepts_epsilon: eps = ['(null)']
-                print('     FIRST:', ', '.join(top.first+eps))
+                print('     FIRST:', ', '.join(top.start+eps))
                 print('    FOLLOW:', ', '.join(top.follow))
                 for x in top.get_children(): queue.append(x)
 
@@ -307,8 +307,12 @@ class Node:
     """This is the base class for all components of a grammar."""
     def __init__(self, rule):
         self.rule = rule # name of the rule containing this node
-        self.first = []
-        self.follow = []
+        self.start = []  # tokens that matches of this node start with
+        self.follow = [] # tokens that may follow this node
+        # Supersets to look for tokens in: next to a nullable rule, they also
+        # contain whatever follows that rule in other places
+        self.first = []  # what may come next in front of this node
+        self.after = []  # what may come next behind this node
         self.accepts_epsilon = 0
 
     def setup(self, gen):
@@ -330,7 +334,7 @@ class Node:
 
     def update(self, gen):
         if self.accepts_epsilon:
-            gen.add_to(self.first, self.follow)
+            gen.add_to(self.first, self.after)
 
     def output(self, gen, indent):
         "Write out code to _gen_ with _indent_:string indentation"
@@ -349,6 +353,7 @@ class Terminal(Node):
     def update(self, gen):
         Node.update(self, gen)
         if self.first != [self.token]:
+            self.start = [self.token]
             self.first = [self.token]
             gen.changed()
 
@@ -399,8 +404,10 @@ class NonTerminal(Node):
 
     def update(self, gen):
         Node.update(self, gen)
-        gen.equate(self.first, self.target.first)
-        gen.equate(self.follow, self.target.follow)
+        gen.add_to(self.start, self.target.start)
+        gen.add_to(self.first, self.target.first)
+        gen.add_to(self.target.follow, self.follow)
+        gen.add_to(self.target.after, self.after)
 
     def output(self, gen, indent):
         gen.write(indent)
@@ -444,17 +451,22 @@ class Sequence(Node):
         for g_i in range(len(self.children)):
             g = self.children[g_i]
 
-            if empty: gen.add_to(self.first, g.first)
+            if empty:
+                gen.add_to(self.start, g.start)
+                gen.add_to(self.first, g.first)
             if not g.accepts_epsilon: empty = 0
 
             if g_i == len(self.children)-1:
-                next = self.follow
+                next = self.after
             else:
                 next = self.children[1+g_i].first
-            gen.add_to(g.follow, next)
+            gen.add_to(g.after, next)
 
-        if self.children:
-            gen.add_to(self.follow, self.children[-1].follow)
+            for c in self.children[1+g_i:]:
+                gen.add_to(g.follow, c.start)
+                if not c.accepts_epsilon: break
+            else:
+                gen.add_to(g.follow, self.follow)
 
     def output(self, gen, indent):
         if self.children:
@@ -492,12 +504,10 @@ class Choice(Node):
             g.update(gen)
 
         for g in self.children:
+            gen.add_to(self.start, g.start)
             gen.add_to(self.first, g.first)
-            gen.add_to(self.follow, g.follow)
-        for g in self.children:
             gen.add_to(g.follow, self.follow)
-        if self.accepts_epsilon:
-            gen.add_to(self.first, self.follow)
+            gen.add_to(g.after, self.after)
 
     def output(self, gen, indent):
         test = "if"
@@ -509,9 +519,11 @@ class Choice(Node):
             # not only the ones in first.
             tokens_unseen = gen.non_ignored_tokens()
         for c in self.children:
-            testset = c.first[:]
+            testset = c.start[:]
+            if c.accepts_epsilon:
+                testset = testset + gen.set_subtract(self.follow, testset)
             removed = []
-            for x in c.first:
+            for x in testset[:]:
                 if x in tokens_seen:
                     testset.remove(x)
                     removed.append(x)
@@ -569,8 +581,10 @@ class Wrapper(Node):
     def update(self, gen):
         Node.update(self, gen)
         self.child.update(gen)
+        gen.add_to(self.start, self.child.start)
         gen.add_to(self.first, self.child.first)
-        gen.equate(self.follow, self.child.follow)
+        gen.add_to(self.child.follow, self.follow)
+        gen.add_to(self.child.after, self.after)
 
 class Option(Wrapper):
     """This class represents an optional clause of the form [A]"""
@@ -587,7 +601,7 @@ class Option(Wrapper):
         if self.child.accepts_epsilon:
             print('Warning in rule', self.rule+': contents may be empty.', file=sys.stderr)
         gen.write(indent, "if %s:\n" %
-                  gen.peek_test(self.first, self.child.first))
+                  gen.peek_test(self.first, self.child.start))
         self.child.output(gen, indent+INDENT)
 
 class Plus(Wrapper):
@@ -603,7 +617,8 @@ class Plus(Wrapper):
 
     def update(self, gen):
         Wrapper.update(self, gen)
-        gen.add_to(self.child.follow, self.child.first)
+        gen.add_to(self.child.follow, self.child.start)
+        gen.add_to(self.child.after, self.child.first)
 
     def output(self, gen, indent):
         if self.child.accepts_epsilon:
@@ -612,9 +627,9 @@ class Plus(Wrapper):
         gen.write(indent, "while 1:\n")
         self.child.output(gen, indent+INDENT)
         union = self.first[:]
-        gen.add_to(union, self.follow)
+        gen.add_to(union, self.after)
         gen.write(indent+INDENT, "if %s: break\n" %
-                  gen.not_peek_test(union, self.child.first))
+                  gen.not_peek_test(union, self.child.start))
 
 class Star(Wrapper):
     """This class represents a 0-or-more repetition clause of the form A*"""
@@ -629,14 +644,15 @@ class Star(Wrapper):
 
     def update(self, gen):
         Wrapper.update(self, gen)
-        gen.add_to(self.child.follow, self.child.first)
+        gen.add_to(self.child.follow, self.child.start)
+        gen.add_to(self.child.after, self.child.first)
 
     def output(self, gen, indent):
         if self.child.accepts_epsilon:
             print('Warning in rule', self.rule+':', file=sys.stderr)
             print(' * The repeated pattern could be empty.  The resulting parser probably will not work properly.', file=sys.stderr)
         gen.write(indent, "while %s:\n" %
-                  gen.peek_test(self.follow, self.child.first))
+                  gen.peek_test(self.first, self.child.start))
         self.child.output(gen, indent+INDENT)
 
         # TODO: need to generate tests like this in lots of rules
@@ -644,4 +660,4 @@ class Star(Wrapper):
         gen.write(indent, "if %s:\n" %
                   gen.not_peek_test(gen.non_ignored_tokens(), self.follow))
         gen.write(indent+INDENT, "raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Need one of ' + ', '.join(%s))\n" %
-                  repr(self.first))
+                  repr(self.start + gen.set_subtract(self.follow, self.start)))
-- 
2.43.0


From ba1d94fed37edde2d5b037730b6b3c9ec77b761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 093/132] fix: the compiled scanner does not take reserved
 words for values

---
 src/lib/py_star_scan.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index 08f57b5..4149cd4 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -1,6 +1,7 @@
 /* Call our flex scanner */
 #include "Python.h"
 #include <string.h>
+#include <strings.h>
 
 #define STAR_SCANNER
 #include "star_scanner.h"
@@ -109,6 +110,11 @@ int tok_id;          /* token id */
 static char end_str[] = "END";
 tok_id = star_scanner();
 /* printf("Got token id %d i.e. %s\n",tok_id,tokens[tok_id]);*/
+/* A bare word starting with a reserved word is not a value */
+if(tok_id == DDATA_VALUE_1 && (!strncasecmp(yytext,"data_",5) ||
+   !strncasecmp(yytext,"save_",5) || !strncasecmp(yytext,"stop_",5) ||
+   !strncasecmp(yytext,"global_",7)))
+    tok_id = DERROR;
 tok_len = yyleng;
 if(tok_id == DEND) {
     /* printf("End seen\n");*/
-- 
2.43.0


From 832995e66af2ce0c89639811eb0c68acb8624607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 094/132] fix: the compiled scanner does not split or drop
 characters outside ASCII

---
 src/lib/py_star_scan.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index 4149cd4..ab1a53b 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -22,6 +22,8 @@
           ob = Py_InitModule3(name, methods, doc);
 #endif
 
+static int input_has_zero;  /* characters follow the part of the input that is scanned */
+
 static PyObject * get_input(PyObject * self, PyObject * args);
 static PyObject * flex_scan(PyObject * self,PyObject * args);
 static PyObject * get_token(PyObject * self,PyObject * args);
@@ -73,6 +75,7 @@ if(!(PyArg_ParseTuple(args,"U",&str_arg))) return NULL;
 #endif
 string_pos = 0;
 in_string_len = strlen(input_string);
+input_has_zero = (PyUnicode_FindChar(str_arg,0,0,PyUnicode_GET_LENGTH(str_arg),1) >= 0);
 star_clear();
 for(i=0;i<current_len;i++){
   /* printf("New input, freeing value %d\n",i); */
@@ -115,6 +118,12 @@ if(tok_id == DDATA_VALUE_1 && (!strncasecmp(yytext,"data_",5) ||
    !strncasecmp(yytext,"save_",5) || !strncasecmp(yytext,"stop_",5) ||
    !strncasecmp(yytext,"global_",7)))
     tok_id = DERROR;
+/* Nor is one starting with anything but a printable ASCII character */
+if(tok_id == DDATA_VALUE_1 && (yytext[0] < 33 || yytext[0] > 126))
+    tok_id = DERROR;
+/* The text does not end at a zero byte */
+if(tok_id == DEND && input_has_zero)
+    tok_id = DERROR;
 tok_len = yyleng;
 if(tok_id == DEND) {
     /* printf("End seen\n");*/
-- 
2.43.0


From 5a8abbd168bd442e2845a9e0b4d117239d8cc98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 095/132] fix: text that cannot be encoded does not crash the
 compiled scanner

---
 src/lib/py_star_scan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index ab1a53b..6565e7e 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -73,6 +73,7 @@ if(!(PyArg_ParseTuple(args,"U",&str_arg))) return NULL;
 #else
  input_string = PyString_AsString(str_arg);
 #endif
+if(input_string==NULL) return NULL;
 string_pos = 0;
 in_string_len = strlen(input_string);
 input_has_zero = (PyUnicode_FindChar(str_arg,0,0,PyUnicode_GET_LENGTH(str_arg),1) >= 0);
-- 
2.43.0


From 0f4e2edd398afde5f05984be815b7b5fef936561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 096/132] fix: the compiled scanner does not take an unfinished
 text field for a value

---
 src/lib/lex.yy.c       | 4 +++-
 src/lib/py_star_scan.c | 4 ++++
 src/lib/star.l         | 4 +++-
 src/lib/star_scanner.h | 1 +
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/lex.yy.c b/src/lib/lex.yy.c
index 81aaacf..7c1b9f2 100644
--- a/src/lib/lex.yy.c
+++ b/src/lib/lex.yy.c
@@ -568,6 +568,8 @@ Match for EOL at EOF contributed by Boris Dusek
 
 #define YY_DECL int star_scanner() 
 
+int line_start = 0;
+
 /* redefine YY_INPUT to come from our global string */
 #define YY_INPUT(buf,result,max_size)\
 {\
@@ -1009,7 +1011,7 @@ case 18:
 /* rule 18 can match eol */
 YY_RULE_SETUP
 #line 148 "star.l"
-{/*printf("Stray carriage return...\n");*/}
+{line_start = 1; /* and a semicolon or the end of the input follow */}
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index 6565e7e..c5304f1 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -112,6 +112,7 @@ char * save_str;     /* pointer to memory location */
 size_t tok_len;      /* token length (no zero byte) */
 int tok_id;          /* token id */
 static char end_str[] = "END";
+line_start = 0;
 tok_id = star_scanner();
 /* printf("Got token id %d i.e. %s\n",tok_id,tokens[tok_id]);*/
 /* A bare word starting with a reserved word is not a value */
@@ -122,6 +123,9 @@ if(tok_id == DDATA_VALUE_1 && (!strncasecmp(yytext,"data_",5) ||
 /* Nor is one starting with anything but a printable ASCII character */
 if(tok_id == DDATA_VALUE_1 && (yytext[0] < 33 || yytext[0] > 126))
     tok_id = DERROR;
+/* Nor one starting with a semicolon that starts a line */
+if(tok_id == DDATA_VALUE_1 && yytext[0] == ';' && line_start)
+    tok_id = DERROR;
 /* The text does not end at a zero byte */
 if(tok_id == DEND && input_has_zero)
     tok_id = DERROR;
diff --git a/src/lib/star.l b/src/lib/star.l
index 2fdc85e..5896597 100644
--- a/src/lib/star.l
+++ b/src/lib/star.l
@@ -19,6 +19,8 @@ Match for EOL at EOF contributed by Boris Dusek
 
 #define YY_DECL int star_scanner() 
 
+int line_start = 0;
+
 /* redefine YY_INPUT to come from our global string */
 #define YY_INPUT(buf,result,max_size)\
 {\
@@ -148,7 +150,7 @@ _{TrueNonBlank}+            {return(DDATA_NAME);}
                  }
 
 \0                      {YY_FLUSH_BUFFER; return(DEND);}
-[\n]                    {/*printf("Stray carriage return...\n");*/}
+[\n]                    {line_start = 1; /* and a semicolon or the end of the input follow */}
 .			{
 			/* printf("Unexpected Character\n");*/
 			/* printf("<%d>\n",yytext[0]);*/
diff --git a/src/lib/star_scanner.h b/src/lib/star_scanner.h
index f880b7e..36518a6 100644
--- a/src/lib/star_scanner.h
+++ b/src/lib/star_scanner.h
@@ -21,6 +21,7 @@ extern void star_clear(void);
 extern char * yytext;
 extern size_t yyleng;
 extern size_t yylineno;
+extern int line_start;  /* set when the token follows a newline not seen as white space */
 #else
 extern char * input_string;
 extern size_t string_pos;
-- 
2.43.0


From c1af8c69a9fcc4ba177009c8856969af607c17f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:09 +0000
Subject: [PATCH 097/132] fix: names_in_cat(names_only=True) returned the names
 of sub categories too

---
 src/CifFile_module.nw | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 30bfee9..7222dc4 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1336,9 +1336,10 @@ def packet_count(self,cifdata,dataname):
     return 0
 
 def names_in_cat(self,cat,names_only=False):
-    names = [a for a in self.keys() if self[a].get('_name.category_id','').lower()==cat.lower()]
+    names = [a for a in self.keys() if self[a].get('_name.category_id','').lower()==cat.lower() and
+             self[a].get('_definition.scope','Item')=='Item']
     if not names_only:
-        return list([a for a in names if self[a].get('_definition.scope','Item')=='Item'])
+        return names
     else:
         return list([self[a]["_name.object_id"] for a in names])
 
-- 
2.43.0


From 1822e890c09f142aadb30a58b09f47736bf671ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 098/132] fix: editing a dictionary left its tables, names and
 locks inconsistent

---
 src/CifFile_module.nw | 118 ++++++++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 40 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 7222dc4..f8272cb 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1144,9 +1144,9 @@ def create_def_block_table(self):
     else:
         top_blocks = ["on_this_dictionary"]
     # catch dodgy duplicates
-    uniques = set([a[0] for a in proto_table])
+    uniques = set([a[0].lower() for a in proto_table])
     if len(uniques)<len(proto_table):
-        def_names = list([a[0] for a in proto_table])
+        def_names = list([a[0].lower() for a in proto_table])
         dodgy = [a for a in def_names if def_names.count(a)>1]
         raise CifError('Duplicate definitions in dictionary:' + repr(dodgy))
     self.block_id_table = dict([(a[0].lower(),a[1].lower()) for a in proto_table if a[1].lower() not in top_blocks])
@@ -1165,30 +1165,41 @@ def __getitem__(self,key):
 
 def __setitem__(self,key,value):
     """Add a new definition block"""
-    super(CifDic,self).__setitem__(key,value)
-    try:
-        self.block_id_table[value['_definition.id']]=key
-    except AttributeError:   #does not exist yet
-        pass
+    parent = None
+    if self.diclang != "DDL1" and hasattr(self,'block_id_table'):
+        parent = self.get_roots()[0][0]    #definitions are save frames
+    self.NewBlock(key,value,parent=parent)
 
 def NewBlock(self,*args,**kwargs):
     newname = super(CifDic,self).NewBlock(*args,**kwargs)
-    try:
-        self.block_id_table[self[newname]['_definition.id']]=newname
-    except AttributeError: #no block_id table
-        pass
-            
+    if hasattr(self,'block_id_table'):
+        new_block = self.dictionary[newname]
+        new_id = new_block.get(self.cat_id_spec,new_block.get(self.def_id_spec,newname))
+        self.block_id_table[new_id.lower()]=newname
+    return newname
+
 def __delitem__(self,key):
     """Remove a definition"""
     try:
-        super(CifDic,self).__delitem__(self.block_id_table[key.lower()])
-        del self.block_id_table[key.lower()]
+        blockname = self.block_id_table[key.lower()]
     except (AttributeError,KeyError):   #block_id_table not present yet
-        super(CifDic,self).__delitem__(key)
-        return
+        blockname = key
+    super(CifDic,self).__delitem__(blockname)
+    # nested frames have disappeared as well
+    if hasattr(self,'block_id_table'):
+        self.block_id_table = dict([a for a in self.block_id_table.items() if a[1] in self.dictionary])
     # fix other datastructures
     # cat_obj table
 
+def copy(self):
+    """Return an independent copy"""
+    newcopy = super(CifDic,self).copy()
+    newcopy.block_id_table = self.block_id_table.copy()
+    master_name = [a[0] for a in self.dictionary.items() if a[1] is self.master_block]
+    if master_name:
+        newcopy.master_block = newcopy.dictionary[master_name[0]]
+    return newcopy
+
 def keys(self):
     """Return all definitions"""
     try:
@@ -1201,9 +1212,11 @@ def has_key(self,key):
 
 def __contains__(self,key):
     try:
-        return key.lower() in self.block_id_table
+        if key.lower() in self.block_id_table: return True
     except AttributeError:
         return super(CifDic,self).__contains__(key)
+    # definitions may also be found by the name of their block
+    return key.lower() in self.block_id_table.values()
 
 def items(self):
     """Return (key,value) pairs"""
@@ -1228,14 +1241,19 @@ def lock(self):
     for a in self.keys():
         self[a].overwrite=False
 
-def rename(self,oldname,newname,blockname_as_well=True):
+def rename(self,oldname,newname,blockname_as_well=True,blockname=None):
     """Change a _definition.id from oldname to newname, and if `blockname_as_well` is True,
-    change the underlying blockname too."""
-    if blockname_as_well:
-        super(CifDic,self).rename(self.block_id_table[oldname.lower()],newname)
-        self.block_id_table[newname.lower()]=newname
+    change the underlying blockname too, to `blockname` if this differs from the new id."""
+    if oldname.lower() not in self.block_id_table:   #the dictionary itself
+        super(CifDic,self).rename(oldname,newname)
+    elif blockname_as_well:
+        if blockname is None: blockname = newname
+        oldblock = self.block_id_table[oldname.lower()]
+        if blockname.lower() != oldblock:
+            super(CifDic,self).rename(oldblock,blockname)
         if oldname.lower() in self.block_id_table: #not removed
            del self.block_id_table[oldname.lower()]
+        self.block_id_table[newname.lower()]=blockname.lower()
     else:
         self.block_id_table[newname.lower()]=self.block_id_table[oldname.lower()]
         del self.block_id_table[oldname.lower()]
@@ -1375,24 +1393,32 @@ datablock names, then updating our internal structures.
 
 <<Changing and updating categories>>=
 def change_category_name(self,oldname,newname):
-    self.unlock()
     """Change the category name from [[oldname]] to [[newname]]"""
     if oldname not in self:
         raise KeyError('Cannot rename non-existent category %s to %s' % (oldname,newname))
-    if newname in self:
-        raise KeyError('Cannot rename %s to %s as %s already exists' % (oldname,newname,oldname))
+    self.check_new_name(oldname,newname)
     child_defs = self.ddlm_immediate_children(oldname)
-    self.rename(oldname,newname)   #NB no name integrity checks
+    new_ids = dict([(c,self.create_catobj_name(newname,self[c]['_name.object_id'])) for c in child_defs
+                    if self[c].get('_definition.scope','Item')=='Item'])
+    for child_def,newid in new_ids.items():
+        self.check_new_name(child_def,newid)
+    self.unlock()
+    self.rename(oldname,newname)
     self[newname]['_name.object_id']=newname
     self[newname]['_definition.id']=newname
     for child_def in child_defs:
         self[child_def]['_name.category_id'] = newname
-        if self[child_def].get('_definition.scope','Item')=='Item':
-            newid = self.create_catobj_name(newname,self[child_def]['_name.object_id'])
+        if child_def in new_ids:
+            newid = new_ids[child_def]
             self[child_def]['_definition.id']=newid
-            self.rename(child_def,newid[1:])  #no underscore at the beginning
+            self.rename(child_def,newid,blockname=newid[1:])  #no underscore at the beginning
     self.lock()
 
+def check_new_name(self,oldname,newname):
+    """Raise an error if [[newname]] cannot replace [[oldname]]"""
+    if newname in self or newname.lower() in self.lower_keys:
+        raise KeyError('Cannot rename %s to %s as %s already exists' % (oldname,newname,newname))
+
 def create_catobj_name(self,cat,obj):
     """Combine category and object in approved fashion to create id"""
     return ('_'+cat+'.'+obj)
@@ -1406,15 +1432,20 @@ def change_category(self,itemname,catname):
     if catname not in self:    #don't have it
         print('No such category %s' % catname)
         return itemname
+    is_item = defid.get('_definition.scope','Item') == 'Item'
+    newid = itemname # stays the same for categories
+    if is_item:
+        newid = self.create_catobj_name(catname,defid['_name.object_id'])
+        self.check_new_name(itemname,newid)
+    elif catname.lower() in [a.lower() for a in self.ddlm_all_children(itemname)]:
+        raise CifError('Cannot move category %s into %s, which belongs to it' % (itemname,catname))
     self.unlock()
-    objid = defid['_name.object_id']
     defid['_name.category_id'] = catname
-    newid = itemname # stays the same for categories
-    if defid.get('_definition.scope','Item') == 'Item':
-        newid = self.create_catobj_name(catname,objid)
+    if is_item:
         defid['_definition.id']= newid
         self.rename(itemname,newid)
-    self.set_parent(catname,newid)
+    self.set_parent(self.block_id_table.get(catname.lower(),catname),
+                    self.block_id_table.get(newid.lower(),newid))
     self.lock()
     return newid
 
@@ -1423,6 +1454,7 @@ def change_name(self,one_def,newobj):
     categories, but can be used for dictionaries"""
     if '_dictionary.title' not in self[one_def]:  #a dictionary block
         newid = self.create_catobj_name(self[one_def]['_name.category_id'],newobj)
+        self.check_new_name(one_def,newid)
         self.unlock()
         self.rename(one_def,newid)
         self[newid]['_definition.id']=newid
@@ -1431,7 +1463,9 @@ def change_name(self,one_def,newobj):
         self.unlock()
         newid = newobj
         self.rename(one_def,newobj)
-        self[newid]['_dictionary.title'] = newid
+        self.master_block.overwrite = True
+        self.master_block['_dictionary.title'] = newid
+        self.master_block.overwrite = False
     self.lock()
     return newid
 
@@ -1445,7 +1479,8 @@ def add_category(self,catname,catparent=None,is_loop=True,allow_dangler=False):
        is true, the parent category does not have to exist."""
     if catname in self:
         raise CifError('Attempt to add existing category %s' % catname)
-    self.unlock()
+    if catparent is not None and not allow_dangler and catparent not in self:
+        raise CifError('No category %s in dictionary' % catparent)
     syntactic_root = self.get_roots()[0][0]
     if catparent is None:
         semantic_root = [a for a in self.keys() if self[a].get('_definition.class',None)=='Head']
@@ -1457,9 +1492,10 @@ def add_category(self,catname,catparent=None,is_loop=True,allow_dangler=False):
         semantic_root = catparent
     realname = super(CifDic,self).NewBlock(catname,parent=syntactic_root)
     self.block_id_table[catname.lower()]=realname
+    self.unlock()
     self[catname]['_name.object_id'] = catname
     if not allow_dangler or catparent is None:
-        self[catname]['_name.category_id'] = self[semantic_root]['_name.object_id']
+        self[catname]['_name.category_id'] = self[semantic_root].get('_name.object_id',semantic_root)
     else:
         self[catname]['_name.category_id'] = catparent
     self[catname]['_definition.id'] = catname
@@ -1476,20 +1512,22 @@ def add_definition(self,itemname,catparent,def_text='PLEASE DEFINE ME',allow_dan
     """Add itemname to category [[catparent]]. If itemname contains periods,
     all text before the final period is ignored. If [[allow_dangler]] is True,
     no check for a parent category is made."""
-    self.unlock()
     if '.' in itemname:
         objname = itemname.split('.')[-1]
     else:
         objname = itemname
     objname = objname.strip('_')
-    if not allow_dangler and (catparent not in self or self[catparent]['_definition.scope']!='Category'):
+    if not allow_dangler and (catparent not in self or self[catparent].get('_definition.scope')!='Category'):
         raise CifError('No category %s in dictionary' % catparent)
     fullname = '_'+catparent.lower()+'.'+objname
+    if fullname in self:
+        raise CifError('Attempt to add existing definition %s' % fullname)
     print('New name: %s' % fullname)
     syntactic_root = self.get_roots()[0][0]
     realname = super(CifDic,self).NewBlock(fullname, fix=False, parent=syntactic_root) #low-level change
     # update our dictionary structures
-    self.block_id_table[fullname]=realname
+    self.block_id_table[fullname.lower()]=realname
+    self.unlock()
     self[fullname]['_definition.id']=fullname
     self[fullname]['_name.object_id']=objname
     self[fullname]['_name.category_id']=catparent
-- 
2.43.0


From 52cbbb0cb32d77beb23df07823f2ac1ff98e6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 099/132] fix: dictionaries whose frames are not named as their
 definitions, or with nested outside categories, were written wrongly

---
 src/CifFile_module.nw | 25 ++++++++++++-------------
 src/StarFile.nw       | 10 +++++-----
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index f8272cb..fa96096 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3505,7 +3505,8 @@ to override the output block order returned by the get_child_list routine.
 
 <<Dictionary output routines>>=
 def WriteOut(self,**kwargs):
-    myblockorder = self.get_full_child_list()
+    # the underlying blocks may be called differently
+    myblockorder = [self.block_id_table.get(a.lower(),a.lower()) for a in self.get_full_child_list()]
     self.set_grammar(self.grammar)
     self.standard = 'Dic'
     return super(CifDic,self).WriteOut(blockorder = myblockorder,**kwargs)
@@ -3520,17 +3521,15 @@ def get_full_child_list(self):
         double_names =  set(unrooted).intersection(set(all_names))
         if len(double_names)>0:
             raise CifError('Names are children of internal and external categories:%s' % repr(double_names))
-        remaining = unrooted[:]
-        for no_root in unrooted:
-            if self[no_root].get('_definition.scope','Item')=='Category':
-                all_names += [no_root]
-                remaining.remove(no_root)
-                these_children = [n for n in unrooted if self[n]['_name.category_id'].lower()==no_root.lower()]
-                all_names += these_children
-                [remaining.remove(n) for n in these_children]
+        # categories that belong to external categories, together with everything below them
+        for no_root in sorted(unrooted):
+            if self[no_root].get('_definition.scope','Item')=='Category' and \
+               self[no_root].get('_name.category_id','').lower() not in self:
+                all_names += self.recurse_child_list(no_root)
+        remaining = [n for n in sorted(unrooted) if n not in all_names]
         # now sort by category
         ext_cats = set([self[r].get('_name.category_id',self.cat_from_name(r)).lower() for r in remaining])
-        for e in ext_cats:
+        for e in sorted(ext_cats):
             cat_items = [r for r in remaining if self[r].get('_name.category_id',self.cat_from_name(r)).lower() == e]
             [remaining.remove(n) for n in cat_items]
             all_names += cat_items
@@ -3545,14 +3544,14 @@ def get_full_child_list(self):
 def cat_from_name(self,one_name):
     """Guess the category from the name. This should be used only when this is not important semantic information,
     for example, when printing out"""
-    (cat,obj) = one_name.split(".")
-    if cat[0] == "_": cat = cat[1:]
+    cat = one_name.rpartition(".")[0]
+    if cat[:1] == "_": cat = cat[1:]
     return cat
 
 def recurse_child_list(self,parentname):
     """Recursively expand the logical child list of [[parentname]]"""
     final_list = [parentname]
-    child_blocks = [a for a in self.child_table.keys() if self[a].get('_name.category_id','').lower() == parentname.lower()]
+    child_blocks = self.ddlm_immediate_children(parentname)
     child_blocks.sort()    #we love alphabetical order
     child_items = [a for a in child_blocks if self[a].get('_definition.scope','Item') == 'Item']
     final_list += child_items
diff --git a/src/StarFile.nw b/src/StarFile.nw
index d2f15e1..e13957f 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -885,11 +885,11 @@ initialising the file.
             blockorder = self.block_input_order
         top_block_names = [(a,self.child_table[a].block_id) for a in blockorder if self.child_table[a].parent is None]
         for blockref,blockname in top_block_names:
-            # print('Writing %s, ' % blockname + repr(self[blockref]))
+            # print('Writing %s, ' % blockname + repr(self.dictionary[blockref]))
             outstring.write('\n' + 'data_' +blockname+'\n')
             all_names.remove(blockref)
             if self.standard == 'Dic':              #put contents before save frames
-                outstring.write(self[blockref].printsection(finish_at='_dictionary_valid.application'))
+                outstring.write(self.dictionary[blockref].printsection(finish_at='_dictionary_valid.application'))
             if self.grammar == 'STAR2':  #nested save frames
                 child_refs = self.get_immediate_children(blockref)
                 for child_ref,child_info in child_refs:
@@ -902,15 +902,15 @@ initialising the file.
                 for child_ref in child_refs:
                     child_name = self.child_table[child_ref].block_id
                     outstring.write('\n\n' + 'save_' + child_name + '\n')
-                    outstring.write(str(self[child_ref]))
+                    outstring.write(str(self.dictionary[child_ref]))
                     outstring.write('\n\n' + 'save_' + '\n')
                     all_names.remove(child_ref.lower())
             else:
                 raise StarError('Grammar %s is not recognised for output' % self.grammar)
             if self.standard != 'Dic':              #put contents after save frames
-                outstring.write(str(self[blockref]))
+                outstring.write(str(self.dictionary[blockref]))
             else:
-                outstring.write(self[blockref].printsection(start_from='_dictionary_valid.application'))
+                outstring.write(self.dictionary[blockref].printsection(start_from='_dictionary_valid.application'))
         returnstring =  outstring.getvalue()
         outstring.close()
         if len(all_names)>0:
-- 
2.43.0


From 41a47ab8981ce71db820e305b3e87e3f8394d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 100/132] fix: 'in' did not find imported attributes of a
 definition when imports are followed on demand

---
 src/CifFile_module.nw | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index fa96096..c10c675 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -448,7 +448,7 @@ class DicBlock(StarFile.StarBlock):
         
     def __getitem__(self,dataname):
         value = None
-        if super(DicBlock,self).has_key("_import.get") and self._import_cache:
+        if super(DicBlock,self).__contains__("_import.get") and self._import_cache:
             value = self.follow_import(super(DicBlock,self).__getitem__("_import.get"),dataname) 
         try:
             final_value = super(DicBlock,self).__getitem__(dataname)
@@ -464,6 +464,9 @@ class DicBlock(StarFile.StarBlock):
         except KeyError:
             return False
         return True
+
+    def __contains__(self,key):
+        return self.has_key(key)
     
     def add_dict_cache(self,name,cached):
         """Add a loaded dictionary to this block's cache"""
-- 
2.43.0


From f711e9ad070607c3568186e40fd150d7d54d66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 101/132] fix: full imports of categories failed, and imports
 followed on demand missed nested references and names in another case

---
 src/CifFile_module.nw | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index c10c675..8239881 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -541,6 +541,10 @@ def __init__(self,dic,do_minimum=False,do_imports='All', do_dREL=True,
     self.ddlm_functions = {}    #for DDLm functions
     self.switch_numpy(False)    #no Numpy arrays returned
     super(CifDic,self).__init__(datasource=dic,grammar=grammar,blocktype=DicBlock,**kwargs)
+    if not heavy:   # only these can follow imports
+        for name,block in list(self.dictionary.items()):
+            if not isinstance(block,DicBlock):
+                self.dictionary[name] = DicBlock(data=block,overwrite=block.overwrite)
     self.standard = 'Dic'    #for correct output order
     self.scoping = 'dictionary'
     (self.dicname,self.diclang) = self.dic_determine()
@@ -1752,7 +1756,6 @@ def ddlm_import(self,parent_block,import_from,import_target,target_key,mode='All
                   head_to_head = True
             else:
                   head_to_head = False
-                  child_frames.remove(from_cat_head)
             # As we are in syntax land, we call the CifFile methods
             child_blocks = list([import_from.block_id_table[a.lower()] for a in child_frames])
             child_blocks = super(CifDic,import_from).makebc(child_blocks)
@@ -1830,8 +1833,8 @@ def lookup_imports(self,key):
     """Check the list of imported dictionaries for this definition"""
     for one_dic,head_def in self._import_dics:
         from_cat_head = one_dic[head_def]['_name.object_id']
-        possible_keys = one_dic.ddlm_all_children(from_cat_head)
-        if key in possible_keys:
+        possible_keys = [a.lower() for a in one_dic.ddlm_all_children(from_cat_head)]
+        if key.lower() in possible_keys:
             return one_dic[key]
     raise KeyError("%s not found in import dictionaries" % key)
     
-- 
2.43.0


From 23a0e44902358de4db1e3f85287454b82a4e9ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 102/132] fix: validate_cif did not list dictionaries found in
 a registry

---
 src/Programs/validate_cif.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Programs/validate_cif.py b/src/Programs/validate_cif.py
index 1fc6768..014fd7a 100644
--- a/src/Programs/validate_cif.py
+++ b/src/Programs/validate_cif.py
@@ -53,7 +53,7 @@ def locate_dic(dicname,dicversion,regloc="cifdic.register",store_dir = "."):
         return ""
     elif len(matches)>1:
         print( "Warning: found more than one candidate, choosing first.")
-        print( map(str,matches))
+        print( list(map(str,matches)))
     return getattr(matches[0],"_cifdic_dictionary.URL")    # the location
 
 
@@ -90,7 +90,7 @@ def parse_options():
     import sys
     if len(sys.argv) <= 1:
         print( "No arguments given: use option --help to get a help message\n")
-        exit
+        sys.exit()
     return options,args
 
 def execute_with_options(options,args):
@@ -101,9 +101,9 @@ def execute_with_options(options,args):
         fulldic = CifFile.CifFile_module.merge_dic(diclist,mergemode='overlay')
     else:
         # print( "Locating dictionaries using registry at %s" % options.registry)
-        dics = zip(options.iucr_names,options.versions)
-        dicurls = map(lambda a:locate_dic(a[0],a[1],regloc=options.registry,store_dir=options.dirname),dics)
-        diccifs = map(lambda a:cif_by_ftp(a,options.store_flag,options.dirname),dicurls)
+        dics = list(zip(options.iucr_names,options.versions))
+        dicurls = list(map(lambda a:locate_dic(a[0],a[1],regloc=options.registry,store_dir=options.dirname),dics))
+        diccifs = list(map(lambda a:cif_by_ftp(a,options.store_flag,options.dirname),dicurls))
         fulldic = CifFile.CifFile_module.merge_dic(diccifs)
         diclist = dicurls  # for use in reporting later
     # open the cif file
-- 
2.43.0


From cbb25f1af57a363858a319adb3442b162c6463b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 103/132] fix: the exponent after a standard uncertainty was
 lost in typed values

1.5(2)e4 became 1.5; integers with an uncertainty could not be converted.
---
 src/CifFile_module.nw | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 8239881..c9c0f5a 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3474,10 +3474,16 @@ def change_type(self,itemname,inval):
 by searching for an opening round bracket
 <<Convert value to float, ignore esd>>=
 def float_with_esd(inval):
+    return float(without_esd(inval))
+
+def int_with_esd(inval):
+    return int(without_esd(inval))
+
+def without_esd(inval):
+    """Drop the esd, which any exponent comes after"""
     if isinstance(inval,unicode):
-        j = inval.find("(")
-        if j>=0:  return float(inval[:j])
-    return float(inval)
+        return re.sub("[(][0-9]+[)]","",inval)
+    return inval
 
 
 
@@ -4224,7 +4230,7 @@ def convert_single_value(type_spec):
     if type_spec == 'Real':
         return float_with_esd
     if type_spec in ('Count','Integer','Index','Binary','Hexadecimal','Octal'):
-        return int
+        return int_with_esd
     if type_spec == 'Complex':
         return complex
     if type_spec == 'Imag':
-- 
2.43.0


From bc6f22fd9cfdd1519475fbe86134dad41fc10bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 104/132] fix: Binary, Octal and Hexadecimal values were
 converted as decimal numbers

---
 src/CifFile_module.nw | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index c9c0f5a..2f0abab 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4229,8 +4229,11 @@ def convert_single_value(type_spec):
     """Convert a single item according to type_spec"""
     if type_spec == 'Real':
         return float_with_esd
-    if type_spec in ('Count','Integer','Index','Binary','Hexadecimal','Octal'):
+    if type_spec in ('Count','Integer','Index'):
         return int_with_esd
+    if type_spec in ('Binary','Hexadecimal','Octal'):
+        base = {'Binary':2,'Hexadecimal':16,'Octal':8}[type_spec]
+        return lambda a:int(a,base) if isinstance(a,unicode) else int(a)
     if type_spec == 'Complex':
         return complex
     if type_spec == 'Imag':
-- 
2.43.0


From 06af889690bfd33348bf27a63e2ddc6f07340f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 105/132] fix: Imag values and Complex values as defined by
 DDLm could not be converted

---
 src/CifFile_module.nw | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 2f0abab..27fe5a7 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3476,6 +3476,12 @@ by searching for an opening round bracket
 def float_with_esd(inval):
     return float(without_esd(inval))
 
+def complex_value(inval):
+    """A complex number written as <R>+<I>j or <R>+j<I>"""
+    if isinstance(inval,unicode):
+        inval = re.sub("[jJ](.+)$","\\1j",without_esd(inval))
+    return complex(inval)
+
 def int_with_esd(inval):
     return int(without_esd(inval))
 
@@ -4235,9 +4241,9 @@ def convert_single_value(type_spec):
         base = {'Binary':2,'Hexadecimal':16,'Octal':8}[type_spec]
         return lambda a:int(a,base) if isinstance(a,unicode) else int(a)
     if type_spec == 'Complex':
-        return complex
+        return complex_value
     if type_spec == 'Imag':
-        return lambda a:complex(0,a)
+        return lambda a:a if isinstance(a,complex) else complex(0,float_with_esd(a))
     if type_spec in ('Code','Name','Tag'):  #case-insensitive -> lowercase
         return lambda a:a.lower()
     return lambda a:a   #can't do anything numeric
-- 
2.43.0


From a71c673c69441a634bdca82cc2a88ad1e8842c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 106/132] fix: values of items with container Multiple or
 without a container or contents could not be accessed

DDLm gives both attributes a default.
---
 src/CifFile_module.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 27fe5a7..ac2023c 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4217,15 +4217,15 @@ function for every value in a loop.
 def convert_type(definition):
     """Convert value to have the type given by definition"""
     #extract the actual required type information
-    container = definition['_type.container']
+    container = definition.get('_type.container','Single')
     dimension = definition.get('_type.dimension',StarFile.StarList([]))
-    structure = interpret_structure(definition['_type.contents'])
+    structure = interpret_structure(definition.get('_type.contents','Text'))
     if container == 'Single':   #a single value to convert
         return convert_single_value(structure)
     elif container == 'List':   #lots of the same value
         return convert_list_values(structure,dimension)
     elif container == 'Multiple': #no idea
-        return None
+        return lambda a:a
     elif container in ('Array','Matrix'): #numpy array
         return convert_matrix_values(structure)
     return lambda a:a    #unable to convert
-- 
2.43.0


From ca82b4c08a81f7f6b0da35cd9e4cbceec59c7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:33 +0000
Subject: [PATCH 107/132] fix: list values could be converted only for some
 dimensions

Lists without a dimension, of dimension 1, of more than one dimension, with
the dimension given as text and with nested contents were left unconverted
or raised an error.
---
 src/CifFile_module.nw | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index ac2023c..48ed359 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4254,12 +4254,10 @@ build a function to decode each entry in our input list.  This
 function is then mapped over the List, and in the case of looped List
 values, it can be mapped over the dataname value as well.  However, in
 the case of a single repetition, files are allowed to drop one level
-of enclosing brackets.  We account for that here by detecting a
-one-element list and *not* mapping the conversion function.  TODO:
-Note that we do not yet handle the case that we are supposed to
-convert to a Matrix, rather than a list. TODO: handle arbitrary
-dimension lists, rather than special-casing the character sequence
-'[1]'.
+of enclosing brackets.  We account for that here by looking at the
+value rather than at the dimension, which may be a text or missing.
+TODO: Note that we do not yet handle the case that we are supposed to
+convert to a Matrix, rather than a list.
 
 <<Convert a list value>>=
 class convert_simple_list(object):
@@ -4270,9 +4268,17 @@ class convert_simple_list(object):
     """
 
     def __init__(self, structure):
-        self.converters = [convert_single_value(tp) for tp in structure]
+        self.structure = structure
+        self.converters = [convert_simple_list(tp) if isinstance(tp,list) else
+                           convert_single_value(tp) for tp in structure]
         return
 
+    def fits(self, element):
+        """Test that element is a single element rather than a list of them"""
+        return isinstance(element,list) and len(element) == len(self.converters) and \
+            all([f.fits(e) if isinstance(tp,list) else not isinstance(e,list)
+                 for tp,f,e in zip(self.structure,self.converters,element)])
+
     def __call__(self, element):
         if len(element) != len(self.converters):
             emsg = "Expected iterable of %i values, got %i." % (
@@ -4286,17 +4292,21 @@ class convert_simple_list(object):
 def convert_list_values(structure, dimension):
     """Convert the values according to the element
        structure given in [[structure]]"""
-    # simple repetition
+    # simple repetition, to any depth
     if isinstance(structure, (unicode, str)):
-        fcnv = convert_single_value(structure)
+        return convert_nested(convert_single_value(structure))
     # assume structure is a list of types
-    else:
-        fcnv = convert_simple_list(structure)
-    rv = fcnv
-    # setup nested conversion function when dimension differs from 1.
-    if len(dimension) > 0 and int(dimension[0]) != 1:
-        rv = lambda args : [fcnv(a) for a in args]
-    return rv
+    fcnv = convert_simple_list(structure)
+    # whatever the dimension, the brackets around one element may be missing
+    return lambda args : fcnv(args) if fcnv.fits(args) else [fcnv(a) for a in args]
+
+def convert_nested(fcnv):
+    """Apply the conversion to the elements of a list, which may be lists"""
+    def convert(element):
+        if isinstance(element,list):
+            return [convert(a) for a in element]
+        return fcnv(element)
+    return convert
 
 @  When storing a matrix/array value as a result of a calculation, we remove the
 numpy information and instead store as a StarList.  The following routine will
-- 
2.43.0


From 5016bccc2fb7f6410513a067870e165b7efaca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:33 +0000
Subject: [PATCH 108/132] fix: arrays holding uncertainties, or of Count or
 Index, could not be converted

---
 src/CifFile_module.nw | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 48ed359..fbeea1f 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4323,13 +4323,16 @@ def convert_matrix_values(valtype):
         return lambda a:a   #cannot do it
     if valtype == 'Real':
         dtype = float
-    elif valtype == 'Integer':
+    elif valtype in ('Integer','Count','Index'):
         dtype = int
     elif valtype == 'Complex':
         dtype = complex
     else:
         raise ValueError('Unknown matrix value type')
-    fcnv = lambda a : numpy.asarray(a, dtype=dtype)
+    single = convert_single_value(valtype)
+    # elements that are not numbers yet are converted here, the others by numpy
+    to_numbers = convert_nested(lambda a: single(a) if isinstance(a,unicode) else a)
+    fcnv = lambda a : numpy.asarray(to_numbers(a), dtype=dtype)
     return fcnv
 
 @  DDLm specifies List element composition using a notation of form 'cont(el,el,el...)'
-- 
2.43.0


From 153c68a9354aeb0329accae8db7adbb92f349a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:39 +0000
Subject: [PATCH 109/132] fix: derived arrays of one element and default lists
 were stored as other values

---
 src/CifFile_module.nw | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index fbeea1f..091b351 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3037,14 +3037,15 @@ def store_new_looped_value(self,key,cifdata,result,default_result):
       # try to change any matrices etc. to lists
       the_category = self[key]["_name.category_id"]
       out_result = result
-      if result is not None and not default_result:
+      if result is not None:
+              is_array = self.has_array_values(key)
               # find any numpy arrays
               def conv_from_numpy(one_elem):
                   if not hasattr(one_elem,'dtype'):
                      if isinstance(one_elem,(list,tuple)):
                         return StarFile.StarList([conv_from_numpy(a) for a in one_elem])
                      return one_elem
-                  if one_elem.size > 1:   #so is not a float
+                  if one_elem.size > 1 or (is_array and one_elem.ndim > 0):   #so is not a float
                      return StarFile.StarList([conv_from_numpy(a) for a in one_elem.tolist()])
                   else:
                       try:
@@ -3069,16 +3070,23 @@ def store_new_looped_value(self,key,cifdata,result,default_result):
 
 def store_new_unlooped_value(self,key,cifdata,result):
       """Store a single value from the dREL system"""
+      is_array = self.has_array_values(key)
       if result is not None and hasattr(result,'dtype'):
-          if result.size > 1:
+          if result.size > 1 or (is_array and result.ndim > 0):
               out_result = StarFile.StarList(result.tolist())
               cifdata[key] = out_result
           else:
               cifdata[key] = result.item(0)
+      elif is_array and isinstance(result,list):   #one value, not a column of a loop
+          cifdata[key] = StarFile.StarList(result)
       else:
           cifdata[key] = result
       return result
 
+def has_array_values(self,key):
+    """Test that values of key are lists or arrays, even those with one element"""
+    return self[key].get('_type.container','Single') in ('List','Array','Matrix')
+
 @ Storing category results.  dREL allows 'category methods', which initialise an entire
 category.  The dREL system that we have written returns a dictionary of lists, with the
 dictionary keys being item names.  It is sufficient for us to extract each of these names
-- 
2.43.0


From 1016233c0deb049142b79325457c52406d48195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:50 +0000
Subject: [PATCH 110/132] fix: derived arrays of one element and default lists
 were stored as other values

Looped arrays were lists when derived and arrays when accessed again.
---
 src/CifFile_module.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 091b351..fcb6ed9 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3037,8 +3037,8 @@ def store_new_looped_value(self,key,cifdata,result,default_result):
       # try to change any matrices etc. to lists
       the_category = self[key]["_name.category_id"]
       out_result = result
+      is_array = self.has_array_values(key)
       if result is not None:
-              is_array = self.has_array_values(key)
               # find any numpy arrays
               def conv_from_numpy(one_elem):
                   if not hasattr(one_elem,'dtype'):
@@ -3066,6 +3066,8 @@ def store_new_looped_value(self,key,cifdata,result,default_result):
           cifdata[key] = out_result
           cifdata.CreateLoop([key])
       print('Loop info:' + repr(cifdata.loops))
+      if is_array and self[key]['_type.container'] != 'List':
+          return self.change_type(key,out_result)   #as when next accessed
       return out_result
 
 def store_new_unlooped_value(self,key,cifdata,result):
-- 
2.43.0


From 712c047d4a74e8f017059d671c7e322b7bafdb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 111/132] fix: the order of blocks in collections changed from
 one run to the next

keys() and first_block() followed the order of a set when all frames are visible.
---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e13957f..75d0cd8 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -289,7 +289,7 @@ def __setattr__(self,attr_name,newval):
         if newval not in ('dictionary','instance'):
             raise StarError("Star file may only have 'dictionary' or 'instance' scoping, not %s" % newval)
         if newval == 'dictionary':
-            self.visible_keys = [a for a in self.lower_keys]
+            self.visible_keys = [a for a in self.child_table if a in self.lower_keys]
         else:
             #only top-level datablocks visible
             self.visible_keys = [a[0] for a in self.child_table.items() if a[1].parent==None]
@@ -715,7 +715,7 @@ def merge_fast(self,new_bc,parent=None):
     else:
         parent_name = None  #an error will be thrown if we treat as a string
     if overlap_flag and mode != 'replace':
-        double_keys = self.lower_keys.intersection(new_bc.lower_keys)
+        double_keys = sorted(self.lower_keys.intersection(new_bc.lower_keys))
         for dup_key in double_keys:
               our_parent = self.child_table[dup_key].parent
               their_parent = new_bc.child_table[dup_key].parent
-- 
2.43.0


From f0159c1dfff53619120fdf9d755f15dac3f39e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 112/132] fix: the order of problems reported and of
 definitions changed from one run to the next

They followed the order of sets.
---
 src/CifFile_module.nw | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index fcb6ed9..ea1280a 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1315,9 +1315,7 @@ def ddlm_danglers(self):
     for them, or are children of an unattached category"""
     top_block = self.get_root_category()
     connected = set(self.ddlm_all_children(top_block))
-    all_keys = set(self.keys())
-    unconnected = all_keys - connected
-    return list(unconnected)
+    return [a for a in self.keys() if a not in connected]
 
 def get_ddlm_parent(self,itemname):
     """Get the parent category of itemname"""
@@ -2269,7 +2267,10 @@ def validate_loop_key_ddlm(self,loop_names):
     final_cats = self.get_final_cats(loop_names)
     if len(final_cats)>0:
         poss_keys = []
-        for one_cat in set([self[a][self.cat_spec].lower() for a in loop_names]):
+        loop_cats = []
+        for one_cat in [self[a][self.cat_spec].lower() for a in loop_names]:
+            if one_cat not in loop_cats: loop_cats.append(one_cat)
+        for one_cat in loop_cats:
             while one_cat in self.parent_lookup:   #own keys, then those of the parents
                 poss_keys += [a.lower() for a in self.cat_key_table[one_cat][0] if a is not None]
                 one_cat = self[one_cat]['_name.category_id'].lower()
@@ -2309,7 +2310,7 @@ def validate_loop_references(self,loop_names):
         if s_item in nl: return True
         return False
     res_g = [a for a in group_mh if not check_gr(a,loop_names)]
-    if len(res_g) > 0: return {"result":False,"bad_items":set(res_g)}
+    if len(res_g) > 0: return {"result":False,"bad_items":sorted(set(res_g))}
     if len(res) == 0: return {"result":True}
     # construct alternate list
     alternates = [(a,self.get_alternates(a)) for a in res]
@@ -2317,7 +2318,7 @@ def validate_loop_references(self,loop_names):
     # next line purely for error reporting
     missing_alts = [a[0] for a in alternates if len(a[1]) == 0]
     if len(real_alternates) != len(res):
-       return {"result":False,"bad_items":set(missing_alts)}   #short cut; at least one
+       return {"result":False,"bad_items":sorted(set(missing_alts))}   #short cut; at least one
                                                    #doesn't have an altern
     #loop over alternates
     for orig_name,alt_names in alternates:
@@ -2659,7 +2660,7 @@ def validate_mandatory_category(self,whole_block):
     all_cats = [self[a].get(self.cat_spec) for a in whole_block.keys()]
     missing = set(mand_cats) - set(all_cats)
     if len(missing) > 0:
-        return {"result":False,"bad_items":repr(missing)}
+        return {"result":False,"bad_items":repr(sorted(missing))}
     return {"result":True}
 
 @  Processing DDLm mandatory categories/items
@@ -3336,7 +3337,7 @@ def duplicate_datanames(self,cifdata,from_category,to_category,key_vals=None,ski
     print('Source dataname set: ' + repr(s_names_in_cat))
     print('Target dataname set: ' + repr(t_names_in_cat))
     print('Projecting through following datanames from %s to %s' % (from_category,to_category) + repr(can_project))
-    for project_name in can_project:
+    for project_name in sorted(can_project):
         full_from_name = self.cat_obj_lookup_table[(from_category.lower(),project_name.lower())][0]
         full_to_name = self.cat_obj_lookup_table[(to_category.lower(),project_name.lower())][0]
         if key_vals is None:
-- 
2.43.0


From eae3d6713cffc5a82fb5ad01fc1a59fa825da110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 113/132] fix: dREL Eigen returned parts of different
 eigenvectors

---
 src/drel/drel_runtime.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index 83f4309..376aba4 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -163,7 +163,7 @@ def drel_eigen(in_matrix):
     move = list(numpy.argsort(vals))
     move.reverse()
     vals = vals[move]
-    vects = vects[move]
+    vects = vects.T[move]   #the vectors are in the columns
     vects = list([[a]+list(numpy.asarray(v).ravel()) for a,v in zip(vals,vects)]) #Eigen returns 4-list
     return vects
 
-- 
2.43.0


From 129c80684acdbd84a16ee15b043baad46c0e2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 114/132] fix: the compiled scanner read the line number beyond
 its variable

---
 src/lib/star_scanner.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/star_scanner.h b/src/lib/star_scanner.h
index 36518a6..e19edfa 100644
--- a/src/lib/star_scanner.h
+++ b/src/lib/star_scanner.h
@@ -20,7 +20,7 @@ extern int star_scanner(void);
 extern void star_clear(void);
 extern char * yytext;
 extern size_t yyleng;
-extern size_t yylineno;
+extern int yylineno;
 extern int line_start;  /* set when the token follows a newline not seen as white space */
 #else
 extern char * input_string;
-- 
2.43.0


From b0448db8981d3de6d3273427595707909fbf6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 115/132] fix: the compiled scanner read its input after it was
 freed

---
 src/lib/py_star_scan.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index c5304f1..b6be11b 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -22,6 +22,7 @@
           ob = Py_InitModule3(name, methods, doc);
 #endif
 
+static PyObject * input_object;  /* the string object that holds the input */
 static int input_has_zero;  /* characters follow the part of the input that is scanned */
 
 static PyObject * get_input(PyObject * self, PyObject * args);
@@ -66,14 +67,22 @@ static PyObject *
 get_input(PyObject * self, PyObject * args) 
 {
 PyObject * str_arg;  /* A python string object in theory */
+PyObject * old_input;
+char * new_string;
 int i;
 if(!(PyArg_ParseTuple(args,"U",&str_arg))) return NULL;
 #if PY_MAJOR_VERSION >= 3
- input_string = PyUnicode_AsUTF8(str_arg);
+ new_string = (char *) PyUnicode_AsUTF8(str_arg);
 #else
- input_string = PyString_AsString(str_arg);
+ new_string = PyString_AsString(str_arg);
 #endif
-if(input_string==NULL) return NULL;
+if(new_string==NULL) return NULL;
+/* The characters belong to the string object, which has to stay */
+Py_INCREF(str_arg);
+old_input = input_object;
+input_object = str_arg;
+input_string = new_string;
+Py_XDECREF(old_input);
 string_pos = 0;
 in_string_len = strlen(input_string);
 input_has_zero = (PyUnicode_FindChar(str_arg,0,0,PyUnicode_GET_LENGTH(str_arg),1) >= 0);
-- 
2.43.0


From fdeb4f1d9a12d3e6ab65d97a30a1b9890644af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 116/132] fix: the compiled scanner could not be used after its
 memory was freed

---
 src/lib/py_star_scan.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index b6be11b..8af6597 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -187,21 +187,28 @@ clear_mem(void)
 {
 int i;
 for(i=0;i<current_len;i++){
-  printf("Clearing token %d\n",i);
     Py_XDECREF(value_list[i]);
     }
 free(token_list);
 free(value_list);
 free(line_no_list);
+token_list = NULL;
+value_list = NULL;
+line_no_list = NULL;
 current_len = 0;
 alloc_mem = 0;
+/* There is no input until the next call of prepare */
+in_string_len = string_pos = 0;
+input_has_zero = 0;
+star_clear();
+Py_CLEAR(input_object);
 }
 
 static PyObject *
 drop_mem(PyObject * self, PyObject * args)
 {
 clear_mem();
-return NULL;
+Py_RETURN_NONE;
 }
 
 /* For error reporting we need to supply the last 10 tokens */
-- 
2.43.0


From e071b7f93818ce4dbfb82ae918037c1aaa2392b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 117/132] fix: DDL2 dictionaries with definitions of several
 items could not be used

---
 src/CifFile_module.nw | 183 ++++++++++++------------------------------
 1 file changed, 52 insertions(+), 131 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index ea1280a..82f5ab8 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -832,54 +832,52 @@ that you can determine it from the item name.  We add in the category for
 simplicity.
 
 <<Iron out DDL2 strangeness>>=
-<<Loopify parent-child relationships>>
-
 def DDL2_normalise(self):
-   listed_defs = filter(lambda a:isinstance(self[a].get('_item.name'),list),self.keys())
+   listed_defs = [a for a in self.keys() if isinstance(self[a].get('_item.name'),list)]
    # now filter out all the single element lists!
-   dodgy_defs = filter(lambda a:len(self[a]['_item.name']) > 1, listed_defs)
+   dodgy_defs = [a for a in listed_defs if len(self[a]['_item.name']) > 1]
+   single_defs = [a for a in listed_defs if len(self[a]['_item.name']) == 1]
    for item_def in dodgy_defs:
       <<Repopulate child definitions>>
-   <<Populate parent and child links correctly>>
    # now flatten any single element lists
-   single_defs = filter(lambda a:len(self[a]['_item.name'])==1,listed_defs)
    for flat_def in single_defs:
-       flat_keys = self[flat_def].GetLoop('_item.name').keys()
-       for flat_key in flat_keys: self[flat_def][flat_key] = self[flat_def][flat_key][0]
-   # now deal with the multiple lists
+       for flat_key in list(self[flat_def].GetLoop('_item.name').keys()):
+           flat_value = self[flat_def][flat_key][0]
+           self[flat_def].RemoveItem(flat_key)
+           self[flat_def][flat_key] = flat_value
+   # the category is part of the item name
+   for item_def in self.keys():
+       if '_category.id' not in self[item_def] and self.cat_spec not in self[item_def] and '.' in item_def:
+           self[item_def][self.cat_spec] = item_def[1:].split('.')[0]
+   <<Populate parent and child links correctly>>
    # next we do aliases
    all_aliases = [a for a in self.keys() if self[a].has_key('_item_aliases.alias_name')]
    for aliased in all_aliases:
       my_aliases = listify(self[aliased]['_item_aliases.alias_name'])
       for alias in my_aliases:
-          self[alias] = self[aliased].copy()   #we are going to delete stuff...
-          del self[alias]["_item_aliases.alias_name"]
+          alias_def = self[aliased].copy()
+          alias_def.RemoveItem("_item_aliases.alias_name")
+          alias_def.RemoveItem("_item.name")
+          alias_def["_item.name"] = alias
+          self[alias] = alias_def
 
 @ As some DDL2 dictionaries neglect children, we repopulate the skeleton or non-existent definitions that
 may be provided in the dictionary.
 
 <<Repopulate child definitions>>=
       # print("DDL2 norm: processing %s" % item_def)
-      thisdef = self[item_def]
-      packet_no = thisdef['_item.name'].index(item_def)
-      realcat = thisdef['_item.category_id'][packet_no]
-      realmand = thisdef['_item.mandatory_code'][packet_no]
-      # first add in all the missing categories
-      # we don't replace the entry in the list corresponding to the
-      # current item, as that would wipe out the information we want
-      for child_no in range(len(thisdef['_item.name'])):
-          if child_no == packet_no: continue
-          child_name = thisdef['_item.name'][child_no]
-          child_cat = thisdef['_item.category_id'][child_no]
-          child_mand = thisdef['_item.mandatory_code'][child_no]
-          if child_name not in self:
-              self[child_name] = CifBlock()
-              self[child_name]['_item.name'] = child_name
-          self[child_name]['_item.category_id'] = child_cat
-          self[child_name]['_item.mandatory_code'] = child_mand
-      self[item_def]['_item.name'] = item_def
-      self[item_def]['_item.category_id'] = realcat
-      self[item_def]['_item.mandatory_code'] = realmand
+thisdef = self[item_def]
+all_names = thisdef['_item.name']
+def_cols = [a for a in ('_item.category_id','_item.mandatory_code') if a in thisdef]
+packets = list(zip(*[thisdef[a] for a in def_cols])) or [()]*len(all_names)
+for flat_key in ['_item.name'] + def_cols: thisdef.RemoveItem(flat_key)
+# first add in all the missing definitions and categories
+for child_name,packet in zip(all_names,packets):
+    if child_name.lower() != item_def and child_name not in self:
+        self[child_name] = CifBlock()
+    child_def = self[child_name]
+    for flat_key,flat_value in zip(['_item.name'] + def_cols,(child_name,) + packet):
+        if not isinstance(child_def.get(flat_key),list): child_def[flat_key] = flat_value
 
 @ Populating parent and child links.  The DDL2 model uses parent-child relationships
 to create relational database behaviour.  This means that the emphasis is on simply
@@ -889,107 +887,28 @@ definition that they relate to.  This means we have to sometimes relocate and ex
 As an item can simultaneously be both a parent and a child, we need to explicitly fill in
 the links even within a single definition.
 
-<<Populate parent and child links correctly>>=
-target_defs = [a for a in self.keys() if '_item_linked.child_name' in self[a] or \
-                              '_item_linked.parent_name' in self[a]]
-# now dodgy_defs contains all definition blocks with more than one child/parent link
-for item_def in dodgy_defs: self.create_pcloop(item_def)           #regularise appearance
-for item_def in dodgy_defs:
-      print('Processing %s' % item_def)
-      thisdef = self[item_def]
-      child_list = thisdef['_item_linked.child_name']
-      parents = thisdef['_item_linked.parent_name']
-      # for each parent, find the list of children.
-      family = list(zip(parents,child_list))
-      notmychildren = family         #We aim to remove non-children
-      # Loop over the parents, relocating as necessary
-      while len(notmychildren):
-         # get all children of first entry
-         mychildren = [a for a in family if a[0]==notmychildren[0][0]]
-         print("Parent %s: %d children" % (notmychildren[0][0],len(mychildren)))
-         for parent,child in mychildren:   #parent is the same for all
-                  # Make sure that we simply add in the new entry for the child, not replace it,
-                  # otherwise we might spoil the child entry loop structure
-                  try:
-                      childloop = self[child].GetLoop('_item_linked.parent_name')
-                  except KeyError:
-                      print('Creating new parent entry %s for definition %s' % (parent,child))
-                      self[child]['_item_linked.parent_name'] = [parent]
-                      childloop = self[child].GetLoop('_item_linked.parent_name')
-                      childloop.AddLoopItem(('_item_linked.child_name',[child]))
-                      continue
-                  else:
-                      # A parent loop already exists and so will a child loop due to the
-                      # call to create_pcloop above
-                      pars = [a for a in childloop if getattr(a,'_item_linked.child_name','')==child]
-                      goodpars = [a for a in pars if getattr(a,'_item_linked.parent_name','')==parent]
-                      if len(goodpars)>0:   #no need to add it
-                          print('Skipping duplicated parent - child entry in %s: %s - %s' % (child,parent,child))
-                          continue
-                      print('Adding %s to %s entry' % (parent,child))
-                      newpacket = childloop.GetPacket(0)   #essentially a copy, I hope
-                      setattr(newpacket,'_item_linked.child_name',child)
-                      setattr(newpacket,'_item_linked.parent_name',parent)
-                      childloop.AddPacket(newpacket)
-         #
-         # Make sure the parent also points to the children.  We get
-         # the current entry, then add our
-         # new values if they are not there already
-         #
-         parent_name = mychildren[0][0]
-         old_children = self[parent_name].get('_item_linked.child_name',[])
-         old_parents = self[parent_name].get('_item_linked.parent_name',[])
-         oldfamily = zip(old_parents,old_children)
-         newfamily = []
-         print('Old parents -> %s' % repr(old_parents))
-         for jj, childname in mychildren:
-             alreadythere = [a for a in oldfamily if a[0]==parent_name and a[1] ==childname]
-             if len(alreadythere)>0: continue
-             'Adding new child %s to parent definition at %s' % (childname,parent_name)
-             old_children.append(childname)
-             old_parents.append(parent_name)
-         # Now output the loop, blowing away previous definitions.  If there is something
-         # else in this category, we are destroying it.
-         newloop = CifLoopBlock(dimension=1)
-         newloop.AddLoopItem(('_item_linked.parent_name',old_parents))
-         newloop.AddLoopItem(('_item_linked.child_name',old_children))
-         del self[parent_name]['_item_linked.parent_name']
-         del self[parent_name]['_item_linked.child_name']
-         self[parent_name].insert_loop(newloop)
-         print('New parents -> %s' % repr(self[parent_name]['_item_linked.parent_name']))
-         # now make a new,smaller list
-         notmychildren = [a for a in notmychildren if a[0]!=mychildren[0][0]]
-
-@ In order to handle parent-child relationships in a regular way, we want to assume
-that all parent-child entries occur in a loop, with both members present.  This
-routine does that for us.  If the parent is missing, it is assumed to be the
-currently-defined item.  If the child is missing, likewise.
-
-<<Loopify parent-child relationships>>=
-def create_pcloop(self,definition):
-    old_children = self[definition].get('_item_linked.child_name',[])
-    old_parents = self[definition].get('_item_linked.parent_name',[])
-    if isinstance(old_children,unicode):
-         old_children = [old_children]
-    if isinstance(old_parents,unicode):
-         old_parents = [old_parents]
-    if (len(old_children)==0 and len(old_parents)==0) or \
-       (len(old_children) > 1 and len(old_parents)>1):
-         return
-    if len(old_children)==0:
-         old_children = [definition]*len(old_parents)
-    if len(old_parents)==0:
-         old_parents = [definition]*len(old_children)
-    newloop = CifLoopBlock(dimension=1)
-    newloop.AddLoopItem(('_item_linked.parent_name',old_parents))
-    newloop.AddLoopItem(('_item_linked.child_name',old_children))
-    try:
-        del self[definition]['_item_linked.parent_name']
-        del self[definition]['_item_linked.child_name']
-    except KeyError:
-        pass
-    self[definition].insert_loop(newloop)
+A link for which only the parent is given is a link to the current definition, and
+the same goes for links for which only the child is given.
 
+<<Populate parent and child links correctly>>=
+my_parents = {}
+my_children = {}
+for item_def in self.keys():
+    children = listify(self[item_def].get(self.child_spec,[]))
+    parents = listify(self[item_def].get(self.parent_spec,[]))
+    if len(children)==0: children = [item_def]*len(parents)
+    if len(parents)==0: parents = [item_def]*len(children)
+    for link_name in (self.child_spec,self.parent_spec):
+        if link_name in self[item_def]: self[item_def].RemoveItem(link_name)
+    for parent,child in zip(parents,children):
+        for links,from_name,to_name in ((my_parents,child,parent),(my_children,parent,child)):
+            known = links.setdefault(from_name.lower(),[])
+            if to_name.lower() not in [a.lower() for a in known]: known.append(to_name)
+for links,link_name in ((my_parents,self.parent_spec),(my_children,self.child_spec)):
+    for item_def in links.keys():
+        if item_def in self:
+            self[item_def][link_name] = links[item_def]
+            self[item_def].CreateLoop([link_name])
 
 @ Loading the DDL1 categories with DDL2-type information.  DDL2 people wisely
 put category-wide information in the category definition rather than
@@ -1145,6 +1064,8 @@ def create_def_block_table(self):
     proto_table = [(super(CifDic,self).__getitem__(a),a) for a in super(CifDic,self).keys()]
     # now get the actual ids instead of blocks
     proto_table = list([(a[0].get(self.cat_id_spec,a[0].get(self.def_id_spec,a[1])),a[1]) for a in proto_table])
+    # a DDL2 definition listing the children of an item is named for that item
+    proto_table = [(a[1] if isinstance(a[0],list) else a[0],a[1]) for a in proto_table]
     # remove non-definitions
     if self.diclang != "DDL1":
         top_blocks = list([a[0].lower() for a in self.get_roots()])
-- 
2.43.0


From 9c16d1a72263f6f988ffac5b19ac85f80a7c4793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 118/132] fix: dependent items written in another case were
 reported as missing

---
 src/CifFile_module.nw | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 82f5ab8..63879ed 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2460,10 +2460,8 @@ def validate_dependents(self,item_name,item_value,whole_block,prov={},globals={}
         return {"result":None}    #not relevant
     if isinstance(dep_items,unicode):
         dep_items = [dep_items]
-    actual_names = whole_block.keys()
-    actual_names.extend(prov.keys())
-    actual_names.extend(globals.keys())
-    missing = [a for a in dep_items if a not in actual_names]
+    actual_names = set([a.lower() for n in (whole_block,prov,globals) for a in n.keys()])
+    missing = [a for a in dep_items if a.lower() not in actual_names]
     if len(missing) > 0:
         alternates = map(lambda a:[self.get_alternates(a),a],missing)
         # compact way to get a list of alternative items which are
-- 
2.43.0


From 6af61137339fce6014c48cb1287798bdbb8f8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 119/132] fix: a DDL2 range that is not in a loop was taken
 apart into characters

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 63879ed..f30a47c 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2038,8 +2038,8 @@ def validate_enum_range(self,item_name,item_value):
     if "_item_range.minimum" not in self[item_name] and \
        "_item_range.maximum" not in self[item_name]:
         return {"result":None}
-    minvals = self[item_name].get("_item_range.minimum",default = ["."])
-    maxvals = self[item_name].get("_item_range.maximum",default = ["."])
+    minvals = listify(self[item_name].get("_item_range.minimum",default = ["."]))
+    maxvals = listify(self[item_name].get("_item_range.maximum",default = ["."]))
     def makefloat(a):
         if a == ".": return a
         else: return float(a)
-- 
2.43.0


From 6ce200bb578d6c0cd34ab5bde047694e405159e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 120/132] fix: implicit items of a DDL2 key that are not given
 were reported as missing

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index f30a47c..255005a 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2526,7 +2526,7 @@ def validate_uniqueness(self,item_name,item_value,whole_block,provisional_items=
            elif other_name in whole_block:
                other_data.append(whole_block[other_name])
            elif self[other_name].get(self.must_exist_spec)=="implicit":
-               other_data.append([item_name]*len(item_value))  #placeholder
+               continue     #the same for all packets
            else:
                return {"result":False,"bad_items":other_name}#missing data name
            if isinstance(other_data[-1],unicode):   #the same for all packets
-- 
2.43.0


From ff66d5fa3f0a47f83c48031f91a5711f89e02bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 121/132] fix: validation of a dictionary left its save frames
 visible as blocks

---
 src/CifFile_module.nw | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 255005a..4bbd1ae 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3867,6 +3867,7 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
         fulldic = dic
     no_matches = {}
     valid_result = {}
+    old_scoping = check_file.scoping
     if isdic:          #assume one block only
         check_file.scoping = 'instance' #only data blocks visible
         top_level = check_file.keys()[0]
@@ -3881,15 +3882,17 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
                 if len(new_vals)>0:
                     check_file[parent] = new_vals
                 print("Added %s (len %d)" % (parent,len(check_file[parent])))
+    check_blocks = [(block,check_file[block]) for block in check_file.keys()]
+    check_file.scoping = old_scoping    #leave the file alone
     # now run the validations
-    for block in check_file.keys():
+    for block,block_contents in check_blocks:
         if isdic and block == top_level:
            block_scope = 'Dictionary'
         elif isdic:
            block_scope = 'Item'
         else:
            block_scope = 'Datablock'
-        check_block = check_file[block].copy()   #leave the file alone
+        check_block = block_contents.copy()   #leave the file alone
         no_matches[block] = [a for a in check_block.keys() if a not in fulldic]
         # remove non-matching items
         print("Not matched: " + repr(no_matches[block]))
-- 
2.43.0


From ac3825522445d499a1e82aea1e34363718fbd134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:48 +0000
Subject: [PATCH 122/132] fix: mandatory and prohibited attributes were not
 checked without dREL

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 4bbd1ae..b2ad6dc 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -567,6 +567,7 @@ def __init__(self,dic,do_minimum=False,do_imports='All', do_dREL=True,
         self.create_alias_table()
         self.create_cat_obj_table()
         self.create_cat_key_table()
+        self.ddlm_parse_valid() #extract validity information from data block
         if do_dREL:
             print('Doing full dictionary initialisation')
             self.initialise_drel()
@@ -2766,7 +2767,6 @@ call this function separately at a later stage if needed.
 <<Initialise dREL functions>>=
 def initialise_drel(self):
     """Parse drel functions and prepare data structures in dictionary"""
-    self.ddlm_parse_valid() #extract validity information from data block
     self.transform_drel()   #parse the drel functions
     self.add_drel_funcs()   #put the drel functions into the namespace
 
-- 
2.43.0


From 5ce2aedac2b95f5dae8ba73fec52f6c9b365ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 123/132] fix: DDL2 dictionaries could not be validated

---
 src/CifFile_module.nw | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index b2ad6dc..00cba35 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2396,7 +2396,7 @@ def validate_child(self,item_name,item_value,whole_block,provisional_items={},gl
     except KeyError:
         return {"result":None}    #not relevant
     # special case for dictionaries  -> we check parents of children only
-    if item_name in globals:  #dictionary so skip
+    if item_name.lower() in globals:  #dictionary so skip
         return {"result":None}
     if isinstance(item_value,unicode): # single value
         parent_values = [item_value]
@@ -2566,9 +2566,8 @@ happens in practice, as category definitions do not have anything from the
 (mandatory) _item_description category.  We therefore adopt the supremely
 useless meaning that mandatory categories in a dictionary context mean only
 that somewhere, maybe in only one save frame, an item from this category
-exists.  This interpretation is forced by using the "fake_mand" argument,
-which then assumes that the alternative routine will be used to set the
-error information on a dictionary-wide basis.
+exists.  This is checked together with the dictionary header, for which
+the names in all of the definitions are provided.
 
 <<Validate category presence>>=
 def validate_mandatory_category(self,whole_block):
@@ -2642,11 +2641,14 @@ def run_remove_global_validation(self,item_name,whole_block):
     results = list([(f.__name__,f(item_name,whole_block)) for f in self.global_remove_validation_funs])
     return {item_name:results}
 
-def run_block_validation(self,whole_block,block_scope='Item'):
+def run_block_validation(self,whole_block,block_scope='Item',all_names=None):
     results = []
     for f in self.block_validation_funs:
         if f == self.validate_mandatory_category:
-            results.append((f.__name__,f(whole_block)))
+            if self.diclang == 'DDL2' and block_scope == 'Item': #dictionary-wide
+                continue
+            if all_names is None: all_names = whole_block.keys()
+            results.append((f.__name__,f(dict.fromkeys(all_names))))
         else:
             results.append((f.__name__,f(whole_block,default_scope=block_scope)))
     # fix up the return values
@@ -3867,6 +3869,7 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
         fulldic = dic
     no_matches = {}
     valid_result = {}
+    check_globals = {}
     old_scoping = check_file.scoping
     if isdic:          #assume one block only
         check_file.scoping = 'instance' #only data blocks visible
@@ -3876,12 +3879,9 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
         if fulldic.diclang == 'DDL2':
             poss_parents = fulldic.get_all("_item_linked.parent_name")
             for parent in poss_parents:
-                curr_parent = listify(check_file.get(parent,[]))
                 new_vals = check_file.get_all(parent)
-                new_vals.extend(curr_parent)
                 if len(new_vals)>0:
-                    check_file[parent] = new_vals
-                print("Added %s (len %d)" % (parent,len(check_file[parent])))
+                    check_globals[parent.lower()] = new_vals
     check_blocks = [(block,check_file[block]) for block in check_file.keys()]
     check_file.scoping = old_scoping    #leave the file alone
     # now run the validations
@@ -3899,7 +3899,12 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
         for nogood in no_matches[block]:
              del check_block[nogood]
         print("Validating block %s, scope %s" % (block,block_scope))
-        valid_result[block] = run_data_checks(check_block,fulldic,block_scope=block_scope)
+        if block_scope == 'Dictionary':   #categories may be in any definition
+           all_names = [a for n,b in check_blocks for a in b.keys() if a in fulldic]
+        else:
+           all_names = None
+        valid_result[block] = run_data_checks(check_block,fulldic,block_scope=block_scope,
+                                              globals=check_globals,all_names=all_names)
     return valid_result,no_matches
 
 def validate_report(val_result,use_html=False):
@@ -4063,14 +4068,14 @@ the tests, we contract these lists to contain only false results, and then
 remove all items containing no false results.
 
 <<Run dictionary validation checks>>=
-def run_data_checks(check_block,fulldic,block_scope='Item'):
+def run_data_checks(check_block,fulldic,block_scope='Item',globals={},all_names=None):
     v_result = {}
     for key in check_block.keys():
         update_value(v_result, fulldic.run_item_validation(key,check_block[key]))
-        update_value(v_result, fulldic.run_global_validation(key,check_block[key],check_block))
+        update_value(v_result, fulldic.run_global_validation(key,check_block[key],check_block,globals=globals))
     for loopnames in check_block.loops.values():
         update_value(v_result, fulldic.run_loop_validation(loopnames))
-    update_value(v_result,fulldic.run_block_validation(check_block,block_scope=block_scope))
+    update_value(v_result,fulldic.run_block_validation(check_block,block_scope=block_scope,all_names=all_names))
     # return false and list of baddies if anything didn't match
     all_keys = list(v_result.keys())
     for test_key in all_keys:
-- 
2.43.0


From 9692b0f533397c3d20e50ed26f267ea32bbb066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:25 +0000
Subject: [PATCH 124/132] fix: a dREL number could not be appended to an array

---
 src/drel/drel_runtime.nw | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index 376aba4..117c69b 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -35,6 +35,7 @@ def aug_append(current,extra):
             newlist.append(extra)
             return newlist
     elif isinstance(current,numpy.ndarray):
+        extra = numpy.asarray(extra)    #could be a number or list
         if current.ndim == extra.ndim + 1:
             extra = numpy.expand_dims(extra,axis=0)
         elif current.ndim == extra.ndim:
-- 
2.43.0


From 478e715f76672d70289d602544ca7692fcc77ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 125/132] fix: syntax errors named the last value of an earlier
 file

---
 src/StarFile.nw | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 75d0cd8..15dd259 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1159,6 +1159,7 @@ def ReadStar(filename,prepared = None, maxlength=-1,
        else:
            prepared.set_characterset('ascii')
        proto_star = None
+       Y.lastval = ''       #nothing from an earlier file
        try:
            proto_star = getattr(parser,"input")(prepared)
        except Y.yappsrt.YappsSyntaxError as e:
-- 
2.43.0


From be6e40cf3e1e6a6caa9d45a3b7c77843e82fa0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 126/132] fix: output_asciidoc and star2_to_cif2 did not run
 under Python 3

---
 src/Programs/output_asciidoc.py | 13 +++++++------
 src/Programs/star2_to_cif2.py   |  6 +++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Programs/output_asciidoc.py b/src/Programs/output_asciidoc.py
index 2ed98e2..fb7182c 100644
--- a/src/Programs/output_asciidoc.py
+++ b/src/Programs/output_asciidoc.py
@@ -1,8 +1,9 @@
 # A program to produce an Ascii-doc ready presentation of a CIF dictionary
 #
+from __future__ import print_function
 from CifFile import CifDic,CifFile
 from CifFile.StarFile import CIFStringIO
-import cStringIO,os,re
+import os,re
 
 def make_asciidoc(indic):
     """Make a nice asciidoc document from a CIF dictionary"""
@@ -43,7 +44,7 @@ Datanames making up the keys for these categories have a dot suffix.""")
     outstring.write("\n\n");
     outstring.write("toc::[]\n")  #only works if toc2 removed
     # store a list of ids for us to reference later
-    section_ids = map(make_id,blockorder[1:])
+    section_ids = [make_id(a) for a in blockorder[1:]]
     for adef in blockorder[1:]:
         onedef = sem_dic[adef]
         def_type = onedef.get('_definition.scope','Item')
@@ -64,7 +65,7 @@ Datanames making up the keys for these categories have a dot suffix.""")
         example_explanation = onedef.get('_description_example.detail',[])
         if len(example_explanation) != len(examples):   # no explanations
             example_explanation = ['']*len(examples)
-        all_examples = zip(examples,example_explanation)
+        all_examples = list(zip(examples,example_explanation))
         if def_type == 'Category':
             outstring.write("[[%s]]\n== " % def_id)
             current_cat = def_header
@@ -175,7 +176,7 @@ def is_key(dic,name):
         cat_keys = cat_block.get('_category_key.name',[])
         single_key = cat_block.get('_category.key_id','')
         return name in cat_keys or name == single_key
-    print 'Warning: no block found for %s' % cat_name
+    print('Warning: no block found for %s' % cat_name)
     return False
 
 def get_template_text(onedef,mainfilename,template_cache={}):
@@ -190,7 +191,7 @@ def get_template_text(onedef,mainfilename,template_cache={}):
             template_cache[filename] = CifFile(basename,grammar="2.0")
         def_text = '(Generic definition) '+ prepare_text(template_cache[filename][blockname]['_description.text'])
     else:
-        print 'No import found'
+        print('No import found')
     return def_text
 
 def analyse_deps(indic,in_directory="."):
@@ -222,4 +223,4 @@ if __name__ == "__main__":
         indic = sys.argv[1]
         final_doc = make_asciidoc(indic)
     else:
-        print 'Usage: output_asciidoc <dictionary_name>. Output file will be <dictionary_name>.adoc'
+        print('Usage: output_asciidoc <dictionary_name>. Output file will be <dictionary_name>.adoc')
diff --git a/src/Programs/star2_to_cif2.py b/src/Programs/star2_to_cif2.py
index 15848c0..ebb64d4 100644
--- a/src/Programs/star2_to_cif2.py
+++ b/src/Programs/star2_to_cif2.py
@@ -14,9 +14,9 @@ from CifFile import ReadCif,CifDic
 import time
 
 def do_conversion(infile,outfile,desc=None,comment=None):
-    startread = time.clock()
+    startread = time.time()
     incif = ReadCif(infile,grammar="STAR2")
-    print('Finished reading %s in %f seconds' % (infile,time.clock() - startread))
+    print('Finished reading %s in %f seconds' % (infile,time.time() - startread))
     try:
         incif = CifDic(incif,do_minimum=True)
     except:
@@ -46,7 +46,7 @@ def do_conversion(infile,outfile,desc=None,comment=None):
     of = open(outfile,"w")
     of.write(incif.WriteOut(comment=comment_header,saves_after='_description.text'))
     of.close()
-    print('Finished writing %s in %f seconds' % (outfile,time.clock() - startread))
+    print('Finished writing %s in %f seconds' % (outfile,time.time() - startread))
 
 if __name__ == "__main__":
     import sys
-- 
2.43.0


From c330cc9df3eef6630cc968bed3360bdfa2597948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 127/132] fix: asciidoc output did not mark keys named in
 another case

---
 src/Programs/output_asciidoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Programs/output_asciidoc.py b/src/Programs/output_asciidoc.py
index fb7182c..44b9d98 100644
--- a/src/Programs/output_asciidoc.py
+++ b/src/Programs/output_asciidoc.py
@@ -175,7 +175,7 @@ def is_key(dic,name):
     if cat_block is not None:
         cat_keys = cat_block.get('_category_key.name',[])
         single_key = cat_block.get('_category.key_id','')
-        return name in cat_keys or name == single_key
+        return name.lower() in [k.lower() for k in list(cat_keys) + [single_key]]
     print('Warning: no block found for %s' % cat_name)
     return False
 
-- 
2.43.0


From 8612d1a93ca8f7da619b2a61172ae7595d02637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:42 +0000
Subject: [PATCH 128/132] fix: asciidoc output failed for categories without
 text that import dictionaries

---
 src/Programs/output_asciidoc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Programs/output_asciidoc.py b/src/Programs/output_asciidoc.py
index 44b9d98..a3d5bd1 100644
--- a/src/Programs/output_asciidoc.py
+++ b/src/Programs/output_asciidoc.py
@@ -183,9 +183,10 @@ def get_template_text(onedef,mainfilename,template_cache={}):
     """Return some text stating that the definition comes from a template"""
     import os.path
     def_text = 'Empty'
-    if onedef.has_key('_import.get'):
-        filename = onedef['_import.get'][0]['file']
-        blockname = onedef['_import.get'][0]['save']
+    imports = [a for a in onedef.get('_import.get',[]) if a.get('mode','Contents').lower() == 'contents']
+    if imports:
+        filename = imports[0]['file']
+        blockname = imports[0]['save']
         if filename not in template_cache:
             basename = os.path.join(os.path.dirname(mainfilename),filename)
             template_cache[filename] = CifFile(basename,grammar="2.0")
-- 
2.43.0


From 7cb3131fb16e956a6a505c8a3bf8fe28ff46945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:55 +0000
Subject: [PATCH 129/132] fix: defaults indexed by another item failed unless
 that item was a code in a looped table

---
 src/CifFile_module.nw | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 00cba35..39684b3 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3329,24 +3329,29 @@ if def_val:
     result = self.change_type(key,def_val)
     default_result = True
 elif def_index_val:            #derive a default value
-    index_vals = self[key]["_enumeration_default.index"]
+    # indices are compared as values of the item that they are values of
+    index_vals = self.change_type(def_index_val,list(listify(self[key]["_enumeration_default.index"])))
+    default_vals = listify(self[key]["_enumeration_default.value"])
     val_to_index = cifdata[def_index_val]     #what we are keying on
-    if self[def_index_val]['_type.contents'] in ['Code','Name','Tag']:
-        lcase_comp = True
+    lcase_comp = self[def_index_val]['_type.contents'] in ['Code','Name','Tag']
+    if lcase_comp:
         index_vals = [a.lower() for a in index_vals]
-    # Handle loops
-    if isinstance(val_to_index,list):
-        if lcase_comp:
-            val_to_index = [a.lower() for a in val_to_index]
-        keypos = [index_vals.index(a) for a in val_to_index]
-        result = [self[key]["_enumeration_default.value"][a]  for a in keypos]
-    else:
-        if lcase_comp:
-            val_to_index = val_to_index.lower()
-        keypos = index_vals.index(val_to_index)   #value error if no such value available
-        result = self[key]["_enumeration_default.value"][keypos]
-        default_result = True   #flag that it must be extended
-    result = self.change_type(key,result)
+    try:
+        # Handle loops
+        if isinstance(val_to_index,list):
+            if lcase_comp:
+                val_to_index = [a.lower() for a in val_to_index]
+            keypos = [index_vals.index(a) for a in val_to_index]
+            result = [default_vals[a]  for a in keypos]
+        else:
+            if lcase_comp:
+                val_to_index = val_to_index.lower()
+            keypos = index_vals.index(val_to_index)   #value error if no such value available
+            result = default_vals[keypos]
+            default_result = True   #flag that it must be extended
+        result = self.change_type(key,result)
+    except ValueError:     #no default is given for this value
+        result = None
     print("Indexed on %s to get %s for %s" % (def_index_val,repr(result),repr(val_to_index)))
 
 @ If a key is missing, we may sometimes fill in default values for it, for example,
-- 
2.43.0


From aaddc487538fc8c29bb6c577cd1301fc8ad3efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:48 +0000
Subject: [PATCH 130/132] fix: constructed categories failed or repeated a
 column when a shared item was missing from the data

---
 src/CifFile_module.nw | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 39684b3..d85e194 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3261,18 +3261,15 @@ def duplicate_datanames(self,cifdata,from_category,to_category,key_vals=None,ski
     for project_name in sorted(can_project):
         full_from_name = self.cat_obj_lookup_table[(from_category.lower(),project_name.lower())][0]
         full_to_name = self.cat_obj_lookup_table[(to_category.lower(),project_name.lower())][0]
+        try:
+            all_data_vals = cifdata[full_from_name]
+        except (CifRecursionError,StarFile.StarDerivationError):
+            continue
         if key_vals is None:
-            try:
-                result[full_to_name] = cifdata[full_from_name]
-            except StarFile.StarDerivationError:
-                pass
+            result[full_to_name] = all_data_vals
         else:
             all_key_vals = cifdata[source_key]
             filter_pos = [all_key_vals.index(a) for a in key_vals]
-            try:
-                all_data_vals = cifdata[full_from_name]
-            except StarFile.StarDerivationError:
-                pass
             result[full_to_name] = [all_data_vals[i] for i in filter_pos]
     return result
 
-- 
2.43.0


From 83daba87e271c71c3e340e35d8b6e40a4ea41afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:48 +0000
Subject: [PATCH 131/132] fix: categories were not constructed if names or
 filters were written in another case

---
 src/CifFile_module.nw | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index d85e194..a89abcf 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3098,9 +3098,9 @@ exact match for the set of datanames already present.
 cat_result = {}
 pulled_from_cats = [k for k in self.keys() if '_category_construct_local.components' in self[k]]
 pulled_from_cats = [(k,[
-                      self[n]['_name.category_id'] for n in self[k]['_category_construct_local.components']]
+                      self[n]['_name.category_id'].lower() for n in self[k]['_category_construct_local.components']]
                    ) for k in pulled_from_cats]
-pulled_to_cats = [k[0] for k in pulled_from_cats if the_category in k[1]]
+pulled_to_cats = [k[0] for k in pulled_from_cats if the_category.lower() in k[1]]
 if '_category_construct_local.type' in self[the_category]:
     print("**Now constructing category %s using DDLm attributes**" % the_category)
     try:
@@ -3148,7 +3148,7 @@ def construct_category(self,category,cifdata,store_value=True):
             if int_filter is not None:
                 morph_values.append([int(a) for a in int_filter])
             if text_filter is not None:
-                morph_values.append(text_filter)
+                morph_values.append(self.change_type(morphisms[0],list(text_filter)))
             cat_values.append(range(len(morph_values[-1])))
         # create the mathematical product filtered by equality of dataname values
         pullback_ids = [(x,y) for x in cat_values[0] for y in cat_values[1] \
@@ -3157,7 +3157,7 @@ def construct_category(self,category,cifdata,store_value=True):
         if len(pullback_ids)==0:
             return {}
         newids = self[category]['_category_construct_local.new_ids']
-        fullnewids = [self.cat_obj_lookup_table[(category,n)][0] for n in newids]
+        fullnewids = [self.cat_obj_lookup_table[(category.lower(),n.lower())][0] for n in newids]
         if con_type == 'Pullback':
             final_results = {fullnewids[0]:[x[0] for x in pullback_ids],fullnewids[1]:[x[1] for x in pullback_ids]}
             final_results.update(self.duplicate_datanames(cifdata,cats[0],category,key_vals = final_results[fullnewids[0]],skip_names=newids))
@@ -3250,17 +3250,17 @@ def push_from_pullback(self,target_category,source_categories,cifdata,store_valu
 def duplicate_datanames(self,cifdata,from_category,to_category,key_vals=None,skip_names=[]):
     """Copy across datanames for which the from_category key equals [[key_vals]]"""
     result = {}
-    s_names_in_cat = set(self.names_in_cat(from_category,names_only=True))
-    t_names_in_cat = set(self.names_in_cat(to_category,names_only=True))
+    s_names_in_cat = set([a.lower() for a in self.names_in_cat(from_category,names_only=True)])
+    t_names_in_cat = set([a.lower() for a in self.names_in_cat(to_category,names_only=True)])
     can_project = s_names_in_cat & t_names_in_cat
-    can_project -= set(skip_names)  #already dealt with
+    can_project -= set([a.lower() for a in skip_names])  #already dealt with
     source_key = self[from_category]['_category.key_id']
     print('Source dataname set: ' + repr(s_names_in_cat))
     print('Target dataname set: ' + repr(t_names_in_cat))
     print('Projecting through following datanames from %s to %s' % (from_category,to_category) + repr(can_project))
     for project_name in sorted(can_project):
-        full_from_name = self.cat_obj_lookup_table[(from_category.lower(),project_name.lower())][0]
-        full_to_name = self.cat_obj_lookup_table[(to_category.lower(),project_name.lower())][0]
+        full_from_name = self.cat_obj_lookup_table[(from_category.lower(),project_name)][0]
+        full_to_name = self.cat_obj_lookup_table[(to_category.lower(),project_name)][0]
         try:
             all_data_vals = cifdata[full_from_name]
         except (CifRecursionError,StarFile.StarDerivationError):
-- 
2.43.0


From 44f1c2ad240eec0597fc0f5289052c704552dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:48 +0000
Subject: [PATCH 132/132] fix: filling a category from those constructed from
 it repeated keys or failed

---
 src/CifFile_module.nw | 93 ++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 54 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index a89abcf..cce649d 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3184,64 +3184,49 @@ def push_from_pullback(self,target_category,source_categories,cifdata,store_valu
     """Each of the categories in source_categories are pullbacks that include
     the target_category"""
     target_key = self[target_category]['_category.key_id']
-    result = {target_key:[]}
-    first_time = True
+    parts = []    #what each of the source categories contributes
     # for each source category, determine which element goes to the target
     for sc in source_categories:
+        if not any(cifdata.has_key_or_alias(n) for n in self.names_in_cat(sc)):
+            continue
         components = self[sc]['_category_construct_local.components']
-        comp_cats = [self[c]['_name.category_id'] for c in components]
+        comp_cats = [self[c]['_name.category_id'].lower() for c in components]
         new_ids = self[sc]['_category_construct_local.new_ids']
-        source_ids = [self.cat_obj_lookup_table[(sc,n)][0] for n in new_ids]
-        if len(components) == 2:  # not a filter
-            element_pos = comp_cats.index(target_category)
-            old_id = source_ids[element_pos]
-            print('Using %s to populate %s' % (old_id,target_key))
-            result[target_key].extend(cifdata[old_id])
-            # project through all identical names
-            extra_result = self.duplicate_datanames(cifdata,sc,target_category,skip_names=new_ids+[target_key])
-            # we only include keys that are common to all categories
-            if first_time:
-                result.update(extra_result)
-            else:
-                for k in extra_result.keys():
-                    if k in result:
-                        print('Updating %s: was %s' % (k,repr(result[k])))
-                        result[k].extend(extra_result[k])
-        else:
-            extra_result = self.duplicate_datanames(cifdata,sc,target_category,skip_names=new_ids)
-            if len(extra_result)>0 or source_ids[0] in cifdata:  #something is present
-                result[target_key].extend(cifdata[source_ids[0]])
-                for k in extra_result.keys():
-                    if k in result:
-                        print('Reverse filter: Updating %s: was %s' % (k,repr(result[k])))
-                        result[k].extend(extra_result[k])
-                    else:
-                        result[k]=extra_result[k]
-# Bonus derivation if there is a singleton filter
-                if self[sc]['_category_construct_local.type'] == 'Filter':
-                    int_filter = self[sc].get('_category_construct_local.integer_filter',None)
-                    text_filter = self[sc].get('_category_construct_local.text_filter',None)
-                    if int_filter is not None:
-                        filter_values = int_filter
-                    else:
-                        filter_values = text_filter
-                    if len(filter_values)==1:    #a singleton
-                        extra_dataname = self[sc]['_category_construct_local.components'][0]
-                        if int_filter is not None:
-                            new_value = [int(filter_values[0])] * len(cifdata[source_ids[0]])
-                        else:
-                            new_value = filter_values * len(cifdata[source_ids[0]])
-                        if extra_dataname not in result:
-                            result[extra_dataname] = new_value
-                        else:
-                            result[extra_dataname].extend(new_value)
-                else:
-                    raise ValueError('Unexpected category construct type' + self[sc]['_category_construct_local.type'])
-        first_time = False
-    # check for sanity - all dataname lengths must be identical
-    datalen = len(set([len(a) for a in result.values()]))
-    if datalen != 1:
-        raise AssertionError('Failed to construct equal-length category items,'+ repr(result))
+        source_ids = [self.cat_obj_lookup_table[(sc.lower(),n.lower())][0] for n in new_ids]
+        con_type = self[sc]['_category_construct_local.type']
+        if len(components) != 2 and con_type != 'Filter':
+            raise ValueError('Unexpected category construct type' + con_type)
+        # a filter has a single element
+        old_id = source_ids[comp_cats.index(target_category.lower())]
+        try:
+            old_values = list(cifdata[old_id])
+        except (CifRecursionError,StarFile.StarDerivationError):
+            continue
+        print('Using %s to populate %s' % (old_id,target_key))
+        # project through all identical names
+        one_part = self.duplicate_datanames(cifdata,sc,target_category,
+                       skip_names=list(new_ids)+[self[target_key]['_name.object_id']])
+        one_part[target_key] = old_values
+        # Bonus derivation if there is a singleton filter
+        if con_type == 'Filter':
+            filter_values = self[sc].get('_category_construct_local.integer_filter',None)
+            if filter_values is None:
+                filter_values = self[sc].get('_category_construct_local.text_filter',[])
+            if len(filter_values)==1 and components[0] not in one_part:    #a singleton
+                one_part[components[0]] = self.change_type(components[0],list(filter_values)) * len(old_values)
+        parts.append(one_part)
+    if len(parts)==0:
+        return {}
+    # we only include keys that are common to all categories
+    result = dict([(k,[]) for k in parts[0].keys() if all(k in p for p in parts)])
+    # and each value of the key only once
+    seen_keys = set()
+    for one_part in parts:
+        for row_no,key_value in enumerate(one_part[target_key]):
+            if repr(key_value) in seen_keys: continue
+            seen_keys.add(repr(key_value))
+            for k in result.keys():
+                result[k].append(one_part[k][row_no])
     if store_value:
         print('Now storing ' + repr(result))
         self.store_new_cat_values(cifdata,result,target_category)
-- 
2.43.0

