From 7e11a58547f4ffa21390713696b99ab67980c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 01/97] fix: answer a request with truncated body with 400, and
 again when it is retransmitted

---
 sippy/SipTransactionManager.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7f520b4..641a789 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -331,12 +331,12 @@ class SipTransactionManager(object):
                 req = SipRequest(data)
                 tids = req.getTIds()
             except Exception as exception:
-                if isinstance(exception, SipParseError):
-                    resp = exception.getResponse()
-                    if resp is not None:
-                        self.transmitMsg(server, resp, ra.address, checksum)
+                resp = exception.sip_response if isinstance(exception, SipParseError) else None
                 dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
-                self.l1rcache[checksum] = SipTMRetransmitO()
+                if resp is not None:
+                    self.transmitMsg(server, resp, ra.address, checksum)
+                else:
+                    self.l1rcache[checksum] = SipTMRetransmitO()
                 return
             call_id = tids[0][0]
             req.rtime = rtime
-- 
2.43.0


From a9a5f95242ff38deee37a05c4ffa77099254a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 02/97] fix: ACK for a non-2xx response carries the Route set
 of the INVITE (RFC 3261 17.1.1.3)

---
 sippy/SipRequest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 8657bc9..1fb1d50 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -137,6 +137,7 @@ class SipRequest(SipMsg):
                           fr0m = self.getHFBCopy('from'), to = to, \
                           via = self.getHFBCopy('via'), callid = self.getHFBCopy('call-id'), \
                           cseq = self.getHFBody('cseq').getCSeqNum(), maxforwards = maxforward, \
+                          routes = self.getHFBCopys('route'), target = self.getTarget(), \
                           user_agent = self.user_agent)
 
     def genCANCEL(self):
-- 
2.43.0


From 08389250516acfeb6e771344e2fe89eed1af5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 03/97] fix: a deferred CANCEL carries the extra headers it was
 requested with

---
 sippy/SipTransactionManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 641a789..e7a9a27 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -454,11 +454,11 @@ class SipTransactionManager(object):
     def cancelTransaction(self, t, extra_headers = None):
         # If we got at least one provisional reply then (state == RINGING)
         # then start CANCEL transaction, otherwise deffer it
+        if extra_headers is not None and t.cancel is not None:
+            t.cancel.appendHeaders(extra_headers)
         if t.state != RINGING:
             t.cancelPending = True
         else:
-            if extra_headers is not None:
-                t.cancel.appendHeaders(extra_headers)
             self.newTransaction(t.cancel, userv = t.userv)
 
     def incomingResponse(self, msg, t, checksum):
-- 
2.43.0


From 8673f934ece37a17ee8a9427dd86e382655c5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 04/97] fix: a final response to INVITE that cannot be parsed
 no longer kills the transaction timers

---
 sippy/SipTransactionManager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index e7a9a27..ea3525d 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -467,6 +467,16 @@ class SipTransactionManager(object):
         if t.state == TERMINATED:
             return
 
+        if t.state in (TRYING, RINGING) and t.needack and msg.getSCode()[0] >= 200:
+            # Check that everything needed to build the ACK can be parsed
+            # before touching the timers, so that a broken response leaves
+            # the transaction intact
+            msg.getHFBody('to').getTag()
+            if msg.getSCode()[0] < 300:
+                for name in ('contact', 'record-route'):
+                    for body in msg.getHFBodys(name):
+                        body.getUrl().getTAddr()
+
         if t.state == TRYING:
             # Stop timers
             if t.teA != None:
-- 
2.43.0


From 5bb443b5b2aaeaf7c78534a46242140db8289680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 05/97] fix: escape a semicolon within the user name of a SIP
 URI so that it does not turn into a user parameter

---
 sippy/SipURL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 6c0ecfd..18e90df 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -30,7 +30,8 @@ try:
 except ImportError:
     from urllib.parse import quote, unquote
 
-RFC3261_USER_UNRESERVED = '&=+$,;?/#'
+# A semicolon in the user part would be taken for the start of user parameters
+RFC3261_USER_UNRESERVED = '&=+$,?/#'
 # Quote from RFC-3261:
 # Several rules are incorporated from RFC 2396 [5] but are updated to
 # make them compliant with RFC 2234
-- 
2.43.0


From de17586ea2e884e346d2b2b3f8561a3009bb3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 06/97] fix: a copy of SIP URI keeps the scheme and does not
 share the headers with the original

---
 sippy/SipURL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 18e90df..ab48355 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -292,9 +292,9 @@ class SipURL(object):
 
     def getCopy(self):
         return SipURL(username = self.username, password = self.password, host = self.host, port = self.port, \
-          headers = self.headers, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
+          headers = None if self.headers is None else dict(self.headers), usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
           maddr = self.maddr, method = self.method, tag = self.tag, other = list(self.other), \
-          userparams = list(self.userparams), lr = self.lr)
+          userparams = list(self.userparams), lr = self.lr, scheme = self.scheme)
 
     def getHost(self):
         return self.host
-- 
2.43.0


From 878c9042281450fa40962fead1f67e7447591637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 07/97] fix: names of URI parameters are case-insensitive (RFC
 3261 19.1.4)

---
 sippy/SipURL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index ab48355..72c1274 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -208,8 +208,9 @@ class SipURL(object):
 
         for p in params:
             nv = p.split('=', 1)
+            nv[0] = nv[0].lower()
             if len(nv) == 1:
-                if p == 'lr':
+                if nv[0] == 'lr':
                     self.lr = True
                 else:
                     self.other.append(p)
-- 
2.43.0


From dce4c3597987fcf8e0cf6fa8d6720d700a182f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 08/97] fix: a display name that ends with an escaped backslash
 can be parsed

---
 sippy/SipAddress.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 866f01d..20f2815 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -39,7 +39,8 @@ def findquotes(s, pos = 1):
         if pos1 == -1:
             break
         pos = pos1 + 1
-        if pos1 == 0 or s[pos1 - 1] != '\\':
+        nslash = len(s[:pos1]) - len(s[:pos1].rstrip('\\'))
+        if nslash % 2 == 0:
             rval.append(pos1)
     return rval
 
-- 
2.43.0


From dcf4332c1cd08ca170f8f2367c638b5100283e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 09/97] fix: parse a sips: address without angle brackets just
 as a sip: one

---
 sippy/SipAddress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 20f2815..07beffd 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -68,7 +68,7 @@ class SipAddress(object):
                 self.hadbrace = hadbrace
             return
         # simple 'sip:foo' case
-        if address.lower().startswith('sip:') and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:')) and address.find('<') == -1:
             parts = address.split(';', 1)
             self.url = SipURL(parts[0], relaxedparser = relaxedparser)
             if len(parts) == 2:
-- 
2.43.0


From f02836d733c777fdfff68bb82998d6d8420b139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 10/97] fix: split a list of addresses exactly at the commas
 outside of quotes and angle brackets

---
 sippy/SipAddress.py   | 24 ++++++++++++++++++++++++
 sippy/SipAddressHF.py | 22 ++++------------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 07beffd..4548b8f 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -44,6 +44,30 @@ def findquotes(s, pos = 1):
             rval.append(pos1)
     return rval
 
+def splitunquoted(s, delim, braces = False):
+    # Split at every delim which is not inside of a quoted string
+    # (and not inside of <> when braces is set)
+    rval = []
+    inquotes = inbraces = False
+    start = pos = 0
+    while pos < len(s):
+        c = s[pos]
+        if inquotes:
+            if c == '\\':
+                pos += 1
+            elif c == '"':
+                inquotes = False
+        elif c == '"':
+            inquotes = True
+        elif braces and c in '<>':
+            inbraces = (c == '<')
+        elif c == delim and not inbraces:
+            rval.append(s[start:pos])
+            start = pos + 1
+        pos += 1
+    rval.append(s[start:])
+    return rval
+
 class SipAddress(object):
     name = None
     url = None
diff --git a/sippy/SipAddressHF.py b/sippy/SipAddressHF.py
index fa17d9b..daa194b 100644
--- a/sippy/SipAddressHF.py
+++ b/sippy/SipAddressHF.py
@@ -25,7 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.SipGenericHF import SipGenericHF
-from sippy.SipAddress import SipAddress
+from sippy.SipAddress import SipAddress, splitunquoted
 from sippy.ESipHeaderCSV import ESipHeaderCSV
 
 class SipAddressHF(SipGenericHF):
@@ -36,23 +36,9 @@ class SipAddressHF(SipGenericHF):
         SipGenericHF.__init__(self, body)
         if body is not None:
             csvs = []
-            pidx = 0
-            while 1:
-                idx = body.find(',', pidx)
-                if idx == -1:
-                    break
-                onum = body[:idx].count('<')
-                cnum = body[:idx].count('>')
-                qnum = body[:idx].count('"')
-                if (onum == 0 and cnum == 0 and qnum == 0) or (onum > 0 and \
-                  onum == cnum and (qnum % 2 == 0)):
-                    csvs.append(body[:idx])
-                    body = body[idx + 1:]
-                    pidx = 0
-                else:
-                    pidx = idx + 1
-            if (len(csvs) > 0):
-                csvs.append(body)
+            if ',' in body:
+                csvs = [x.strip() for x in splitunquoted(body, ',', braces = True)]
+            if (len(csvs) > 1):
                 raise ESipHeaderCSV(None, csvs)
         else:
             self.parsed = True
-- 
2.43.0


From fe29010770337e902d08595516078983b298fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 11/97] fix: parse address parameters with white space around ;
 and = or with a quoted value

---
 sippy/SipAddress.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 4548b8f..8b27c94 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -96,10 +96,10 @@ class SipAddress(object):
             parts = address.split(';', 1)
             self.url = SipURL(parts[0], relaxedparser = relaxedparser)
             if len(parts) == 2:
-                for l in parts[1].split(';'):
-                    if not l:
+                for l in splitunquoted(parts[1], ';'):
+                    if not l.strip():
                         continue
-                    k_v = l.split('=', 1)
+                    k_v = [x.strip() for x in l.split('=', 1)]
                     if len(k_v) == 2:
                         k, v = k_v
                     else:
@@ -137,10 +137,10 @@ class SipAddress(object):
         self.url = SipURL(url, relaxedparser = relaxedparser)
         paramstring = paramstring.strip()
         if paramstring:
-            for l in paramstring.split(';'):
-                if not l:
+            for l in splitunquoted(paramstring, ';'):
+                if not l.strip():
                     continue
-                k_v = l.split('=', 1)
+                k_v = [x.strip() for x in l.split('=', 1)]
                 if len(k_v) == 2:
                     k, v = k_v
                 else:
-- 
2.43.0


From c056b853320deec212dad5ba941b7cd928156e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 12/97] fix: parse an address without angle brackets followed
 by white space or having < in a quoted parameter

---
 sippy/SipAddress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 8b27c94..cbd82bf 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -92,9 +92,9 @@ class SipAddress(object):
                 self.hadbrace = hadbrace
             return
         # simple 'sip:foo' case
-        if address.lower().startswith(('sip:', 'sips:')) and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:')) and address.split(';', 1)[0].find('<') == -1:
             parts = address.split(';', 1)
-            self.url = SipURL(parts[0], relaxedparser = relaxedparser)
+            self.url = SipURL(parts[0].strip(), relaxedparser = relaxedparser)
             if len(parts) == 2:
                 for l in splitunquoted(parts[1], ';'):
                     if not l.strip():
-- 
2.43.0


From d3734d32fea7f84ad86dfdb4a0ac6ea1ad5e18d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 13/97] fix: recognise the compact names of Supported and
 Referred-By

---
 sippy/SipReferredBy.py | 2 +-
 sippy/SipSupported.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipReferredBy.py b/sippy/SipReferredBy.py
index 1677f7f..63d39e5 100644
--- a/sippy/SipReferredBy.py
+++ b/sippy/SipReferredBy.py
@@ -27,4 +27,4 @@
 from sippy.SipAddressHF import SipAddressHF
 
 class SipReferredBy(SipAddressHF):
-    hf_names = ('referred-by',)
+    hf_names = ('referred-by', 'b')
diff --git a/sippy/SipSupported.py b/sippy/SipSupported.py
index 829e95d..ad772b7 100644
--- a/sippy/SipSupported.py
+++ b/sippy/SipSupported.py
@@ -29,7 +29,7 @@ from sippy.SipGenericHF import SipGenericHF
 from functools import reduce
 
 class SipSupported(SipGenericHF):
-    hf_names = ('supported',)
+    hf_names = ('supported', 'k')
     caps = None
 
     def __init__(self, body = None, caps = None):
-- 
2.43.0


From 76e5e5a2970eeb960e8076ac9b19e7800c097f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 14/97] fix: allow white space around the parameters of
 Replaces

---
 sippy/SipReplaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipReplaces.py b/sippy/SipReplaces.py
index e305574..a2d05ef 100644
--- a/sippy/SipReplaces.py
+++ b/sippy/SipReplaces.py
@@ -50,7 +50,7 @@ class SipReplaces(SipGenericHF):
 
     def parse(self):
         self.params = []
-        params = self.body.split(';')
+        params = [x.strip() for x in self.body.split(';')]
         self.call_id = params.pop(0)
         for param in params:
             if param.startswith('from-tag='):
-- 
2.43.0


From 8fde94d0a907d56966b7a580acebc26bb23fad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 15/97] fix: allow white space around the parameters of
 Content-Type

---
 sippy/SipContentType.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipContentType.py b/sippy/SipContentType.py
index 9c7bb43..61879bc 100644
--- a/sippy/SipContentType.py
+++ b/sippy/SipContentType.py
@@ -35,7 +35,7 @@ class SipContentType(SipGenericHF):
         SipGenericHF.__init__(self, body)
 
     def parse(self):
-        parts = self.body.split(';')
+        parts = [x.strip() for x in self.body.split(';')]
         self.name = parts.pop(0)
         params = []
         for part in parts:
-- 
2.43.0


From 721e29b9290da298abb43bb4100eb15bdf3dee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 16/97] fix: escape quotes and backslashes within the text of
 Reason

---
 sippy/SipReason.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/SipReason.py b/sippy/SipReason.py
index cf338ad..2b784cb 100644
--- a/sippy/SipReason.py
+++ b/sippy/SipReason.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.SipGenericHF import SipGenericHF
+from sippy.SipAddress import findquotes
 
 class SipReason(SipGenericHF):
     '''
@@ -50,7 +51,9 @@ class SipReason(SipGenericHF):
             rp_name, reason_params = (p:=reason_params.split('=', 1))[0], p[1].lstrip() if len(p) > 1 else ''
             assert rp_name in ('cause', 'text')
             if rp_name == 'text' and reason_params.startswith('"'):
-                rp_value, reason_params = (p:=reason_params[1:].split('"', 1))[0], p[1] if len(p) > 1 else ''
+                qpos = findquotes(reason_params) + [len(reason_params)]
+                rp_value, reason_params = reason_params[1:qpos[0]], reason_params[qpos[0] + 1:]
+                rp_value = '\\'.join([x.replace('\\', '') for x in rp_value.split('\\\\')])
                 reason_params = '' if len(p:=reason_params.split(';', 1)) == 1 else p[1]
             else:
                 rp_value, reason_params = (p:=reason_params.split(';', 1))[0], p[1] if len(p) > 1 else ''
@@ -66,7 +69,8 @@ class SipReason(SipGenericHF):
             return self.body
         if self.reason == None:
             return '%s; cause=%d' % (self.protocol, self.cause)
-        return '%s; cause=%d; text="%s"' % (self.protocol, self.cause, self.reason)
+        text = self.reason.replace('\\', '\\\\').replace('"', '\\"')
+        return '%s; cause=%d; text="%s"' % (self.protocol, self.cause, text)
 
     def getCopy(self):
         if not self.parsed:
-- 
2.43.0


From fd612ba9421a69ec9f2bce49be27ba4f9fb19a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 17/97] fix: keep an escaped quote at the end of the Warning
 text

---
 sippy/SipWarning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index c429c78..217767a 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -50,7 +50,10 @@ class SipWarning(SipGenericHF):
 
     def parse(self):
         code, self.agent, text = self.body.split(None, 2)
-        self.text = text.strip('"')
+        text = text.strip()
+        if len(text) > 1 and text.startswith('"') and text.endswith('"'):
+            text = text[1:-1]
+        self.text = text
         self.code = int(code)
         self.parsed = True
 
-- 
2.43.0


From 270a3a201961bf191db2eac6c0e0d15c85f062cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 18/97] fix: a copy of a Warning that has not been parsed yet
 keeps its contents

---
 sippy/SipWarning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index 217767a..8f42ee3 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -63,4 +63,6 @@ class SipWarning(SipGenericHF):
         return '%d %s "%s"' % (self.code, self.agent, self.text)
 
     def getCopy(self):
+        if not self.parsed:
+            return self.__class__(self.body)
         return self.__class__(cself = self)
-- 
2.43.0


From cb597e119199201eae36ef6bfb13cd2e9019192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 19/97] fix: parse credentials with commas within the quoted
 values

---
 sippy/SipAuthorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index cbfe997..5465e77 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.SipGenericHF import SipGenericHF
+from sippy.SipAddress import splitunquoted
 from sippy.Security.SipNonce import HashOracle, DGST_MD5, DGST_MD5SESS, \
   DGST_SHA256, DGST_SHA256SESS, DGST_SHA512, DGST_SHA512SESS
 
@@ -79,7 +80,8 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        for name, value in [x.strip(', ').split('=', 1) for x in self.body.split(' ', 1)[1].split(',')]:
+        for param in splitunquoted(self.body.split(' ', 1)[1], ','):
+            name, value = [x.strip() for x in param.strip(', ').split('=', 1)]
             ci_name = name.lower()
             if ci_name == 'username':
                 self.username = value.strip('"')
-- 
2.43.0


From 2b6b09c3020bc45859ef748f76d780353418e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 20/97] fix: only CR and LF end a line of SIP message or SDP,
 not the other Unicode line separators

---
 sippy/SdpBody.py | 2 +-
 sippy/SipMsg.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 7c3dd32..be186ab 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -71,7 +71,7 @@ class SdpBody(object):
         self.sections = []
         if body is None:
             return
-        avpairs = [x.split('=', 1) for x in body.strip().splitlines() if len(x.strip()) > 0]
+        avpairs = [x.split('=', 1) for x in body.strip().replace('\r\n', '\n').replace('\r', '\n').split('\n') if len(x.strip()) > 0]
         current_snum = 0
         c_header = None
         for name, v in avpairs:
diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e7cfdb8..81c62a6 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -57,7 +57,7 @@ class SipMsg(object):
                     self.__mbody = None
                 break
         # Split message into lines and put aside start line
-        lines = buf.splitlines()
+        lines = buf.replace('\r\n', '\n').replace('\r', '\n').split('\n')
         self.setSL(lines[0])
         i = 2
         while i < len(lines):
-- 
2.43.0


From 7abe528ccdb1837af6ab78796c0a325e7e6ac38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 21/97] fix: Content-Length counts bytes and not characters

---
 sippy/SipMsg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 81c62a6..141bbcf 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -107,7 +107,7 @@ class SipMsg(object):
             if self.__mbody == None:
                 mblen = 0
             else:
-                mblen = len(self.__mbody)
+                mblen = len(self.__mbody.encode())
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
@@ -141,7 +141,7 @@ class SipMsg(object):
                     # happens with request
                     raise SipParseError('Truncated SIP body, %d bytes expected, %d received' % (blen, mblen))
             elif blen < mblen:
-                self.__mbody = self.__mbody[:blen]
+                self.__mbody = self.__mbody.encode()[:blen].decode(errors = 'replace')
                 mblen = blen
         if self.__mbody != None:
             if self.__content_type != None:
@@ -156,7 +156,7 @@ class SipMsg(object):
         if self.body is not None:
             mbody = str(self.body)
             s += 'Content-Type: %s\r\n' % self.body.mtype
-            s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+            s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             s += 'Content-Length: 0\r\n\r\n'
@@ -170,10 +170,10 @@ class SipMsg(object):
             mbody = self.body.localStr(local_addr)
             if compact:
                 s += 'c: %s\r\n' % self.body.mtype
-                s += 'l: %d\r\n\r\n' % len(mbody)
+                s += 'l: %d\r\n\r\n' % len(mbody.encode())
             else:
                 s += 'Content-Type: %s\r\n' % self.body.mtype
-                s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+                s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             if compact:
-- 
2.43.0


From e28643ccf4a278c7f4da489ecd2c89bf494e00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 22/97] fix: the first empty line ends the header of SIP
 message whatever the line ends of the body

---
 sippy/SipMsg.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 141bbcf..81c0b08 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -48,14 +48,14 @@ class SipMsg(object):
             return
         # Locate a body
         self.__mbody = None
-        for bdel in ('\r\n\r\n', '\r\r', '\n\n'):
-            boff = buf.find(bdel)
-            if boff != -1:
-                self.__mbody = buf[boff + len(bdel):]
-                buf = buf[:boff]
-                if len(self.__mbody) == 0:
-                    self.__mbody = None
-                break
+        bdels = [(buf.find(x), x) for x in ('\r\n\r\n', '\r\r', '\n\n')]
+        bdels = [x for x in bdels if x[0] != -1]
+        if len(bdels) > 0:
+            boff, bdel = min(bdels)
+            self.__mbody = buf[boff + len(bdel):]
+            buf = buf[:boff]
+            if len(self.__mbody) == 0:
+                self.__mbody = None
         # Split message into lines and put aside start line
         lines = buf.replace('\r\n', '\n').replace('\r', '\n').split('\n')
         self.setSL(lines[0])
-- 
2.43.0


From c7cb0852e9eeb43e32954652049e928152a24fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 23/97] fix: refuse a negative Content-Length

---
 sippy/SipMsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 81c0b08..e0c738c 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -108,6 +108,8 @@ class SipMsg(object):
                 mblen = 0
             else:
                 mblen = len(self.__mbody.encode())
+            if blen < 0:
+                raise SipParseError('Bad Content-Length: %d' % blen)
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
-- 
2.43.0


From 9c4438226028b371a2a04751e12ef7d0d66a8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 24/97] fix: a copy of a body that has not been parsed yet
 keeps its type

---
 sippy/MsgBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MsgBody.py b/sippy/MsgBody.py
index 2f63b3a..90c9ca7 100644
--- a/sippy/MsgBody.py
+++ b/sippy/MsgBody.py
@@ -79,7 +79,7 @@ class MsgBody(object):
 
     def getCopy(self):
         if not self.parsed:
-            return MsgBody(self.content)
+            return MsgBody(self.content, self.mtype.getCopy())
         return MsgBody(cself = self)
 
 if 'MultipartMixBody' not in globals():
-- 
2.43.0


From a3f849e1beb527b38aa9468a333c3fb49dd652b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 25/97] fix: split a multipart body at exactly the lines that
 carry the boundary

---
 sippy/MultipartMixBody.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index eb9b0a6..ac1e4e6 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -41,17 +41,31 @@ class MultipartMixBody():
             self.setBoundary(token_hex(16))
             return
         sep = f'--{ctype.params["boundary"]}'
-        bparts = body.split(sep)
-        assert len(bparts) > 2
-        assert len(bparts[0]) == 0
-        assert bparts[-1].strip() == '--'
-        parts = [p.lstrip() for p in bparts[1:-1]]
+        # Only a whole line separates the parts (RFC2046, section 5.1.1)
+        parts = []
+        closed = False
+        for line in body.split('\n'):
+            sline = line.rstrip()
+            if sline == sep + '--':
+                closed = True
+                break
+            if sline == sep:
+                parts.append('')
+            elif len(parts) > 0:
+                parts[-1] += line + '\n'
+        assert len(parts) > 0
+        assert closed
         for sect in parts:
             headers = []
             ct = None
-            headersect, sect = sect.split('\r\n\r\n', 1)
+            if sect.startswith('\r\n'):
+                headersect, sect = '', sect[2:]
+            else:
+                headersect, sect = sect.split('\r\n\r\n', 1)
             # parse sub headers
-            for hl in headersect.split('\r\n'):
+            for hl in headersect.replace('\r\n ', ' ').replace('\r\n\t', ' ').split('\r\n'):
+                if len(hl) == 0:
+                    continue
                 h = SipHeader(hl)
                 if h.name == "content-type":
                     ct = h.getBody()
-- 
2.43.0


From a3b64d3456ab3d8e529280f7b34e403719cbdf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 26/97] fix: a body part without Content-Type is text/plain

---
 sippy/MultipartMixBody.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index ac1e4e6..9d817b0 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -28,6 +28,10 @@ from secrets import token_hex
 from sippy.SipHeader import SipHeader
 from sippy.SipContentType import SipContentType
 
+# RFC2046, section 5.1: a part without Content-Type is plain text
+DEFAULT_PART_CTYPE = SipContentType('text/plain')
+DEFAULT_PART_CTYPE.parse()
+
 class MultipartMixBody():
     parts = None
     boundary = None
@@ -57,7 +61,7 @@ class MultipartMixBody():
         assert closed
         for sect in parts:
             headers = []
-            ct = None
+            ct = DEFAULT_PART_CTYPE.getCopy()
             if sect.startswith('\r\n'):
                 headersect, sect = '', sect[2:]
             else:
-- 
2.43.0


From 6dcf00f648c6905f6951c7df184d9c873a904ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 27/97] fix: the boundary of a multipart body can be quoted and
 its name written in any case

---
 sippy/MultipartMixBody.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index 9d817b0..6f74106 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -44,7 +44,8 @@ class MultipartMixBody():
         if body is None:
             self.setBoundary(token_hex(16))
             return
-        sep = f'--{ctype.params["boundary"]}'
+        boundary = [v for k, v in ctype.params.items() if k.lower() == 'boundary'][0].strip('"')
+        sep = f'--{boundary}'
         # Only a whole line separates the parts (RFC2046, section 5.1.1)
         parts = []
         closed = False
@@ -79,12 +80,12 @@ class MultipartMixBody():
             sect = MsgBody(sect, ct)
             self.parts.append(sect)
             self.part_headers.append(headers)
-        self.setBoundary(ctype.params["boundary"])
+        self.setBoundary(boundary)
 
     def setBoundary(self, bnd):
         self.boundary = bnd
         mtype = self.mtype.getCopy()
-        mtype.params["boundary"] = bnd
+        mtype.params["boundary"] = bnd if bnd.replace('-', '').isalnum() else f'"{bnd}"'
         self.mtype = mtype
 
     def __str__(self):
-- 
2.43.0


From 5504d5c4404272c795b0f24405b2d14ec547f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 28/97] fix: a multipart body keeps the headers of its parts
 and the line end before each boundary

---
 sippy/MultipartMixBody.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index 6f74106..b03656f 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -88,25 +88,31 @@ class MultipartMixBody():
         mtype.params["boundary"] = bnd if bnd.replace('-', '').isalnum() else f'"{bnd}"'
         self.mtype = mtype
 
-    def __str__(self):
+    def joinParts(self, contents):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p}' for p in self.parts]
-        s = ''.join(parts)
+        s = ''
+        for i, content in enumerate(contents):
+            s += f'{bnd}Content-Type: {self.parts[i].mtype}\r\n'
+            if i < len(self.part_headers):
+                for h in self.part_headers[i]:
+                    s += f'{h}\r\n'
+            s += f'\r\n{content}'
+            if not content.endswith('\r\n'):
+                s += '\r\n'
         s += f'{bnd[:-2]}--\r\n'
         return s
 
+    def __str__(self):
+        return self.joinParts([str(p) for p in self.parts])
+
     def localStr(self, local_addr = None):
-        bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p.localStr(local_addr)}'
-                 for p in self.parts]
-        s = ''.join(parts)
-        s += f'{bnd[:-2]}--\r\n'
-        return s
+        return self.joinParts([p.localStr(local_addr) for p in self.parts])
 
     def getCopy(self):
         cself = MultipartMixBody()
         cself.parts = [p.getCopy() for p in self.parts]
-        cself.boundary = self.boundary
+        cself.part_headers = [[h.getCopy() for h in hs] for hs in self.part_headers]
+        cself.setBoundary(self.boundary)
         return cself
 
     def getContentType(self):
-- 
2.43.0


From bd6184cb4c90d9b3832d01eafede8c5af4f11ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 29/97] fix: a SIP request can be copied

---
 sippy/SipMsg.py     | 3 ++-
 sippy/SipRequest.py | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e0c738c..3429a76 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -272,7 +272,8 @@ class SipMsg(object):
         return tuple([(call_id, ftag, cseq, method, via.getBranch()) for via in self.getHFBodys('via')])
 
     def getCopy(self):
-        cself = self.__class__()
+        cself = self.__class__.__new__(self.__class__)
+        SipMsg.__init__(cself)
         for header in self.headers:
             cself.appendHeader(header.getCopy())
         if self.body is not None:
diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 1fb1d50..394cdf5 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -97,6 +97,15 @@ class SipRequest(SipMsg):
     def getSL(self, local_addr = None):
         return self.method + ' ' + self.ruri.localStr(local_addr) + ' ' + self.sipver
 
+    def getCopy(self):
+        cself = SipMsg.getCopy(self)
+        cself.method = self.method
+        if self.ruri is not None:
+            cself.ruri = self.ruri.getCopy()
+        cself.sipver = self.sipver
+        cself.user_agent = self.user_agent
+        return cself
+
     def getMethod(self):
         return self.method
 
-- 
2.43.0


From f0bd042dea93c1540204cd3ef36d50b05594d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 30/97] fix: a copy of a challenge does not share the list of
 qop with the original

---
 sippy/SipWWWAuthenticate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index d115dc5..38c56c7 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -115,7 +115,7 @@ class SipWWWAuthenticate(SipGenericHF):
             return self.__class__(self.body)
         cself = self.__class__(realm = self.realm, nonce = self.nonce)
         cself.algorithm = self.algorithm
-        cself.qop = self.qop
+        cself.qop = self.qop[:] if self.qop is not None else None
         cself.opaque = self.opaque
         if len(self.otherparams) > 0:
             cself.otherparams = self.otherparams[:]
-- 
2.43.0


From e6f21b29d19e1acce3f5ed378bf53c866b1d1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 31/97] fix: cancel the keep-alive timer when the call ends

---
 sippy/UaStateConnected.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 30697fb..f44a822 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -42,6 +42,7 @@ class UaStateConnected(UaStateGeneric):
     triedauth = None
     keepalives = None
     ka_tr = None
+    ka_timer = None
     connected = True
 
     def __init__(self, ua):
@@ -50,7 +51,7 @@ class UaStateConnected(UaStateGeneric):
         super().__init__(ua)
         self.ua.branch = None
         if self.ua.kaInterval > 0:
-            Timeout(self.keepAlive, self.ua.kaInterval)
+            self.ka_timer = Timeout(self.keepAlive, self.ua.kaInterval)
 
     def _recvRequestRefer(self, req):
         if req.countHFs('refer-to') == 0:
@@ -254,6 +255,7 @@ class UaStateConnected(UaStateGeneric):
     }
 
     def keepAlive(self):
+        self.ka_timer = None
         if self.ua.state != self:
             return
         #self.ua.lSDP.parse()
@@ -288,20 +290,26 @@ class UaStateConnected(UaStateGeneric):
             _h, _p = self.ua.rAddr[0]
             if self.keepalives == 1:
                 print('%s: Remote UAS at %s:%d does not support re-INVITES, disabling keep alives' % (self.ua.cId, _h, _p))
-                Timeout(self.ua.disconnect, 600)
+                self.ka_timer = Timeout(self.ua.disconnect, 600)
                 return
             print('%s: Received %d response to keep alive from %s:%d, disconnecting the call' % (self.ua.cId, code, _h, _p))
             self.ua.disconnect()
             return
-        Timeout(self.keepAlive, self.ua.kaInterval)
+        self.ka_timer = Timeout(self.keepAlive, self.ua.kaInterval)
+
+    def sendPendingACK(self):
+        if self.ua.pending_tr != None:
+            self.ua.global_config['_sip_tm'].sendACK(self.ua.pending_tr)
+            self.ua.pending_tr = None
 
     def onStateChange(self, newstate):
+        if self.ka_timer is not None:
+            self.ka_timer.cancel()
+            self.ka_timer = None
         if self.ka_tr != None:
             self.ua.global_config['_sip_tm'].cancelTransaction(self.ka_tr)
             self.ka_tr = None
-        if self.ua.pending_tr != None:
-            self.ua.global_config['_sip_tm'].sendACK(self.ua.pending_tr)
-            self.ua.pending_tr = None
+        self.sendPendingACK()
         if self.ua.expire_timer != None:
             self.ua.expire_timer.cancel()
             self.ua.expire_timer = None
-- 
2.43.0


From 8a08885fc373082e4fd2bb802cfd99cb12f2ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 32/97] fix: postpone the ACK to an INVITE without SDP until
 there is an answer, and send it in any case

---
 sippy/SipTransactionManager.py | 2 +-
 sippy/UA.py                    | 9 +++++++++
 sippy/UaStateConnected.py      | 1 +
 sippy/UaStateDead.py           | 1 +
 sippy/UacStateRinging.py       | 1 -
 sippy/UacStateTrying.py        | 4 +++-
 6 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index ea3525d..3c78212 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -540,7 +540,7 @@ class SipTransactionManager(object):
                         t.ack.getHFBody('via').genBranch()
                     if rAddr == None:
                         rAddr = (t.address, t.userv.transport)
-                    if not t.uack:
+                    if not t.uack or fcode >= 300:
                         self.transmitMsg(t.userv, t.ack, rAddr[0], checksum, t.compact)
                         if t.req_out_cb != None:
                             t.req_out_cb(t.ack)
diff --git a/sippy/UA.py b/sippy/UA.py
index 25fc904..a561397 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -219,6 +219,9 @@ class UA(object):
         self.update_ua(resp)
         code, reason = resp.getSCode()
         cseq, method = resp.getHFBody('cseq').getCSeq()
+        if tr.uack and code >= 200 and code < 300 and not self.isLateOffer(resp):
+            # No answer to the offer in the response is going to follow
+            self.global_config['_sip_tm'].sendACK(tr)
         if method == 'INVITE' and not self.pass_auth and cseq in self.reqs:
             if code == 401 and self.processChallenge(resp, cseq, \
               'www-authenticate', 'authorization', tr.req_extra_headers):
@@ -482,3 +485,9 @@ class UA(object):
     def newUacTransaction(self, req, **kwa):
         self.tr = self.newTransaction(req, resp_cb = self.recvResponse, \
           cb_ifver = 2, **kwa)
+        # Postpone ACK to an INVITE without SDP until there is an answer to put into it
+        self.tr.uack = self.late_media and not self.isConnected()
+
+    def isLateOffer(self, resp):
+        return self.late_media and isinstance(self.state, self.UacStateTrying) and \
+          resp.getBody() is not None and resp.getHFBody('to').getTag() is not None
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index f44a822..f0c1f16 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -152,6 +152,7 @@ class UaStateConnected(UaStateGeneric):
 
     def _recvEventDisconnectFailRedirect(self, event, eh, redirect = None):
         #print('event', event, 'received in the Connected state sending BYE')
+        self.sendPendingACK()
         if redirect is not None and self.ua.useRefer:
             req = self.ua.genRequest('REFER', extra_headers = eh)
             also = SipReferTo(address = redirect)
diff --git a/sippy/UaStateDead.py b/sippy/UaStateDead.py
index 9198789..fc2d93c 100644
--- a/sippy/UaStateDead.py
+++ b/sippy/UaStateDead.py
@@ -36,6 +36,7 @@ class UaStateDead(UaStateGeneric):
             ua.global_config['_sip_tm'].unregConsumer(ua, str(ua.cId))
         if ua.tr is not None:
             ua.tr.resp_cb = None
+            ua.tr.uack = False
         ua.tr = None
         ua.event_cb = None
         ua.conn_cbs = ()
diff --git a/sippy/UacStateRinging.py b/sippy/UacStateRinging.py
index 8534ef7..a6f61f0 100644
--- a/sippy/UacStateRinging.py
+++ b/sippy/UacStateRinging.py
@@ -85,7 +85,6 @@ class UacStateRinging(UacStateTrying):
                 rval = (self.ua.UaStateConnected, self.ua.conn_cbs, resp.rtime, self.ua.origin)
             else:
                 event = CCEventPreConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-                tr.uack = True
                 self.ua.pending_tr = tr
                 rval = (self.ua.UaStateConnected,)
             if body is not None:
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 538b2b5..de88815 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -102,7 +102,6 @@ class UacStateTrying(UaStateGeneric):
                 rval = (self.ua.UaStateConnected, self.ua.conn_cbs, resp.rtime, self.ua.origin)
             else:
                 event = CCEventPreConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-                tr.uack = True
                 self.ua.pending_tr = tr
                 rval = (self.ua.UaStateConnected,)
             if body is not None:
@@ -197,6 +196,9 @@ class UacStateTrying(UaStateGeneric):
                 self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr,
                   extra_headers = event.getExtraHeaders())
             elif code >= 200 and code < 300:
+                if self.ua.pending_tr is not None:
+                    self.ua.global_config['_sip_tm'].sendACK(self.ua.pending_tr)
+                    self.ua.pending_tr = None
                 self.genBYE()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
-- 
2.43.0


From c06dec406c9cd3a2ef883aa561c6a901b9a4b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 33/97] fix: do not fail when a server transaction replaced by
 another one expires

---
 sippy/SipTransactionManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 3c78212..c475686 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -800,7 +800,8 @@ class SipTransactionManager(object):
             t.teA = None
         if t.noack_cb != None and t.state != CONFIRMED:
             t.noack_cb()
-        del self.tserver[t.tid]
+        if self.tserver.get(t.tid, None) is t:
+            del self.tserver[t.tid]
         t.cleanup()
 
     def timerE(self, t):
-- 
2.43.0


From e598efcdbf257598a5d4d8325059256a26b100ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 34/97] fix: send credentials with a keep-alive re-INVITE that
 has been challenged

---
 sippy/UA.py               | 18 +++++++++++-------
 sippy/UaStateConnected.py | 14 ++++++--------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index a561397..7af8a1f 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -199,19 +199,23 @@ class UA(object):
         if self.username == None or self.password == None or \
           self.reqs[cseq].countHFs(auth_hfname) != 0:
             return False
+        cqop = self.pickChallenge(resp, ch_hfname)
+        if cqop is None:
+            return False
+        req = self.genRequest('INVITE', self.lSDP, cqop, extra_headers = extra_headers)
+        self.newUacTransaction(req, req_extra_headers = extra_headers)
+        del self.reqs[cseq]
+        return True
+
+    def pickChallenge(self, resp, ch_hfname):
         for challenge in resp.getHFBodys(ch_hfname):
             #print(self.processChallenge, cseq, challenge, challenge.algorithm)
             if self.auth_enalgs is not None and challenge.algorithm not in self.auth_enalgs:
                 continue
             supported, qop = challenge.supportedAlgorithm()
             if supported:
-                break
-        else:
-            return False
-        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers)
-        self.newUacTransaction(req, req_extra_headers = extra_headers)
-        del self.reqs[cseq]
-        return True
+                return (challenge, qop)
+        return None
 
     def recvResponse(self, resp, tr):
         if self.state is None or self.state.dead:
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index f0c1f16..2bf81f5 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -269,17 +269,15 @@ class UaStateConnected(UaStateGeneric):
         if self.ua.state != self:
             return
         code, reason = resp.getSCode()
-        if code == 401 and resp.countHFs('www-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('www-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
+        if code == 401 and self.ua.username != None and self.ua.password != None and not self.triedauth and \
+          (cqop := self.ua.pickChallenge(resp, 'www-authenticate')) is not None:
+            req = self.ua.genRequest('INVITE', self.ua.lSDP, cqop)
             self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
             self.triedauth = True
             return
-        if code == 407 and resp.countHFs('proxy-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('proxy-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
+        if code == 407 and self.ua.username != None and self.ua.password != None and not self.triedauth and \
+          (cqop := self.ua.pickChallenge(resp, 'proxy-authenticate')) is not None:
+            req = self.ua.genRequest('INVITE', self.ua.lSDP, cqop)
             self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
             self.triedauth = True
             return
-- 
2.43.0


From 174f9eacc823dce5f4724c8476e9e1aafa7086ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 35/97] fix: ignore disconnect of a call which has ended
 already

---
 sippy/UA.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/UA.py b/sippy/UA.py
index 7af8a1f..f4d6372 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -253,6 +253,9 @@ class UA(object):
         self.emitPendingEvents()
 
     def disconnect(self, rtime = None, origin = None):
+        if self.disconnect_ts is not None:
+            # The call has ended already
+            return
         if rtime == None:
             rtime = MonoTime()
         self.equeue.append(CCEventDisconnect(rtime = rtime, origin = origin))
-- 
2.43.0


From 2809daea75b210d5f4d3b0a60285aa35918781c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 36/97] fix: ignore delayed SDP update for a call which has
 ended already

---
 sippy/UA.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sippy/UA.py b/sippy/UA.py
index f4d6372..7b0efed 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -421,6 +421,9 @@ class UA(object):
         return tuple(rval)
 
     def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None):
+        if self.disconnect_ts is not None:
+            # The call has ended already
+            return
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
             event = CCEventFail((ex.code, ex.msg))
@@ -433,6 +436,9 @@ class UA(object):
             self.recvEvent(event)
 
     def delayed_local_sdp_update(self, event, local_sdp_body, ex=None):
+        if self.disconnect_ts is not None:
+            # The call has ended already
+            return
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
             event = CCEventFail((ex.code, ex.msg))
-- 
2.43.0


From 964b7f6e04c1f68d0aac42bb835ca24bd6a812ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 37/97] fix: refuse re-INVITE or update until the first offer
 has been answered

---
 sippy/UaStateConnected.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 2bf81f5..0cf11bc 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -66,8 +66,12 @@ class UaStateConnected(UaStateGeneric):
     def _recvRequestInvite(self, req):
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
+        if self.ua.connect_ts is None:
+            # The very first offer has not been answered yet
+            self.ua.sendUasResponse(491, 'Request Pending')
+            return None
         body = req.getBody()
-        if body is None:
+        if body is None and self.ua.rSDP is not None:
             # Some brain-damaged stacks use body-less re-INVITE as a means
             # for putting session on hold. Quick and dirty hack to make this
             # scenario working.
@@ -75,7 +79,7 @@ class UaStateConnected(UaStateGeneric):
             body.parse()
             for sect in body.content.sections:
                 sect.c_header.addr = '0.0.0.0'
-        elif str(self.ua.rSDP) == str(body):
+        elif body is None or (self.ua.lSDP is not None and str(self.ua.rSDP) == str(body)):
             self.ua.sendUasResponse(200, 'OK', self.ua.lSDP, (self.ua.lContact,))
             return None
         event = CCEventUpdate(body, rtime = req.rtime, origin = self.ua.origin)
@@ -185,8 +189,12 @@ class UaStateConnected(UaStateGeneric):
 
     def _recvEventUpdate(self, event, eh):
         body = event.getData()
+        if self.ua.connect_ts is None:
+            # The very first offer has not been answered yet
+            self.ua.equeue.append(CCEventFail((491, 'Request Pending'), rtime = event.rtime))
+            return None
         fake_laddr = (('127.0.0.1', None), None)
-        if self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
+        if self.ua.lSDP is not None and body is not None and self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
             if self.ua.rSDP is not None:
                 self.ua.equeue.append(CCEventConnect((200, 'OK', self.ua.rSDP.getCopy()), \
                     rtime = event.rtime, origin = event.origin))
-- 
2.43.0


From 124b4f8a070d1eb708845ce0a069b9eb906c0da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 38/97] fix: refuse the call when its SDP cannot be handled

---
 sippy/Exceptions/SipHandlingError.py |  5 +++++
 sippy/UaStateConnected.py            |  8 +++++++-
 sippy/UacStateIdle.py                | 10 +++++++++-
 sippy/UasStateGeneric.py             | 14 ++++++++++++++
 sippy/UasStateIdle.py                |  8 +++++++-
 5 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/sippy/Exceptions/SipHandlingError.py b/sippy/Exceptions/SipHandlingError.py
index a4af016..424f2a6 100644
--- a/sippy/Exceptions/SipHandlingError.py
+++ b/sippy/Exceptions/SipHandlingError.py
@@ -23,6 +23,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from sippy.SipHeader import SipHeader
 from sippy.SipReason import SipReason
 
 class SipHandlingError(Exception):
@@ -43,6 +44,10 @@ class SipHandlingError(Exception):
         resp = req.genResponse(self.code, self.msg, ext_reason = reason)
         return resp
 
+    def getExtraHeaders(self):
+        reason = self.getReason()
+        return (SipHeader(body = reason),) if reason is not None else None
+
     def getReason(self):
         if self.arg is not None and len(self.arg) > 0:
             return SipReason(protocol='SIP', cause=self.code,
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 0cf11bc..486c638 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -145,7 +145,13 @@ class UaStateConnected(UaStateGeneric):
             callback(self.ua, req.rtime, self.ua.origin)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    event = CCEventDisconnect(rtime = req.rtime, origin = self.ua.origin)
+                    event.reason_rfc3326 = ex.getReason()
+                    self.ua.equeue.append(event)
+                    return self._recvEventDisconnect(event, event.getExtraHeaders())
                 if body is None:
                     return None
             self.ua.rSDP = body.getCopy()
diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index a091ac2..45e0d61 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -38,6 +38,7 @@ from sippy.SipFrom import SipFrom
 from sippy.SipCallId import SipCallId
 from sippy.SipCSeq import SipCSeq
 from sippy.SipHeader import SipHeader
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UacStateIdle(UaStateGeneric):
     sname = 'Idle(UAC)'
@@ -50,7 +51,14 @@ class UacStateIdle(UaStateGeneric):
             cId, callingID, calledID, body, auth, callingName = event.getData()
             if body is not None:
                 if self.ua.on_local_sdp_change != None and body.needs_update:
-                    self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                    try:
+                        self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                    except SdpHandlingErrors as ex:
+                        fevent = CCEventFail((ex.code, ex.msg), rtime = event.rtime, origin = self.ua.origin)
+                        fevent.reason_rfc3326 = ex.getReason()
+                        self.ua.equeue.append(fevent)
+                        self.ua.disconnect_ts = event.rtime
+                        return (self.ua.UaStateFailed, self.ua.fail_cbs, event.rtime, self.ua.origin, ex.code)
                     return None
             else:
                 self.ua.late_media = True
diff --git a/sippy/UasStateGeneric.py b/sippy/UasStateGeneric.py
index 9e6ebc3..269d5b6 100644
--- a/sippy/UasStateGeneric.py
+++ b/sippy/UasStateGeneric.py
@@ -27,9 +27,23 @@
 from functools import partial
 
 from sippy.SipContact import SipContact
+from sippy.CCEvents import CCEventFail
 from sippy.UaStateGeneric import UaStateGeneric
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UasStateGeneric(UaStateGeneric):
+    def recvEvent(self, event):
+        try:
+            return super().recvEvent(event)
+        except SdpHandlingErrors as ex:
+            # The SDP that we were about to send is no good, so refuse the INVITE instead
+            fevent = CCEventFail((ex.code, ex.msg), rtime = event.rtime, origin = self.ua.origin)
+            fevent.reason_rfc3326 = ex.getReason()
+            newstate = super().recvEvent(fevent)
+            if newstate is not None and newstate[0] is self.ua.UaStateFailed:
+                self.ua.equeue.append(fevent)
+            return newstate
+
     def _delayLocalSdpUpdate(self, event, body):
         if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
             self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index 96be6cf..0754b84 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -35,6 +35,7 @@ from sippy.SipContact import SipContact
 from sippy.SipCSeq import SipCSeq
 from sippy.SipFrom import SipFrom
 from sippy.SipTo import SipTo
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UasStateIdle(UaStateGeneric):
     sname = 'Idle(UAS)'
@@ -101,7 +102,12 @@ class UasStateIdle(UaStateGeneric):
             self.ua.expire_timer = TimeoutAbsMono(self.ua.expires, self.ua.expire_mtime)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    self.ua.sendUasResponse(ex.code, ex.msg, extra_headers = ex.getExtraHeaders())
+                    self.ua.setup_ts = self.ua.disconnect_ts = req.rtime
+                    return (self.ua.UaStateFailed, self.ua.fail_cbs, req.rtime, self.ua.origin, ex.code)
                 if body is None:
                     self.ua.setup_ts = req.rtime
                     return (self.ua.UasStateTrying,)
-- 
2.43.0


From 8200d013ef7887cb3dff04b446fedd0f44590f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 39/97] fix: cancel timers once the UA is dead

---
 sippy/UaStateDead.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/UaStateDead.py b/sippy/UaStateDead.py
index fc2d93c..acb999d 100644
--- a/sippy/UaStateDead.py
+++ b/sippy/UaStateDead.py
@@ -44,8 +44,12 @@ class UaStateDead(UaStateGeneric):
         ua.fail_cbs = ()
         ua.on_local_sdp_change = None
         ua.on_remote_sdp_change = None
+        for timer in (ua.expire_timer, ua.no_progress_timer, ua.no_reply_timer, ua.credit_timer):
+            if timer is not None:
+                timer.cancel()
         ua.expire_timer = None
         ua.no_progress_timer = None
+        ua.no_reply_timer = None
         ua.credit_timer = None
         ua.reqs = None
         # Keep this at the very end of processing
-- 
2.43.0


From 5b6acd83c9e6d0039ffc51b8efae89e207f0a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 40/97] fix: answer BYE when the call has failed after the peer
 had answered it

---
 sippy/UaStateFailed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sippy/UaStateFailed.py b/sippy/UaStateFailed.py
index 80639de..6829b19 100644
--- a/sippy/UaStateFailed.py
+++ b/sippy/UaStateFailed.py
@@ -36,6 +36,14 @@ class UaStateFailed(UaStateGeneric):
         ua.on_remote_sdp_change = None
         Timeout(self.goDead, ua.godead_timeout)
 
+    def recvRequest(self, req):
+        # The call could have failed after it had been answered by the peer
+        if req.getMethod() == 'BYE':
+            req.sendResponse(200, 'OK')
+        else:
+            req.sendResponse(500, 'Disconnected')
+        return None
+
     def goDead(self):
         #print('Time in Failed state expired, going to the Dead state')
         self.ua.changeState((self.ua.UaStateDead,))
-- 
2.43.0


From e37d2a7ca5fff2c61cf584871f1534115bed42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 41/97] fix: cancel the call when SDP in a provisional response
 cannot be handled

---
 sippy/UacStateTrying.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index de88815..ff1b829 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -202,4 +202,6 @@ class UacStateTrying(UaStateGeneric):
                 self.genBYE()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
-            return (self.ua.UaStateFailed, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
+            # Until the final response arrives there is still a chance that the call gets answered
+            newstate = self.ua.UacStateCancelling if code < 200 else self.ua.UaStateFailed
+            return (newstate, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
-- 
2.43.0


From 5e1b4763c6f8bd2ffb5265425182281e627c8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 42/97] fix: let disconnect callbacks know before the UA is
 dead

---
 sippy/UacStateIdle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index 45e0d61..48b833f 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -117,5 +117,8 @@ class UacStateIdle(UaStateGeneric):
                 self.ua.disconnect_ts = event.rtime
             else:
                 self.ua.disconnect_ts = MonoTime()
-            return (self.ua.UaStateDead, self.ua.disc_cbs, event.rtime, event.origin)
+            # Let everybody know before the UA is gone
+            for callback in self.ua.disc_cbs:
+                callback(self.ua, event.rtime, event.origin)
+            return (self.ua.UaStateDead,)
         return None
-- 
2.43.0


From e258a0938a068518679bf16fb8bfcc103e439eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 43/97] fix: stay connected when re-INVITE has been answered
 with ringing or redirect

---
 sippy/UaStateConnected.py |  4 ++--
 sippy/UasStateUpdating.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 486c638..62d7922 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -189,8 +189,8 @@ class UaStateConnected(UaStateGeneric):
     def _recvEventRedirect(self, event, eh):
         redirect = None
         redirects = event.getData()
-        if redirects is not None:
-            redirect = redirects[0]
+        if redirects is not None and redirects[3] is not None:
+            redirect = redirects[3][0]
         return self._recvEventDisconnectFailRedirect(event, eh, redirect)
 
     def _recvEventUpdate(self, event, eh):
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index c2af2bc..735c42f 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -67,6 +67,15 @@ class UasStateUpdating(UasStateGeneric):
           extra_headers = eh)
         return (self.ua.UaStateConnected,)
 
+    def _recvEventRing(self, event, eh):
+        super()._recvEventRing(event, eh)
+        return None
+
+    def _recvEventRedirect(self, event, eh):
+        self.ua.rSDP = None
+        super()._recvEventRedirect(event, eh)
+        return (self.ua.UaStateConnected,)
+
     def _recvEventFail(self, event, eh):
         self.ua.rSDP = None
         self._sendFailResponse(event, eh)
@@ -81,9 +90,9 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
     recv_event_handlers = {
-      CCEventRing: UasStateGeneric._recvEventRing,
+      CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-      CCEventRedirect: UasStateGeneric._recvEventRedirect,
+      CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
     }
-- 
2.43.0


From c502047232b07dcb739100eed605fe4a28473ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 44/97] fix: send BYE once the REFER has got its final response
 only

---
 sippy/UaStateConnected.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 62d7922..2eb6a06 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -328,5 +328,7 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
 
     def rComplete(self, resp):
+        if resp.getSCode()[0] < 200:
+            return
         req = self.ua.genRequest('BYE')
         self.ua.newTransaction(req)
-- 
2.43.0


From bb3c842c9195e030427f3836fb56fa32fc1588f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 45/97] fix: answer a challenge neither forgetting the earlier
 one and the hop limit nor after the end of the call

---
 sippy/UA.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 7b0efed..f5a8e03 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -196,13 +196,16 @@ class UA(object):
             return None
 
     def processChallenge(self, resp, cseq, ch_hfname, auth_hfname, extra_headers):
+        oreq = self.reqs[cseq]
         if self.username == None or self.password == None or \
-          self.reqs[cseq].countHFs(auth_hfname) != 0:
+          oreq.countHFs(auth_hfname) != 0:
             return False
         cqop = self.pickChallenge(resp, ch_hfname)
         if cqop is None:
             return False
-        req = self.genRequest('INVITE', self.lSDP, cqop, extra_headers = extra_headers)
+        # Answers to the earlier challenges have to be there as well
+        req = self.genRequest('INVITE', self.lSDP, cqop, extra_headers = extra_headers, \
+          max_forwards = oreq.getHFBody('max-forwards').getNum(), prev_cqops = oreq.cqops)
         self.newUacTransaction(req, req_extra_headers = extra_headers)
         del self.reqs[cseq]
         return True
@@ -226,7 +229,7 @@ class UA(object):
         if tr.uack and code >= 200 and code < 300 and not self.isLateOffer(resp):
             # No answer to the offer in the response is going to follow
             self.global_config['_sip_tm'].sendACK(tr)
-        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs:
+        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs and self.disconnect_ts is None:
             if code == 401 and self.processChallenge(resp, cseq, \
               'www-authenticate', 'authorization', tr.req_extra_headers):
                 return None
@@ -303,7 +306,7 @@ class UA(object):
             self.event_cb(event, self)
 
     def genRequest(self, method, body = None, cqop = None, \
-      extra_headers = None, max_forwards = None):
+      extra_headers = None, max_forwards = None, prev_cqops = ()):
         if self.outbound_proxy != None:
             target = (self.outbound_proxy, SipConf.my_transport)
         else:
@@ -316,8 +319,8 @@ class UA(object):
                          cseq = self.lCSeq, callid = self.cId, contact = self.lContact,
                          routes = self.routes, target = target, user_agent = self.local_ua,
                          maxforwards = max_forwards_hf)
-        if cqop != None:
-            challenge, qop = cqop
+        req.cqops = prev_cqops + (cqop,) if cqop != None else prev_cqops
+        for challenge, qop in req.cqops:
             if body is not None and qop == 'auth-int':
                 sbody = str(body)
                 #print(len(sbody), sbody)
-- 
2.43.0


From 96c458d07996294fa495f8638cddc839b5e81d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 46/97] fix: pass all challenges on also after ringing and for
 407

---
 sippy/UacStateRinging.py |  1 +
 sippy/UacStateTrying.py  | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/sippy/UacStateRinging.py b/sippy/UacStateRinging.py
index a6f61f0..15964da 100644
--- a/sippy/UacStateRinging.py
+++ b/sippy/UacStateRinging.py
@@ -106,6 +106,7 @@ class UacStateRinging(UacStateTrying):
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
+            self.passChallenges(event, resp)
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index ff1b829..ff6f8bf 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -123,11 +123,7 @@ class UacStateTrying(UaStateGeneric):
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
-            if self.ua.pass_auth:
-                if code == 401 and resp.countHFs('www-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
-                elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHF('proxy-authenticate')]
+            self.passChallenges(event, resp)
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
@@ -159,6 +155,15 @@ class UacStateTrying(UaStateGeneric):
         #print('wrong event %s in the Trying state' % event)
         return None
 
+    def passChallenges(self, event, resp):
+        if not self.ua.pass_auth:
+            return
+        code = resp.getSCode()[0]
+        if code == 401 and resp.countHFs('www-authenticate') != 0:
+            event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
+        elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
+            event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
+
     def updateRoutes(self, resp):
         if resp.countHFs('contact') > 0:
             self.ua.rTarget = resp.getHFBody('contact').getUrl().getCopy()
-- 
2.43.0


From a9979326022bdd55ffa3d14fb4be0fcb58750b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 47/97] fix: tell the registrar the expiration time

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 2b662ca..5ee3d5a 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -58,7 +58,7 @@ class SipRegistrationAgent(object):
         fr0m.genTag()
         to = SipTo(address = tfaddr)
         contact = SipContact(address = SipAddress(url = contact))
-        contact.address.params['expires'] = str(exp)
+        contact.address.setParam('expires', str(exp))
         self.exp = exp
         self.rmsg = SipRequest(method = 'REGISTER', ruri = ruri, fr0m = fr0m, contact = contact, to = to, target = target)
 
-- 
2.43.0


From ae15e916f8640c52b120bf181d3a38a262df2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 48/97] fix: answer 407 to REGISTER with Proxy-Authorization

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 5ee3d5a..319b66f 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -96,7 +96,7 @@ class SipRegistrationAgent(object):
             return
         if self.user != None and self.passw != None and self.atries < 3:
             for sc, chn, rhn in ((401, 'www-authenticate', 'authorization'),
-                                 (407, 'proxy-authenticate', 'authorization')):
+                                 (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
                 if resp.countHFs(chn) == 0:
-- 
2.43.0


From 1ff198e815f9a804c03b0a528f2b31e40112efbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 49/97] fix: do not follow changes of the time object an
 absolute timer was made with

---
 sippy/Core/EventDispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Core/EventDispatcher.py b/sippy/Core/EventDispatcher.py
index 8900445..e237a63 100644
--- a/sippy/Core/EventDispatcher.py
+++ b/sippy/Core/EventDispatcher.py
@@ -81,7 +81,7 @@ class EventListener(object):
                 ival = self.ival
             self.etime = self.itime.getOffsetCopy(ival)
         else:
-            self.etime = self.ival
+            self.etime = self.ival.getCopy()
             self.ival = None
             self.nticks = 1
         heappush(self.ed.tlisteners, self)
-- 
2.43.0


From 8811128c344a2070157927ff4201adaafd2921c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 50/97] fix: refuse nonces written in another way and missing
 ones

---
 sippy/Security/SipNonce.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sippy/Security/SipNonce.py b/sippy/Security/SipNonce.py
index 75cdffe..df74801 100644
--- a/sippy/Security/SipNonce.py
+++ b/sippy/Security/SipNonce.py
@@ -62,7 +62,11 @@ class AESCipher(object):
         return b64encode(eraw).rstrip(b'=')
 
     def decrypt(self, enc):
-        enc = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        raw = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        if b64encode(raw).rstrip(b'=') != enc:
+            # Decoding ignores alien characters
+            raise ValueError
+        enc = raw
         data = enc[:-MAC_SIZE]
         tag = enc[-MAC_SIZE:]
         ctag = hmac_new(self.mac_key, data, 'sha256').digest()[:MAC_SIZE]
@@ -99,6 +103,8 @@ class HashOracle(object):
         return cryptic.decode()
 
     def validate_challenge(self, cryptic, cmask):
+        if cryptic is None:
+            return False
         new_ts = clock_getntime(CLOCK_MONOTONIC)
         try:
             decryptic = from_bytes_be(self.ac.decrypt(cryptic.encode()))
-- 
2.43.0


From 3ed6787e669bfd670f862124554ce0c4de1ea8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 51/97] fix: refuse incomplete or unknown credentials instead
 of raising

---
 sippy/SipAuthorization.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index 5465e77..7a0f619 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -132,13 +132,23 @@ class SipAuthorization(SipGenericHF):
     def verify(self, password, method, body = None):
         if not self.parsed:
             self.parse()
+        if not self.isComplete():
+            return False
         HA1 = DigestCalcHA1(self.algorithm, self.username, self.realm, password, self.nonce, self.cnonce)
         return self.verifyHA1(HA1, method, body)
 
+    def isComplete(self):
+        # everything needed to calculate the digest is there
+        if self.algorithm not in _HASH_FUNC:
+            return False
+        if self.algorithm is not None and self.algorithm.endswith('-sess') and self.cnonce is None:
+            return False
+        return None not in (self.username, self.realm, self.nonce, self.uri, self.response)
+
     def verifyHA1(self, HA1, method, body):
         if not self.parsed:
             self.parse()
-        if self.algorithm not in _HASH_FUNC:
+        if not self.isComplete():
             return False
         if self.qop != None and self.qop not in ('auth', 'auth-int'):
             return False
-- 
2.43.0


From 914c24319b8d4700594101a6c7b4d797589d79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 52/97] fix: do not move a time stamp made from the wall clock
 that is not in the future

---
 sippy/Time/MonoTime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/Time/MonoTime.py b/sippy/Time/MonoTime.py
index 812005c..1ce9a9c 100644
--- a/sippy/Time/MonoTime.py
+++ b/sippy/Time/MonoTime.py
@@ -85,7 +85,8 @@ class MonoTime(object):
             monot_now = clock_getdtime(CLOCK_MONOTONIC)
             if monot_now > self.globals.monot_max:
                 self.globals.monot_max = monot_now
-            self.monot = self.globals.monot_max
+            if self.monot > self.globals.monot_max:
+                self.monot = self.globals.monot_max
 
     def getdiff(self):
         return (self.realt - self.monot)
-- 
2.43.0


From ab7b6a5a070c2af1ff65615662e853bc21045e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 53/97] fix: UaStateGeneric: refuse update which cannot be
 handled now with 491 rather than leaving re-INVITE on the other leg
 unanswered

---
 sippy/UaStateGeneric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index 6b553cd..6f2e1e1 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.CCEvents import CCEventDisconnect
+from sippy.CCEvents import CCEventDisconnect, CCEventFail, CCEventUpdate
 
 class UaStateGeneric(object):
     sname = 'Generic'
@@ -50,6 +50,9 @@ class UaStateGeneric(object):
         handler = self.recv_event_handlers.get(event.__class__)
         if handler is not None:
             return handler(self, event, event.getExtraHeaders())
+        if isinstance(event, CCEventUpdate) and self.ua.disconnect_ts is None:
+            # Let whoever sent re-INVITE on the other leg know that it's not the time
+            self.ua.equeue.append(CCEventFail((491, 'Request Pending'), rtime = event.rtime))
         return None
 
     def _getRequestAlso(self, req):
-- 
2.43.0


From ea2057a141a840666a837c9e7505980da563efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 54/97] fix: UA: failure of delayed media update refuses
 re-INVITE or ends both legs, and its success is not dropped as out of order

---
 sippy/CCEvents.py         |  5 ++++-
 sippy/UA.py               | 32 ++++++++++++++++++++++++++++----
 sippy/UacStateUpdating.py |  2 +-
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/sippy/CCEvents.py b/sippy/CCEvents.py
index 1131cef..3cf4b04 100644
--- a/sippy/CCEvents.py
+++ b/sippy/CCEvents.py
@@ -43,9 +43,12 @@ class CCEventGeneric(object):
             self.rtime = MonoTime()
         else:
             self.rtime = rtime
+        self.newSeq()
+        self.origin = origin
+
+    def newSeq(self):
         self.seq = CCEventGeneric.seq
         CCEventGeneric.seq += 1
-        self.origin = origin
 
     def getData(self):
         return self.data
diff --git a/sippy/UA.py b/sippy/UA.py
index f5a8e03..acbed09 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -32,7 +32,8 @@ from sippy.UacStateIdle import UacStateIdle
 from sippy.SipRequest import SipRequest
 from sippy.SipContentType import SipContentType
 from sippy.SipMaxForwards import SipMaxForwards
-from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo
+from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo, \
+  CCEventUpdate, CCEventRing
 from sippy.MsgBody import MsgBody
 from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import TimeoutAbsMono
@@ -423,19 +424,35 @@ class UA(object):
             rval[2] = self.rUri.getTag()
         return tuple(rval)
 
-    def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None):
+    def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None, refresh=False):
         if self.disconnect_ts is not None:
             # The call has ended already
             return
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
+            oevent = event
             event = CCEventFail((ex.code, ex.msg))
             event.reason_rfc3326 = ex.getReason()
+            if isinstance(oevent, CCEventUpdate):
+                # Refuse the re-INVITE, the call continues
+                self.recvEvent(event)
+                return
         else:
             self.rSDP = remote_sdp_body.getCopy()
+            if not isinstance(event, CCEventRing):
+                # Events emitted meanwhile do not make this one obsolete
+                event.newSeq()
         self.equeue.append(event)
         self.emitPendingEvents()
         if ex is not None:
+            if self.isConnected():
+                devent = CCEventDisconnect(rtime = event.rtime, origin = self.origin)
+                devent.reason_rfc3326 = event.reason_rfc3326
+                if refresh:
+                    # The other leg is in the call too, so that failure of
+                    # the re-INVITE is not enough to end it
+                    self.equeue.append(devent)
+                event = devent
             self.recvEvent(event)
 
     def delayed_local_sdp_update(self, event, local_sdp_body, ex=None):
@@ -444,10 +461,17 @@ class UA(object):
             return
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
+            oevent = event
             event = CCEventFail((ex.code, ex.msg))
             event.reason_rfc3326 = ex.getReason()
-            self.equeue.append(event)
-            self.emitPendingEvents()
+            if isinstance(oevent, CCEventUpdate):
+                # No re-INVITE is sent, the call continues
+                self.equeue.append(event)
+                self.emitPendingEvents()
+                return
+            if not isinstance(self.state, self.UasStateUpdating):
+                self.equeue.append(event)
+                self.emitPendingEvents()
         self.recvEvent(event)
 
     def getAcct(self):
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index a3009c2..8ab0016 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -65,7 +65,7 @@ class UacStateUpdating(UaStateGeneric):
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
             if body is not None:
                 if self.ua.on_remote_sdp_change != None:
-                    cb_func = partial(self.ua.delayed_remote_sdp_update, event)
+                    cb_func = partial(self.ua.delayed_remote_sdp_update, event, refresh = True)
                     try:
                         body = self.ua.on_remote_sdp_change(body, cb_func)
                     except SdpHandlingErrors as e:
-- 
2.43.0


From caf854311510a7abe79419a4ded6207475184a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 55/97] fix: UaStateConnected: end the call when the answer in
 the late-offer ACK is refused by media handler

---
 sippy/UaStateConnected.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 2eb6a06..eacc26a 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -247,7 +247,13 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
         code, reason, body = event.getData()
         if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+            try:
+                self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+            except SdpHandlingErrors as ex:
+                event = CCEventDisconnect(rtime = event.rtime, origin = self.ua.origin)
+                event.reason_rfc3326 = ex.getReason()
+                self.ua.equeue.append(event)
+                return self._recvEventDisconnect(event, event.getExtraHeaders())
             return None
         self.ua.cancelCreditTimer() # prevent timer leak on body-less re-INVITE
         self.ua.startCreditTimer(event.rtime)
-- 
2.43.0


From 52c679b1076be81d47d162ef2519f44010a7a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 56/97] fix: b2bua: group_timeout of routes works again and its
 timer does not outlive the group

---
 sippy/b2bua.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)
 mode change 100755 => 100644 sippy/b2bua.py

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
old mode 100755
new mode 100644
index e1380d8..b1edefd
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -130,6 +130,7 @@ class CallController(object):
         self.state = CCStateIdle
         self.uaO = None
         self.routes = []
+        self.group_timers = []
         self.remote_ip = remote_ip
         self.source = source
         self.pass_headers = pass_headers
@@ -342,7 +343,7 @@ class CallController(object):
         self.uaO.kaInterval = self.global_config['keepalive_orig']
         if 'group_timeout' in oroute.params:
             timeout, skipto = oroute.params['group_timeout']
-            Timeout(self.group_expires, timeout, 1, skipto)
+            self.group_timers.append(Timeout(self.group_expires, timeout, 1, skipto))
         if self.global_config.getdefault('hide_call_id', False):
             cId = SipCallId(md5(str(cId).encode()).hexdigest() + ('-b2b_%d' % oroute.rnum))
         else:
@@ -370,7 +371,13 @@ class CallController(object):
         if self.acctO != None:
             self.acctO.conn(ua, rtime, origin)
 
+    def cancelGroupTimers(self):
+        for timer in self.group_timers:
+            timer.cancel()
+        self.group_timers = []
+
     def aConn(self, ua, rtime, origin):
+        self.cancelGroupTimers()
         self.state = CCStateConnected
         self.acctA.conn(ua, rtime, origin)
 
@@ -378,6 +385,7 @@ class CallController(object):
         if self.state == CCStateWaitRoute and self.auth_proc != None:
             self.auth_proc.cancel()
             self.auth_proc = None
+        self.cancelGroupTimers()
         if self.uaO != None and self.state != CCStateDead:
             self.state = CCStateDisconnecting
         else:
@@ -403,17 +411,17 @@ class CallController(object):
             self.global_config['_cmap'].ccmap.remove(self)
 
     def group_expires(self, skipto):
-        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0][0] > skipto or \
+        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0].rnum > skipto or \
           (not isinstance(self.uaA.state, self.uaA.UasStateTrying) and not isinstance(self.uaA.state, self.uaA.UasStateRinging)):
             return
         # When the last group in the list has timeouted don't disconnect
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1][0] + 1:
+        if skipto > self.routes[-1].rnum:
             self.routes = []
             return
-        while self.routes[0][0] != skipto:
+        while self.routes[0].rnum < skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From 0551a6bdbe574dbe92bbb43b25a9b595c20e7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 57/97] fix: B2BRoute: credit time granted by authorisation
 applies to routes without their own

---
 sippy/B2B/Route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index ab76deb..d77ccfb 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -214,7 +214,7 @@ class B2BRoute(object):
         if not self.cli_set:
             self._cli = default_cli
         if not self.crt_set:
-            self.crt_set = default_credit_time
+            self.credit_time = default_credit_time
         if 'gt' in self.params:
             timeout, skip = self.params['gt'].split(',', 1)
             self.params['group_timeout'] = (int(timeout), rnum + int(skip))
-- 
2.43.0


From 0a6c3a243e0b39dda049632389677bcdf64577e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 58/97] fix: HDR2Xattrs: match header names in any case

---
 sippy/B2B/Transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Transforms.py b/sippy/B2B/Transforms.py
index 059e8f3..8054529 100644
--- a/sippy/B2B/Transforms.py
+++ b/sippy/B2B/Transforms.py
@@ -33,7 +33,7 @@ class HDR2Xattrs():
     # Author: @twmobius
     hdr_name:str
     def __init__(self, hdr_name:str):
-        self.hdr_name = hdr_name
+        self.hdr_name = hdr_name.lower()
 
     def __call__(self, cc:'CallController', req:SipRequest):
         hfs = req.getHFs(self.hdr_name)
-- 
2.43.0


From 5e2c32742ba967f36f129585b99355b31e00ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 59/97] fix: FakeAccounting: accept attributes, so that po_proc
 works with accounting disabled

---
 sippy/FakeAccounting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/FakeAccounting.py b/sippy/FakeAccounting.py
index a1312b0..f82cfae 100644
--- a/sippy/FakeAccounting.py
+++ b/sippy/FakeAccounting.py
@@ -34,3 +34,6 @@ class FakeAccounting(object):
 
     def disc(self, *args):
         pass
+
+    def addAttributes(self, *args):
+        pass
-- 
2.43.0


From 4199f4ff7edac0b16705e23d594f475f96434f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 60/97] fix: MyConfigParser: pass_header matches header names
 in any case like pass_headers does

---
 sippy/MyConfigParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index df9dc61..8563064 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -183,9 +183,9 @@ class MyConfigParser(RawConfigParser):
             elif key == 'pass_header':
                 # XXX compatibility option
                 if self.has_key('_pass_headers'):
-                    self['_pass_headers'].append(value)
+                    self['_pass_headers'].append(value.lower())
                 else:
-                    self['_pass_headers'] = [value,]
+                    self['_pass_headers'] = [value.lower(),]
                 if self.has_key('pass_headers'):
                     self['pass_headers'] += ',' + value
                 else:
-- 
2.43.0


From 039ca76c9180d08d01ca1fd991d8be450a9d3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 61/97] fix: RadiusAccounting: session time of interim records
 mixed wall clock and monotonic time

---
 sippy/RadiusAccounting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index f146581..1b75882 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -26,6 +26,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from time import time, strftime, gmtime
+from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import Timeout
 
 sipErrToH323Err = {400:('7f', 'Interworking, unspecified'), 401:('39', 'Bearer capability not authorized'), \
@@ -121,7 +122,7 @@ class RadiusAccounting(object):
         if not self.complete:
             return
         if rtime == None:
-            rtime = time()
+            rtime = MonoTime()
         if ua != None:
             duration, delay, connected = ua.getAcct()[:3]
         else:
-- 
2.43.0


From 497c79a1ce024cae36943116dfba035866eab572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 62/97] fix: b2bua: challenge rejected caller for credentials
 as intended

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index b1edefd..ede87f8 100644
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -225,7 +225,7 @@ class CallController(object):
             if isinstance(self.uaA.state, self.uaA.UasStateTrying):
                 if self.challenge != None:
                     event = CCEventFail((401, 'Unauthorized'))
-                    event.extra_header = self.challenge
+                    event.challenges = [self.challenge]
                 else:
                     event = CCEventFail((403, 'Auth Failed'))
                 self.uaA.recvEvent(event)
-- 
2.43.0


From 0ecaf2ac7e81b3249a47927a7e559a13b6bc7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 63/97] fix: b2bua: call without hops left is refused before
 its second leg is made, which was never disposed of

---
 sippy/b2bua.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index ede87f8..5023d86 100644
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -287,6 +287,10 @@ class CallController(object):
         self.placeOriginate(self.routes.pop(0))
 
     def placeOriginate(self, oroute):
+        if self.eTry.max_forwards != None and self.eTry.max_forwards <= 1:
+            self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
+            self.state = CCStateDead
+            return
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
@@ -352,10 +356,6 @@ class CallController(object):
           oroute.params.get('caller_name', self.caller_name)))
         if self.eTry.max_forwards != None:
             event.max_forwards = self.eTry.max_forwards - 1
-            if event.max_forwards <= 0:
-                self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
-                self.state = CCStateDead
-                return
         event.reason_rfc3326 = self.eTry.reason_rfc3326
         po_proc = oroute.params.get('po_proc', None)
         if po_proc is not None:
-- 
2.43.0


From 7da3f26bafb952ddec6a543bb779ba5e0c80ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 64/97] fix: b2bua: do not rewrite called number which the
 route has removed

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 5023d86..8faef7e 100644
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -294,7 +294,7 @@ class CallController(object):
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
-        if 'static_tr_out' in self.global_config:
+        if 'static_tr_out' in self.global_config and cld is not None:
             cld = re_replace(self.global_config['static_tr_out'], cld)
         UA_kwa = {}
         if oroute.hostport == DST_SIP_UA:
-- 
2.43.0


From 6041fe1ae2db0f549debea9b5067a13c166c56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 65/97] fix: b2bua: routes to sip-ua crashed for having no
 address

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 8faef7e..40c7e3f 100644
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -300,7 +300,7 @@ class CallController(object):
         if oroute.hostport == DST_SIP_UA:
             host = self.source[0]
             nh_address, same_af = self.source, True
-        if oroute.hostport == DST_WSS_UA:
+        elif oroute.hostport == DST_WSS_UA:
             host = self.req_target.host
             (nh_address, nh_transport), same_af = self.req_target.getTAddr(), True
             UA_kwa['nh_transport'] = nh_transport
-- 
2.43.0


From 7216c2f54f9b650b5f2f4dfcb7d0a92875875a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 66/97] fix: SipMsg: getHFs matches names in any case,
 HDR2Xattrs passes the name as configured

---
 sippy/B2B/Transforms.py | 2 +-
 sippy/SipMsg.py         | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/B2B/Transforms.py b/sippy/B2B/Transforms.py
index 8054529..059e8f3 100644
--- a/sippy/B2B/Transforms.py
+++ b/sippy/B2B/Transforms.py
@@ -33,7 +33,7 @@ class HDR2Xattrs():
     # Author: @twmobius
     hdr_name:str
     def __init__(self, hdr_name:str):
-        self.hdr_name = hdr_name.lower()
+        self.hdr_name = hdr_name
 
     def __call__(self, cc:'CallController', req:SipRequest):
         hfs = req.getHFs(self.hdr_name)
diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 3429a76..32fbcd7 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -191,6 +191,7 @@ class SipMsg(object):
         return self.startline
 
     def getHFs(self, name):
+        name = name.lower()
         return [x for x in self.headers if x.name == name]
 
     def countHFs(self, name):
-- 
2.43.0


From 47f9a35ee11bf45b308ea91efddca7cbe98f1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 67/97] fix: Rtp_proxy stream client: command object sent
 without its line end

---
 sippy/Rtp_proxy/Client/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Client/stream.py b/sippy/Rtp_proxy/Client/stream.py
index 1a7bc39..69b5d1f 100644
--- a/sippy/Rtp_proxy/Client/stream.py
+++ b/sippy/Rtp_proxy/Client/stream.py
@@ -68,7 +68,7 @@ class Rtp_proxy_client_stream(Rtp_proxy_client_net):
             self.rtpp_class._reconnect(self, self.address)
         if isinstance(command, Rtp_proxy_cmd):
             command = str(command)
-        elif not command.endswith('\n'):
+        if not command.endswith('\n'):
             command += '\n'
         self.wi.put((command, result_callback, callback_parameters))
 
-- 
2.43.0


From 1a5b9a11595885d2cb7b706586520ce7bdf73ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 68/97] fix: Rtp_proxy: a command sent after the deletion of
 the session was accepted

---
 sippy/Rtp_proxy/Cmd/sequencer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Cmd/sequencer.py b/sippy/Rtp_proxy/Cmd/sequencer.py
index 44beae2..4abdffd 100644
--- a/sippy/Rtp_proxy/Cmd/sequencer.py
+++ b/sippy/Rtp_proxy/Cmd/sequencer.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.Core.Exceptions import dump_exception
+from sippy.Core.EventDispatcher import ED2
 
 class Rtp_proxy_cmd_sequencer(object):
     rtp_proxy_client = None
@@ -37,7 +38,10 @@ class Rtp_proxy_cmd_sequencer(object):
         self.comqueue = []
 
     def send_command(self, command, result_callback = None, *callback_parameters):
-        if self.rtp_proxy_client == None:
+        if self.rtp_proxy_client == None or self.deleted:
+            # The session is gone or is about to
+            if result_callback != None:
+                ED2.callFromThread(result_callback, None, *callback_parameters)
             return
         if self.inflight != None:
             self.comqueue.append((command, result_callback, callback_parameters))
@@ -60,8 +64,8 @@ class Rtp_proxy_cmd_sequencer(object):
             return
 
     def delete(self):
+        self.deleted = True
         if self.inflight is not None:
-            self.deleted = True
             return
         # break the reference loop
         self.rtp_proxy_client = None
-- 
2.43.0


From 5d05c0f279c673f35fcb3a8af922b2c12d018ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 69/97] fix: Rtp_proxy: bodies without anything to relay were
 never delivered

---
 sippy/Rtp_proxy/Session/side.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 213dc55..dbd183b 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -156,15 +156,13 @@ class _rtpps_side(object):
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
         sdp_bc = sdp_body.content
         if isinstance(sdp_bc, strtypes):
-            sdp_body.needs_update = False
-            return sdp_body
+            return self._nothing_to_relay(sdp_body, result_callback)
         for i, sect in enumerate(sdp_bc.sections):
             if sect.m_header.transport.lower() not in rtpps.SUPPORTED_TRTYPES:
                 continue
             sects.append(sect)
         if len(sects) == 0:
-            sdp_body.needs_update = False
-            return sdp_body
+            return self._nothing_to_relay(sdp_body, result_callback)
         formats = sects[0].m_header.formats
         self.codecs = ','.join([ str(x) for x in formats ])
         if self.repacketize is not None and not self.soft_repacketize:
@@ -196,6 +194,11 @@ class _rtpps_side(object):
             self.update(up)
         return
 
+    def _nothing_to_relay(self, sdp_body, result_callback):
+        sdp_body.needs_update = False
+        # The caller expects to be called back
+        ED2.callFromThread(result_callback, sdp_body)
+
     def _sdp_change_finish(self, sdp_body, sect, sects, result_callback, ur, rtpps, ex:Exception = None):
         if not sdp_body.needs_update:
             return
-- 
2.43.0


From 9f095b98daff1f5b91ef1017c6c533cb6e9ecfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 70/97] fix: Rtp_proxy: update reply without a valid port not
 reported as failure

---
 sippy/Rtp_proxy/Session/update.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 078841d..4976f9a 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -47,6 +47,10 @@ class update_params():
         result = result.rstrip()
         t0 = result.split('&&', 1)
         t1 = t0[0].split()
+        if len(t1) == 0:
+            ex = RtpProxyError(f'RTPProxy errored: empty result: {result!r}')
+            self.result_callback(None, self.rtpps, ex=ex)
+            return
         if t1[0][0] == 'E':
             ex = RtpProxyError(f'RTPProxy errored: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
@@ -84,8 +88,11 @@ class update_params():
                 subc_ress = subc_ress[len(subc.commands):]
                 if len(subc_ress) == 0:
                     break
-        ur.rtpproxy_port = int(t1[0])
-        if ur.rtpproxy_port == 0:
+        try:
+            ur.rtpproxy_port = int(t1[0])
+        except ValueError:
+            ur.rtpproxy_port = 0
+        if not 0 < ur.rtpproxy_port < 65536:
             ex = RtpProxyError(f'RTPProxy errored: bad port: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
             return None
-- 
2.43.0


From 3969ee0bb95411ab76ea999317858423ac046d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 71/97] fix: Rtp_proxy: play, copy and recording not reported
 when their session set-up fails

---
 sippy/Rtp_proxy/Session/side.py | 22 +++++++++++++++++-----
 sippy/Rtp_proxy/session.py      |  9 ++++-----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index dbd183b..5eab4d8 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -118,14 +118,20 @@ class _rtpps_side(object):
         ur = up.process_rtpp_result(result)
         self.rinfo_hst.append(ur)
 
-    def __play(self, prompt_name, times, result_callback, index, result, rtpps):
+    def __play(self, prompt_name, times, result_callback, index, result, rtpps, ex = None):
+        if ex is not None:
+            # No session to play into
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'P%d %s %s %s %s %s' % (times, '%s-%d' % (rtpps.call_id, index), prompt_name, self.codecs, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
 
     def _play(self, rtpps, prompt_name, times = 1, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
             return
         otherside = self.getother(rtpps)
         if not otherside.session_exists:
@@ -139,7 +145,8 @@ class _rtpps_side(object):
 
     def _stop_play(self, rtpps, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
             return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'S %s %s %s' % ('%s-%d' % (rtpps.call_id, index), from_tag, to_tag)
@@ -252,14 +259,19 @@ class _rtpps_side(object):
     def _copy(self, rtpps, remote_ip, remote_port, result_callback = None, index = 0):
         if not self.session_exists:
             up = update_params()
-            up.rtpps = self
+            up.rtpps = rtpps
             up.index = index
             up.result_callback = partial(self.__copy, remote_ip, remote_port, result_callback, index)
             self.update(up)
             return
         self.__copy(remote_ip, remote_port, result_callback, index, None, rtpps)
 
-    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps):
+    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps, ex = None):
+        if ex is not None:
+            # No session to copy from
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'C %s udp:%s:%d %s %s' % ('%s-%d' % (rtpps.call_id, index), remote_ip, remote_port, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 307b139..15e50b0 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -117,7 +117,7 @@ class Rtp_proxy_session(object):
     def copy_callee(self, remote_ip, remote_port, result_callback = None, index = 0):
         return self.callee._copy(self, remote_ip, remote_port, result_callback, index)
 
-    def start_recording(self, rname=None, result_callback=None, index=0, rflags=None, only_a=False):
+    def start_recording(self, rname=None, result_callback=None, index=0, rflags='', only_a=False):
         def make_command(side):
             t1 = self.from_tag if side == 'a' else self.to_tag
             t2 = self.to_tag if side == 'a' else self.from_tag
@@ -137,15 +137,15 @@ class Rtp_proxy_session(object):
             return
         first_stage(result='dummy', rtpps=None)
 
-    def _start_recording_a(self, make_command, next_stage, result, rtpps):
+    def _start_recording_a(self, make_command, next_stage, result, rtpps, ex = None):
         if result is None:
-            return next_stage(None)
+            return next_stage(None) if next_stage is not None else None
         command = make_command('a')
         return self.rtpp_seq.send_command(command, next_stage)
 
     def _start_recording_o(self, make_command, result_callback, result):
         if result is None:
-            return result_callback(None)
+            return result_callback(None) if result_callback is not None else None
         command = make_command('o')
         return self.rtpp_seq.send_command(command, result_callback)
 
@@ -176,7 +176,6 @@ class Rtp_proxy_session(object):
         self.rtp_proxy_client.send_command(command, self.stats_result, (result_callback, callback_parameters))
 
     def stats_result(self, result, args, ex=None):
-        t1 = result.split()
         result_callback, callback_parameters = args
         if len(t1) == 1:
             result_callback(None, *callback_parameters)
-- 
2.43.0


From 45c256cf1a3317b34b7325256034ebf13714fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 72/97] fix: Rtp_proxy client: command sent after shutdown
 raised AttributeError

---
 sippy/Rtp_proxy/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 59c79fd..6d7dd4a 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -26,6 +26,7 @@
 
 import socket
 
+from sippy.Core.EventDispatcher import ED2
 from sippy.Time.Timeout import TimeoutInact
 
 from .Client.udp import Rtp_proxy_client_udp
@@ -199,8 +200,13 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
             self.caps_done = True
             self.online = True
 
-    def send_command(self, *args, **kwargs):
-        self.rtpp_class.send_command(self, *args, **kwargs)
+    def send_command(self, command, result_callback = None, *callback_parameters):
+        if self.shut_down:
+            # Nobody is there to answer it any longer
+            if result_callback != None:
+                ED2.callFromThread(result_callback, None, *callback_parameters)
+            return
+        self.rtpp_class.send_command(self, command, result_callback, *callback_parameters)
 
     def version_check(self):
         if self.shut_down:
-- 
2.43.0


From 1b340461b00884e44b1ec64855c562f25006c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:49 +0000
Subject: [PATCH 73/97] fix: Rtp_proxy cmd: options of update/lookup lost or
 merged when parsed back

---
 sippy/Rtp_proxy/cmd.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp_proxy/cmd.py b/sippy/Rtp_proxy/cmd.py
index f7b9375..cfa8503 100644
--- a/sippy/Rtp_proxy/cmd.py
+++ b/sippy/Rtp_proxy/cmd.py
@@ -74,12 +74,16 @@ class UpdateLookupOpts(object):
                 if len(val) > 0:
                     self.codecs = [int(x) for x in val.split(',')]
             else:
-                val, s = extract_to_next_token(s, ('c', 'R'), True)
+                val, s = extract_to_next_token(s, ('c', 'R', 'L'), True)
                 if len(val) > 0:
                     self.otherparams += val
 
     def getstr(self, call_id, swaptags = False, skipnotify = False):
         s = ''
+        otherparams = self.otherparams if self.otherparams != None else ''
+        if otherparams[:1].isdigit():
+            # Behind an address or a codec it would become part of that
+            s, otherparams = otherparams, s
         if self.destination_ip != None:
             s += 'R%s' % (self.destination_ip,)
         if self.local_ip != None:
@@ -89,8 +93,7 @@ class UpdateLookupOpts(object):
             for codec in self.codecs:
                 s += '%s,' % (codec,)
             s = s[:-1]
-        if self.otherparams != None and len(self.otherparams) > 0:
-            s += self.otherparams
+        s += otherparams
         s = '%s %s' % (s, call_id)
         if self.remote_ip != None:
             s = '%s %s' % (s, self.remote_ip)
@@ -146,13 +149,13 @@ class Rtp_proxy_cmd(object):
                 self.args = args
                 self.command_opts = command_opts[1:]
         elif self.type in ('G',):
-            if not cmd[1].isspace():
+            if len(cmd) > 1 and not cmd[1].isspace():
                 cparts = cmd[1:].split(None, 1)
                 if len(cparts) > 1:
                     self.command_opts, self.args = cparts
                 else:
                     self.command_opts = cparts[0]
-            else:
+            elif len(cmd) > 1:
                 self.args = cmd[1:].strip()
         else:
             self.command_opts = cmd[1:]
-- 
2.43.0


From 04f0b4b6f13432351e5feb5ab41c11a41b9d0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:49 +0000
Subject: [PATCH 74/97] fix: Rtp_proxy session: exception in __del__ when the
 only proxy is offline

---
 sippy/Rtp_proxy/session.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 15e50b0..036783f 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -71,9 +71,10 @@ class Rtp_proxy_session(object):
                 raise RtpProxyError('No online RTP proxy client has been found')
             self.rtp_proxy_client = rtp_proxy_clients[int(random() * n)]
         else:
-            self.rtp_proxy_client = global_config['rtp_proxy_client']
-            if not self.rtp_proxy_client.online:
+            rtp_proxy_client = global_config['rtp_proxy_client']
+            if not rtp_proxy_client.online:
                 raise RtpProxyError('No online RTP proxy client has been found')
+            self.rtp_proxy_client = rtp_proxy_client
         self.rtpp_seq = Rtp_proxy_cmd_sequencer(self.rtp_proxy_client)
         if call_id != None:
             self.call_id = call_id
-- 
2.43.0


From 66c2576cc8592d16490f1babff32a446cd56ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:49 +0000
Subject: [PATCH 75/97] fix: Rtp_proxy session: statistics without a valid
 answer raised

---
 sippy/Rtp_proxy/session.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 036783f..a9d620d 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -178,10 +178,12 @@ class Rtp_proxy_session(object):
 
     def stats_result(self, result, args, ex=None):
         result_callback, callback_parameters = args
-        if len(t1) == 1:
+        try:
+            ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in result.split()]
+        except (AttributeError, ValueError):
+            # Timeout or error
             result_callback(None, *callback_parameters)
             return
-        ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in t1]
         result_callback((ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount), *callback_parameters)
 
     def __del__(self):
-- 
2.43.0


From 60bee3c36a16623b7cdeb472f956f428cca8390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 76/97] fix: SimpleAPI: listing calls and transactions and
 disconnecting all calls raised

---
 sippy/B2B/SimpleAPI.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2f6c0c9..2e89d15 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -54,7 +54,7 @@ class B2BSimpleAPI(CLIConnectionManager):
         if cmd == 'l':
             res = 'In-memory calls:\n'
             total = 0
-            for (cid, sname), uaast, uaost in ccm.listActiveCalls():
+            for cid, sname, uaast, uaost in ccm.listActiveCalls():
                 res += f'{cid}: {sname} ('
                 if uaast is not None:
                     _s, _t, _h, _p, _cld, _cli = uaast
@@ -72,10 +72,10 @@ class B2BSimpleAPI(CLIConnectionManager):
             return False
         if cmd == 'lt':
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             clim.send(res)
             return False
@@ -86,13 +86,13 @@ class B2BSimpleAPI(CLIConnectionManager):
                 mindur = 0.0
             ctime = MonoTime()
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
                 res += '%s %s %s %s\n' % (tid, t.method, t.state, duration)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
@@ -104,7 +104,7 @@ class B2BSimpleAPI(CLIConnectionManager):
                 clim.send('ERROR: syntax error: d <call-id>\n')
                 return False
             if args[0] == '*':
-                self.discAll()
+                ccm.discAll()
                 clim.send('OK\n')
                 return False
             dlist = [x for x in ccm.ccmap if str(x.cId) == args[0]]
-- 
2.43.0


From fae0d91d8daab2c16aa666557694a52a5398e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 77/97] fix: SimpleAPI: media timeout command with a bad number
 was not answered

---
 sippy/B2B/SimpleAPI.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2e89d15..a5fdd49 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -119,8 +119,12 @@ class B2BSimpleAPI(CLIConnectionManager):
             if len(args) not in (1, 2):
                 clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
                 return False
-            idx = int(args[0])
-            media_index = int(args[1]) if len(args) == 2 else 0
+            try:
+                idx = int(args[0])
+                media_index = int(args[1]) if len(args) == 2 else 0
+            except ValueError:
+                clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
+                return False
             dlist = [x for x in ccm.ccmap if x.id == idx]
             if len(dlist) == 0:
                 clim.send('ERROR: no call with id of %d has been found\n' % idx)
-- 
2.43.0


From f59e9b9e195f02c1f304f945ce12833a30690747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 78/97] fix: b2bua: list of calls had the address of the first
 leg for the second one

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 40c7e3f..b975c07 100644
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -611,7 +611,7 @@ class CallMap(object):
             else:
                 r.append(None)
             if cc.uaO != None:
-                (_h, _p), _t = cc.uaA.getRAddr0()
+                (_h, _p), _t = cc.uaO.getRAddr0()
                 r.append((cc.uaO.state.sname, _t, _h, _p,
                          cc.uaO.getCLI(), cc.uaO.getCLD()))
             else:
-- 
2.43.0


From c28f482f40545e8b5ebbc28b53db1f460defd5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 79/97] fix: CLIManager: broken connection was never released

---
 sippy/CLIManager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 1f9c47c..6b34b01 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -244,9 +244,10 @@ class _CLIManager_r(Thread):
             try:
                 data = self.clientsock.recv(1024)
             except socket.error as msg:
-                if msg.errno in (EBADF,):
-                    break
-                raise
+                if msg.errno not in (EBADF,):
+                    # Connection is broken
+                    ED2.callFromThread(self.clim.shutdown)
+                break
             if len(data) == 0:
                 ED2.callFromThread(self.clim.shutdown)
                 break
-- 
2.43.0


From edfa31e72b4fbc4e0e1e4037bbd39af019cdabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 80/97] fix: CLIManager: reply which is not ASCII could not be
 sent

---
 sippy/CLIManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 6b34b01..48f7698 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -288,7 +288,7 @@ class CLIManager(object):
         if self.wthr is None:
             return
         if not isinstance(data, _uobj):
-            data = data.encode('ascii')
+            data = data.encode()
         self.wthr.send(data)
 
     def write(self, data):
-- 
2.43.0


From 65420e7c799e77d8ee397340c65126d032feef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 81/97] fix: External_command: requests never answered once a
 helper has gone or could not be started

---
 sippy/External_command.py | 57 +++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 36d40f1..48af638 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -50,8 +50,7 @@ class _Worker(Thread):
         need_close_fds = True
         if platform == 'win32':
             need_close_fds = False
-        pipe = Popen(self.command, shell = False, stdin = PIPE, \
-          stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+        pipe = None
         while True:
             self.master.work_available.acquire()
             while len(self.master.work) == 0:
@@ -69,27 +68,51 @@ class _Worker(Thread):
                 wi.result_callback = None
                 wi.callback_parameters = None
                 continue
-            batch = [x.encode() + b'\n' for x in wi.data]
-            batch.append(b'\n')
-            pipe.stdin.writelines(batch)
-            pipe.stdin.flush()
             result = []
-            while True:
-                try:
-                    line = pipe.stdout.readline().strip()
-                except IOError as e:
-                    # Catch EINTR
-                    if e.args[0] != EINTR:
-                        raise e
-                    continue
-                if len(line) == 0:
-                    break
-                result.append(line)
+            try:
+                if pipe is None:
+                    pipe = Popen(self.command, shell = False, stdin = PIPE, \
+                      stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+                batch = [x.encode() + b'\n' for x in wi.data]
+                batch.append(b'\n')
+                pipe.stdin.writelines(batch)
+                pipe.stdin.flush()
+                while True:
+                    try:
+                        line = pipe.stdout.readline()
+                    except IOError as e:
+                        # Catch EINTR
+                        if e.args[0] != EINTR:
+                            raise e
+                        continue
+                    if len(line) == 0:
+                        raise EOFError('unexpected end of the output')
+                    line = line.strip()
+                    if len(line) == 0:
+                        break
+                    result.append(line)
+            except (OSError, EOFError):
+                # The command could not be started or is gone: no result for
+                # this request, the next one gets a new instance
+                dump_exception('External_command: failure running %s' % str(self.command))
+                result = []
+                pipe = self.dispose(pipe)
             ED2.callFromThread(self.master.process_result, wi.result_callback, tuple(result), *wi.callback_parameters)
             wi.data = None
             wi.result_callback = None
             wi.callback_parameters = None
 
+    def dispose(self, pipe):
+        if pipe is not None:
+            for f in (pipe.stdin, pipe.stdout, pipe.stderr):
+                try:
+                    f.close()
+                except OSError:
+                    pass
+            pipe.kill()
+            pipe.wait()
+        return None
+
 class Work_item(object):
     cancelled = False
     cancelled_lock = None
-- 
2.43.0


From 85fd17ce53625f7cefd70c4a427f531c33bbc3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 82/97] fix: Radius_client: invalid answer of the helper never
 reported to the requester, quotes within values lost

---
 sippy/Radius_client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 8c7b4d4..02b6993 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -66,10 +66,19 @@ class Radius_client(External_command):
     def process_result(self, result_callback, result, *callback_parameters):
         if result_callback == None:
             return
+        try:
+            result = self._parse_result(result)
+        except (ValueError, IndexError):
+            # No (valid) answer
+            result = ((), -1)
+        External_command.process_result(self, result_callback, result, *callback_parameters)
+
+    def _parse_result(self, result):
         nav = []
         for av in result[:-1]:
             a, v = [x.strip() for x in av.decode().split(' = ', 1)]
-            v = v.strip('\'')
+            if len(v) > 1 and v[0] == '\'' and v[-1] == '\'':
+                v = v[1:-1]
             if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
                 t = v.split('=', 1)
                 if len(t) > 1:
@@ -77,4 +86,4 @@ class Radius_client(External_command):
             elif v.startswith(a + '='):
                 v = v[len(a) + 1:]
             nav.append((a, v))
-        External_command.process_result(self, result_callback, (tuple(nav), int(result[-1])), *callback_parameters)
+        return (tuple(nav), int(result[-1]))
-- 
2.43.0


From 3e2d521ff302d27ba71010dc31b0feaa45ec23ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 83/97] fix: RadiusAuthorisation: request of a call which is
 gone could not be cancelled

---
 sippy/RadiusAuthorisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/RadiusAuthorisation.py b/sippy/RadiusAuthorisation.py
index 85e247a..b2f2db0 100644
--- a/sippy/RadiusAuthorisation.py
+++ b/sippy/RadiusAuthorisation.py
@@ -50,7 +50,7 @@ class RadiusAuthorisation(Radius_client):
         message = 'sending AAA request:\n' 
         message += reduce(lambda x, y: x + y, ['%-32s = \'%s\'\n' % (x[0], str(x[1])) for x in attributes])
         self.global_config['_sip_logger'].write(message, call_id = sip_cid)
-        Radius_client.do_auth(self, attributes, self._process_result, res_cb, sip_cid, time())
+        return Radius_client.do_auth(self, attributes, self._process_result, res_cb, sip_cid, time())
 
     def _process_result(self, results, res_cb, sip_cid, btime):
         delay = time() - btime
-- 
2.43.0


From be8a8d4836da76c8258662a18296dbcdb8a1a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 84/97] fix: MyConfigParser: reading configuration from a file
 raised AttributeError

---
 sippy/MyConfigParser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index 8563064..880ed7e 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -161,10 +161,13 @@ class MyConfigParser(RawConfigParser):
         return tuple([x + '=' for x in SUPPORTED_OPTIONS.keys()])
 
     def read(self, fname):
-        RawConfigParser.readfp(self, open(fname))
-        for key in tuple(self.options(self._default_section)):
-            self.check_and_set(key, RawConfigParser.get(self, \
-              self._default_section, key), False)
+        parser = RawConfigParser()
+        with open(fname) as f:
+            parser.read_file(f)
+        if not parser.has_section(self._default_section):
+            return
+        for key in parser.options(self._default_section):
+            self.check_and_set(key, parser.get(self._default_section, key), False)
 
     def check_and_set(self, key, value, compat = True):
         value = value.strip()
-- 
2.43.0


From a649fb3480b0b71ec270fbbf70491a43f7d35815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 85/97] fix: MyConfigParser: names in allowed_pts not
 recognised behind a blank

---
 sippy/MyConfigParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index 880ed7e..528ec4b 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -209,7 +209,7 @@ class MyConfigParser(RawConfigParser):
                 raise ValueError('max_credit_time should be more than zero')
         elif key == 'allowed_pts':
             self['_allowed_pts'] = [int(x) if not (x.startswith('[') and x.endswith(']')) \
-                                           else x[1:-1] for x in value.split(',')]
+                                           else x[1:-1] for x in [y.strip() for y in value.split(',')]]
         elif key in ('accept_ips', 'rtp_proxy_clients'):
             self['_' + key] = [x.strip() for x in value.split(',')]
         elif key == 'pass_headers':
-- 
2.43.0


From f5b15b9ca6f468033d3bd45a3f7dbd230c3e8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:39 +0000
Subject: [PATCH 86/97] fix: b2bua: "ui" option switched off started user
 interface

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index b975c07..d4b92ff 100644
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -819,7 +819,7 @@ def main_func():
     global_config['_sip_tm'] = stm
     global_config['_sip_tm'].nat_traversal = global_config.getdefault('nat_traversal', False)
 
-    if 'ui' in global_config:
+    if global_config.getdefault('ui', False):
         from sippy.UI.Controller import UIController
         global_config['_ui_controller'] = UIController(global_config)
 
-- 
2.43.0


From 8807e75c791ceb38176a1a60113c54ee6d902561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:15 +0000
Subject: [PATCH 87/97] fix: G722Codec: silence in place of lost packets raised
 AttributeError and had the wrong length

---
 sippy/Rtp/Codecs/G722.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp/Codecs/G722.py b/sippy/Rtp/Codecs/G722.py
index 63fe43f..c99fa4a 100644
--- a/sippy/Rtp/Codecs/G722.py
+++ b/sippy/Rtp/Codecs/G722.py
@@ -34,8 +34,8 @@ class G722Codec(GenCodec):
         return chunk
 
     def silence(self, nframes:int):
-        pcm16 = array('h', [0]) * self.e2d_frames(nframes)
-        return self.encode(pcm16)
+        pcm16 = array('h', [0]) * self.e2d_frames(nframes, self.srate)
+        return self.encode(self.make_chunk(pcm16, self.srate))
 
     def e2d_frames(self, enframes:int, out_srate:int=None):
         #assert out_srate % self.srate == 0
-- 
2.43.0


From 1e50cceab79d7efe6fe55ede1a5b4171f4ba4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:15 +0000
Subject: [PATCH 88/97] fix: RTPOutputWorker: resampled audio was padded by its
 length before resampling

---
 sippy/Rtp/OutputWorker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp/OutputWorker.py b/sippy/Rtp/OutputWorker.py
index 502c36d..0f0dcc2 100644
--- a/sippy/Rtp/OutputWorker.py
+++ b/sippy/Rtp/OutputWorker.py
@@ -154,7 +154,7 @@ class RTPOutputWorker():
                 chunk.resample(self.samplerate_out)
             if self.data_log is not None:
                 self.data_log.extend(chunk.to_bytes())
-            chunk_ebytes = self.codec.d2e_frames(chunk_nframes)
+            chunk_ebytes = self.codec.d2e_frames(chunk.nframes)
             pad_nbytes = (-chunk_ebytes) % self._out_psize
             if pad_nbytes != 0:
                 pad_nframes = self.codec.e2d_frames(pad_nbytes)
-- 
2.43.0


From 4a0bf52d403438ebf91f8993b56dab5b49165154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:38 +0000
Subject: [PATCH 89/97] fix: do not take a capability check nobody answered for
 an answer

When the media proxy stops responding during the capability check all
capabilities not answered were taken for missing for good, and the proxy was
put online. Check the version and the capabilities again later instead.
---
 sippy/Rtp_proxy/client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 6d7dd4a..9abb6bc 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -40,6 +40,7 @@ CAPSTABLE = {'20071218':'copy_supported', '20080403':'stat_supported', \
 class Rtpp_caps_checker(object):
     caps_requested = 0
     caps_received = 0
+    caps_failed = False
     rtpc = None
 
     def __init__(self, rtpc):
@@ -56,9 +57,15 @@ class Rtpp_caps_checker(object):
             setattr(self.rtpc, vname, True)
         else:
             setattr(self.rtpc, vname, False)
+        if result is None:
+            self.caps_failed = True
         if self.caps_received == self.caps_requested:
-            self.rtpc.caps_done = True
-            self.rtpc.go_online()
+            if not self.caps_failed:
+                self.rtpc.caps_done = True
+                self.rtpc.go_online()
+            else:
+                # No answer is not an answer, start over later
+                self.rtpc.version_check_reply(None)
             self.rtpc = None
 
 class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
-- 
2.43.0


From 335fc36c11272ce2d425f292358b8d0bd9cebed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:38 +0000
Subject: [PATCH 90/97] fix: do not schedule another heartbeat after a failed
 one

The client goes offline and re-checks the version later, which starts the
heartbeats again. With the old one still there two sequences could run.
---
 sippy/Rtp_proxy/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 9abb6bc..a2b5a66 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -247,6 +247,7 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
         if stats == None:
             self.active_sessions = None
             self.go_offline()
+            return
         else:
             sessions_created = active_sessions = active_streams = preceived = ptransmitted = 0
             for line in stats.splitlines():
-- 
2.43.0


From 9bad65a945d00c5d63d26c512032f96a6da0b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:38 +0000
Subject: [PATCH 91/97] fix: a malformed line in the media proxy statistics
 stopped the heartbeats

The exception left no timer behind, so that a media proxy that died later was
never noticed.
---
 sippy/Rtp_proxy/client.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index a2b5a66..907ef53 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -252,16 +252,20 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
             sessions_created = active_sessions = active_streams = preceived = ptransmitted = 0
             for line in stats.splitlines():
                 line_parts = line.split(':', 1)
-                if line_parts[0] == 'sessions created':
-                    sessions_created = int(line_parts[1])
-                elif line_parts[0] == 'active sessions':
-                    active_sessions = int(line_parts[1])
-                elif line_parts[0] == 'active streams':
-                    active_streams = int(line_parts[1])
-                elif line_parts[0] == 'packets received':
-                    preceived = int(line_parts[1])
-                elif line_parts[0] == 'packets transmitted':
-                    ptransmitted = int(line_parts[1])
+                try:
+                    if line_parts[0] == 'sessions created':
+                        sessions_created = int(line_parts[1])
+                    elif line_parts[0] == 'active sessions':
+                        active_sessions = int(line_parts[1])
+                    elif line_parts[0] == 'active streams':
+                        active_streams = int(line_parts[1])
+                    elif line_parts[0] == 'packets received':
+                        preceived = int(line_parts[1])
+                    elif line_parts[0] == 'packets transmitted':
+                        ptransmitted = int(line_parts[1])
+                except (IndexError, ValueError):
+                    # Do not stop the heartbeats because of it
+                    continue
                 self.update_active(active_sessions, sessions_created, active_streams, preceived, ptransmitted)
         to = TimeoutInact(self.heartbeat, self.hrtb_ival)
         to.spread_runs(0.1)
-- 
2.43.0


From a204cf94b935764ded59f1e037879cc2bb7a74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:21 +0000
Subject: [PATCH 92/97] fix: look for the own contact in the reply to REGISTER

The registrar lists all contacts of the address, and the time granted to another
one was taken when ours was not the first.
---
 sippy/SipRegistrationAgent.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 319b66f..c3f0576 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -74,15 +74,25 @@ class SipRegistrationAgent(object):
         self.dead = True
         self.rmsg = None
 
+    def getcontact(self, resp):
+        # The reply lists all contacts of the AOR, ours is not necessarily the first
+        contacts = resp.getHFBodys('contact')
+        my_url = self.rmsg.getHFBody('contact').getUrl()
+        for contact in contacts:
+            if contact.asterisk:
+                continue
+            url = contact.getUrl()
+            if url.username == my_url.username and url.getAddr() == my_url.getAddr():
+                return contact
+        return contacts[0] if len(contacts) > 0 else None
+
     def gotreply(self, resp):
         if self.dead:
             return
         if resp.scode < 200:
             return
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
-            contact = None
-            if resp.countHFs('contact') > 0:
-                contact = resp.getHFBody('contact')
+            contact = self.getcontact(resp)
             if contact != None and 'expires' in contact.address.params:
                 tout = int(contact.address.params['expires'])
             elif resp.countHFs('expires') > 0:
-- 
2.43.0


From 01166a450a056ec9814dc62b1b2c7549bde25d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:21 +0000
Subject: [PATCH 93/97] fix: keep registering when the reply to REGISTER grants
 no usable time

A malformed Contact or expiration time raised an exception that ended the
registrations for good, zero made them follow each other without a pause.
---
 sippy/SipRegistrationAgent.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index c3f0576..649b7a2 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.Time.Timeout import Timeout
+from sippy.Core.Exceptions import dump_exception
 from sippy.SipURL import SipURL
 from sippy.SipTo import SipTo
 from sippy.SipFrom import SipFrom
@@ -92,13 +93,20 @@ class SipRegistrationAgent(object):
         if resp.scode < 200:
             return
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
-            contact = self.getcontact(resp)
-            if contact != None and 'expires' in contact.address.params:
-                tout = int(contact.address.params['expires'])
-            elif resp.countHFs('expires') > 0:
-                tout = resp.getHFBody('expires').getNum()
-            else:
+            contact = tout = None
+            try:
+                contact = self.getcontact(resp)
+                if contact != None and not contact.asterisk and 'expires' in contact.address.params:
+                    tout = int(contact.address.params['expires'])
+                elif resp.countHFs('expires') > 0:
+                    tout = resp.getHFBody('expires').getNum()
+            except Exception:
+                dump_exception('SipRegistrationAgent: can\'t parse reply to the REGISTER', extra = str(resp))
+            if tout is None:
                 tout = self.exp
+            if tout <= 0:
+                # Not registered (any longer), do not hurry to try again
+                tout = 60
             timer = Timeout(self.doregister, tout)
             if self.rok_cb != None:
                 self.rok_cb(timer.etime.realt, contact, self.cb_arg)
-- 
2.43.0


From b009377b350a5ef9015375d1194d396cae1ec057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:44 +0000
Subject: [PATCH 94/97] fix: apply the payload policy to any body a party may
 send

Text other than SDP, multipart bodies and rtpmap attributes without a
codec or with a bad payload type raised exceptions, so the request was
never answered.
---
 sippy/SdpMediaDescription.py | 11 +++++++++--
 sippy/b2bua.py               | 17 +++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index d47b4e4..d11e837 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -115,8 +115,15 @@ class SdpMediaDescription(object):
 
     def getPTbyName(self, name):
         for ah in self.a_headers:
-            if ah.name == 'rtpmap' and ah.value.split(' ', 1)[1] == name:
-                return int(ah.value.split(' ', 1)[0])
+            if ah.name != 'rtpmap' or ah.value is None:
+                continue
+            pt, _, codec = ah.value.partition(' ')
+            if codec != name:
+                continue
+            try:
+                return int(pt)
+            except ValueError:
+                continue
         return None
 
     def optimize_a(self):
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index d4b92ff..a5e3efb 100644
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -56,6 +56,8 @@ from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.SdpBody import SdpBody
+from sippy.MultipartMixBody import MultipartMixBody
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
   CCStateConnected, CCStateDead, CCStateDisconnecting
@@ -149,8 +151,18 @@ class CallController(object):
             if not is_spe:
                 dump_exception('can\'t parse SDP body', extra = body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
+        if isinstance(body.content, MultipartMixBody):
+            for part in body.content.parts:
+                self.filter_SDP(part, done_cb)
+        elif isinstance(body.content, SdpBody):
+            self.filter_sections(body.content)
+        if prev_orc is not None:
+            return prev_orc(body, done_cb)
+        return body
+
+    def filter_sections(self, sdp_body):
         allowed_pts = self.global_config['_allowed_pts']
-        for sect in body.content.sections:
+        for sect in sdp_body.sections:
             mbody = sect.m_header
             if mbody.transport.lower() not in self.rtpps_cls.AV_TRTYPES:
                 continue
@@ -161,9 +173,6 @@ class CallController(object):
                 raise SdpParseError('offered media prohibited by the policy')
             if old_len > len(mbody.formats):
                 sect.optimize_a()
-        if prev_orc is not None:
-            return prev_orc(body, done_cb)
-        return body
 
     def recvEvent(self, event, ua):
         if ua == self.uaA:
-- 
2.43.0


From aa4ba0c2977e4710ba5307dfc7ca2b4092e6fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:00 +0000
Subject: [PATCH 95/97] fix: relay the media of a multipart body

Such a body has no sections of its own, so that an exception was raised
and the request never answered.
---
 sippy/Rtp_proxy/Session/side.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 5eab4d8..c3abdc9 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -31,6 +31,7 @@ from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
 from sippy.Exceptions.SdpParseError import SdpParseError
 from sippy.Exceptions.RtpProxyError import RtpProxyError
+from sippy.MultipartMixBody import MultipartMixBody
 from sippy.Rtp_proxy.Session.update import update_params
 from sippy.Rtp_proxy.Session.subcommand import subcommand_dtls, \
   subcommand_dedtls, DTLS_TRANSPORTS
@@ -164,6 +165,11 @@ class _rtpps_side(object):
         sdp_bc = sdp_body.content
         if isinstance(sdp_bc, strtypes):
             return self._nothing_to_relay(sdp_body, result_callback)
+        if isinstance(sdp_bc, MultipartMixBody):
+            for part in sdp_bc.parts:
+                if part.getType() == 'application/sdp':
+                    return self._on_sdp_change(rtpps, part, partial(self._part_change_finish, sdp_body, result_callback))
+            return self._nothing_to_relay(sdp_body, result_callback)
         for i, sect in enumerate(sdp_bc.sections):
             if sect.m_header.transport.lower() not in rtpps.SUPPORTED_TRTYPES:
                 continue
@@ -206,6 +212,10 @@ class _rtpps_side(object):
         # The caller expects to be called back
         ED2.callFromThread(result_callback, sdp_body)
 
+    def _part_change_finish(self, sdp_body, result_callback, part, **kwargs):
+        sdp_body.needs_update = False
+        result_callback(sdp_body if part is not None else None, **kwargs)
+
     def _sdp_change_finish(self, sdp_body, sect, sects, result_callback, ur, rtpps, ex:Exception = None):
         if not sdp_body.needs_update:
             return
-- 
2.43.0


From 66c122b4b5ee169338eb946c16e103ee885af74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:35 +0000
Subject: [PATCH 96/97] fix: Via values with white space around the separators
 or with quoted parameters

A Via like 'SIP / 2.0 / UDP host : 5060 ; branch = x' (RFC 4475, 3.1.1.1)
failed to parse or lost its branch, and a comma or semicolon within a quoted
parameter value split the header.
---
 sippy/SipVia.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sippy/SipVia.py b/sippy/SipVia.py
index 0ae9f10..23f9c6b 100644
--- a/sippy/SipVia.py
+++ b/sippy/SipVia.py
@@ -27,6 +27,7 @@
 from random import random
 from secrets import token_hex
 from sippy.SipGenericHF import SipGenericHF
+from sippy.SipAddress import splitunquoted
 from sippy.SipConf import SipConf
 from sippy.ESipHeaderCSV import ESipHeaderCSV
 
@@ -41,7 +42,9 @@ class SipVia(SipGenericHF):
 
     def __init__(self, body = None, cself = None):
         if body is not None and body.find(',') > -1:
-            raise ESipHeaderCSV(None, body.split(','))
+            bodys = self.split(body, ',')
+            if len(bodys) > 1:
+                raise ESipHeaderCSV(None, bodys)
         SipGenericHF.__init__(self, body)
         if body is not None:
             assert cself is None
@@ -57,25 +60,31 @@ class SipVia(SipGenericHF):
         self.port = SipConf.my_port
         self.transport = SipConf.my_transport
 
+    @staticmethod
+    def split(s, delim):
+        return splitunquoted(s, delim) if '"' in s else s.split(delim)
+
     def parse(self):
         self.params = {}
-        parts, hostname = self.body.split(None, 1)
-        self.sipver, self.transport = (p:=parts.rsplit('/', 1))[0].rstrip(), p[1].lstrip()
-        hcomps = [x.strip() for x in hostname.split(';')]
+        # There can be white space around any of the separators
+        name, version, parts = self.body.split('/', 2)
+        self.sipver = name.strip() + '/' + version.strip()
+        self.transport, hostname = parts.strip().split(None, 1)
+        hcomps = [x.strip() for x in self.split(hostname, ';')]
         for param in hcomps[1:]:
             sparam = param.split('=', 1)
             if len(sparam) == 1:
                 val = None
             else:
-                val = sparam[1]
-            self.params[sparam[0]] = val
+                val = sparam[1].lstrip()
+            self.params[sparam[0].rstrip()] = val
         if hcomps[0].startswith('['):
             hcomps = hcomps[0].split(']', 1)
             self.hostname = hcomps[0] + ']'
             hcomps = hcomps[1].split(':', 1)
         else:
             hcomps = hcomps[0].split(':', 1)
-            self.hostname = hcomps[0]
+            self.hostname = hcomps[0].rstrip()
         if len(hcomps) == 2:
             try:
                 self.port = int(hcomps[1])
-- 
2.43.0


From 77d204712f57107e214d694ead46b69404ffd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:22 +0000
Subject: [PATCH 97/97] fix: media proxy replies over a stream socket which
 come in several parts

Only what the first recv() returned was taken as the reply, the rest was then
taken as the reply to the next command.
---
 sippy/Rtp_proxy/Client/Worker/external.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Client/Worker/external.py b/sippy/Rtp_proxy/Client/Worker/external.py
index 097c99d..cce750d 100644
--- a/sippy/Rtp_proxy/Client/Worker/external.py
+++ b/sippy/Rtp_proxy/Client/Worker/external.py
@@ -72,12 +72,17 @@ class RTPPLWorker_external(Thread):
                     self.s = None
                     return self.send_raw(command, _recurse, stime, why)
                 raise why
+        rval = b''
         while True:
             try:
-                rval = self.s.recv(1024)
-                if len(rval) == 0:
+                data = self.s.recv(1024)
+                if len(data) == 0:
                     self.s = None
                     return self.send_raw(command, _recurse, stime)
+                rval += data
+                if not rval.endswith(b'\n'):
+                    # The rest of the reply is yet to come
+                    continue
                 rval = rval.decode('ascii').strip()
                 break
             except socket.error as why:
-- 
2.43.0

