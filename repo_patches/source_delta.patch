From c6ebdf613aba4e8cf1572fa370106f9b5b3182d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 01/22] fix: OCR receipts could not be parsed on Python 3

utils.b32decode() expects bytes like its Base64 siblings.
---
 librksv/receipt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 0d81c14..15a47c9 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -552,7 +552,7 @@ class Receipt(object):
 
         encTurnoverCounter = None
         try:
-            encTurnoverCounter = utils.b32decode(segments[10])
+            encTurnoverCounter = utils.b32decode(segments[10].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
@@ -560,7 +560,7 @@ class Receipt(object):
 
         previousChain = None
         try:
-            previousChain = utils.b32decode(segments[12])
+            previousChain = utils.b32decode(segments[12].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
@@ -568,7 +568,7 @@ class Receipt(object):
 
         signature = None
         try:
-            signature = utils.b32decode(segments[13])
+            signature = utils.b32decode(segments[13].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
-- 
2.43.0


From 59aaba6675476792a0ba8c5403e0f7514003ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 02/22] fix: default wrapper of DEPExporter replaced all data
 by its address

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 063f3c3..3a3eae6 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -197,7 +197,7 @@ class DEPExporter(DEPExporterI):
     which can be used to create new lists from the generators (by passing list).
     """
 
-    def __init__(self, dep_stream, output_generator_wrapper=id):
+    def __init__(self, dep_stream, output_generator_wrapper=lambda gen: gen):
         self._stream = dep_stream
         self._wrapper = output_generator_wrapper
         self._extra = dict()
-- 
2.43.0


From adafc784f2377d73f28b57eb5aaa241a7a7d92c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 03/22] fix: MergingDEPStream merged groups with different
 certificate lists

---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 3a3eae6..a89ff4f 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -100,7 +100,7 @@ class MergingDEPStream(DEPStream):
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
-                    if self.cert == cert and cert_list == cert_list:
+                    if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
-- 
2.43.0


From 647ab757c8f5c92f0290dfa674ca51e60e3f88c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 04/22] fix: work packages shared one set of used receipt IDs

Without a process pool every multi-package DEP was rejected as containing
duplicate receipt IDs.
---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index ad32b45..5c0a662 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -582,7 +582,7 @@ def prepareVerificationTuples(chunksWithVerifiers, key, prevStartJWS,
     del pkgRStates[-1]
 
     return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
-            pkgRStates, [usedRecIdsBackend()] * npkgs)
+            pkgRStates, [usedRecIdsBackend() for i in range(npkgs)])
 
 def verifyParsedDEP(parser, keyStore, key, state = None,
         cashRegisterIdx = None, pool = None, nprocs = 1,
-- 
2.43.0


From 4d34d552f4ebaf2f9c7c6c8b8b6125656ccf885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 05/22] fix: InvalidKeyException could not be passed between
 processes

---
 librksv/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 1fbde92..9efec82 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -68,6 +68,7 @@ class InvalidKeyException(RKSVException):
 
     def __init__(self):
         super(InvalidKeyException, self).__init__(_("Invalid key."))
+        self._initargs = ()
 
 def depParserChunkSize():
     """
-- 
2.43.0


From f61cd980bf5bb9685260da45f95282ee78ab7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 06/22] fix: ID of an initial receipt was not checked for
 duplicates

The verdict thus depended on whether the DEP was verified in one go or in
several packages.
---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index 5c0a662..585b3a4 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -396,8 +396,8 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
 
             cashRegisterState.startReceiptJWS = r
 
+        usedReceiptIds.check(ro.receiptId)
         if prevObj:
-            usedReceiptIds.check(ro.receiptId)
             if prevObj.registerId != ro.registerId:
                 raise ChangingRegisterIdException(ro.receiptId)
             if (prevObj.zda == 'AT0' and ro.zda != 'AT0') or (
-- 
2.43.0


From b8ae30c6e96100016cf84fa4857909131bb10a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 07/22] fix: predicted package state got a start receipt
 sequential verification never sets

verifyGroup() only records a start receipt if there is no previous receipt.
updateFromDEPGroup() also did so for states created from an arbitrary
receipt, so the resulting state depended on the number of packages.
---
 librksv/verification_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7fb81ea..7c6971b 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -386,7 +386,7 @@ class CashRegisterState(object):
         else:
             self.needRestoreReceipt = False
 
-        if not self.startReceiptJWS:
+        if not self.lastReceiptJWS:
             self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
 
         self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
-- 
2.43.0


From 1fc52127b35f1bfc6e934878e9d1b7cf467cb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 08/22] fix: natural sorting of receipt IDs crashed on
 non-ASCII digits

---
 librksv/verification_state.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7c6971b..3e85191 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -228,7 +228,13 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     # https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     @staticmethod
     def _key(recId):
-        convert = lambda text: int(text) if text.isdigit() else text.lower()
+        # str.isdigit() also matches characters the regex does not split at and
+        # int() refuses very long numbers, so compare digits by length first.
+        def convert(text):
+            if not _numSplitRegex.match(text):
+                return text.lower()
+            digits = text.lstrip('0')
+            return (len(digits), digits)
         return [ convert(c) for c in _numSplitRegex.split(recId) ]
 
     def __init__(self):
-- 
2.43.0


From f8583e602103c97638762e3982448ce5b0a9daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 09/22] fix: turnover was summed up with floating point numbers

Receipts with large amounts were rejected (or wrong counters accepted) due to
rounding and extremely large amounts caused an OverflowError.
---
 librksv/receipt.py            | 8 ++++++++
 librksv/utils.py              | 7 ++++++-
 librksv/verification_state.py | 6 ++----
 librksv/verify.py             | 3 +--
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 15a47c9..03fda64 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -718,6 +718,14 @@ class Receipt(object):
         decCtr = utils.b64decode(self.encTurnoverCounter.encode("utf-8"))
         return decCtr == b'STO'
 
+    def turnoverCents(self):
+        """
+        Calculates the exact turnover of this receipt from its sums.
+        :return: The sum of all five sums in cents as an integer.
+        """
+        return sum(int(s.replace(',', '')) for s in (self.sumAStr,
+            self.sumBStr, self.sumCStr, self.sumDStr, self.sumEStr))
+
     def isNull(self):
         """
         Determines if this receipt has zero turnover.
diff --git a/librksv/utils.py b/librksv/utils.py
index 9efec82..47952e8 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -334,10 +334,15 @@ def getReceiptFloat(fstr):
         return None
 
     try:
-        return float(fstr.replace(',', '.'))
+        ret = float(fstr.replace(',', '.'))
     except:
         return None
 
+    # too large to be represented
+    if ret in (float('inf'), float('-inf')):
+        return None
+    return ret
+
 def skipBOM(fd):
     """
     Removes the BOM from UTF-8 files so that we can live in peace.
diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 3e85191..988c4ee 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -414,8 +414,7 @@ class CashRegisterState(object):
                 reversals.insert(0, ro)
 
         for ro in reversals:
-            self.lastTurnoverCounter += int(round(
-                (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+            self.lastTurnoverCounter += ro.turnoverCents()
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -454,8 +453,7 @@ class ClusterState(object):
         dummyLastTC = 0
         if key and not rec.isDummy() and not rec.isReversal():
             curTC = rec.decryptTurnoverCounter(key, algorithm)
-            dummyLastTC = curTC - int(round((rec.sumA + rec.sumB + rec.sumC
-                + rec.sumD + rec.sumE) * 100))
+            dummyLastTC = curTC - rec.turnoverCents()
 
         dummyChain = base64.b64encode("DUMMY000".encode('utf-8'))
         dummyRec = receipt.Receipt(rec.zda, rec.registerId, "dummyrec",
diff --git a/librksv/verify.py b/librksv/verify.py
index 585b3a4..4fb3d96 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -429,8 +429,7 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
         if not ro.isDummy():
             if key is not None:
                 utils.raiseForKey(key, algorithm)
-                newC = cashRegisterState.lastTurnoverCounter + int(round(
-                    (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+                newC = cashRegisterState.lastTurnoverCounter + ro.turnoverCents()
                 if not ro.isReversal():
                     turnoverCounter = ro.decryptTurnoverCounter(key, algorithm)
                     if turnoverCounter != newC:
-- 
2.43.0


From 5e79600bf622dcfc4f528c3cd32d15a03b38c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 10/22] fix: receipt elements with trailing newline or
 non-ASCII digits were accepted

$ also matches before a trailing newline and \d matches any Unicode digit.
---
 librksv/receipt.py | 4 ++--
 librksv/utils.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 03fda64..dceac10 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -159,8 +159,8 @@ class CertSerialType(enum.Enum):
                 except ValueError as f:
                     return CertSerialType.INVALID
 
-algRegex = re.compile(r'^R[1-9]\d*$')
-zdaRegex = re.compile(r'^([A-Z][A-Z][1-9]\d*|AT0)$')
+algRegex = re.compile(r'^R[1-9][0-9]*\Z')
+zdaRegex = re.compile(r'^([A-Z][A-Z][1-9][0-9]*|AT0)\Z')
 
 def _getSum(s, receiptId, reason):
     if not isinstance(s, string_types) or not s:
diff --git a/librksv/utils.py b/librksv/utils.py
index 47952e8..8e16ba1 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -253,19 +253,19 @@ def restoreb64padding(data):
     return data
 
 
-urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}$')
+urlsafe_b64Regex = re.compile(r'^[a-zA-Z0-9_-]*={0,3}\Z')
 def urlsafe_b64decode(data):
     if not urlsafe_b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.urlsafe_b64decode(data)
 
-b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}$')
+b64Regex = re.compile(r'^[a-zA-Z0-9/+]*={0,3}\Z')
 def b64decode(data):
     if not b64Regex.match(data.decode('utf-8')):
         raise TypeError
     return base64.b64decode(data)
 
-b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}$')
+b32Regex = re.compile(r'^[A-Z2-7/+]*={0,7}\Z')
 def b32decode(data):
     if not b32Regex.match(data.decode('utf-8')):
         raise TypeError
@@ -328,7 +328,7 @@ def makeSignedCert(cpub, ccn, cvdays, cserial, spriv, scert=None):
     return builder.sign(private_key=spriv, algorithm=hashes.SHA256(),
             backend=default_backend())
 
-receiptFloatRegex = re.compile(r'^-?([1-9]\d+|\d)\,\d\d$')
+receiptFloatRegex = re.compile(r'^-?([1-9][0-9]+|[0-9])\,[0-9][0-9]\Z')
 def getReceiptFloat(fstr):
     if receiptFloatRegex.match(fstr) is None:
         return None
-- 
2.43.0


From d76f41e68f895ee7b53420478bc08dad63bb7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 11/22] fix: DictDEPParser crashed on or accepted receipt lists
 of the wrong type

---
 librksv/depparser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d76bea3..7c9a021 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -341,7 +341,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except TypeError:
+    except (TypeError, AttributeError, UnicodeEncodeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
@@ -602,7 +602,7 @@ class DictDEPParser(DEPParserI):
 
         cert_str = group['Signaturzertifikat']
         cert_str_list = group['Zertifizierungsstellen']
-        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
+        rec_list = group['Belege-kompakt']
 
         if not isinstance(cert_str, string_types):
             raise MalformedDEPElementException('Signaturzertifikat',
@@ -610,12 +610,11 @@ class DictDEPParser(DEPParserI):
         if not isinstance(cert_str_list, list):
             raise MalformedDEPElementException('Zertifizierungsstellen',
                     _('not a list'), idx)
-        try:
-            iter(receipts)
-        except TypeError:
+        if not isinstance(rec_list, list):
             raise MalformedDEPElementException('Belege-kompakt',
                     _('not a list'), idx)
 
+        receipts = (shrinkDEPReceipt(r) for r in rec_list)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
 
-- 
2.43.0


From 47bb4bff7045e14eaf6c320f6105b2b465241b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 12/22] fix: FileDEPParser crashed if a group lacks certificate
 elements

---
 librksv/depparser.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 7c9a021..a0412a8 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -538,10 +538,19 @@ class FileDEPParser(IncrementalDEPParser):
         return items
 
     def _needCerts(self, state, chunksize, groupidx):
-        cert_str = self.__getItems(
-                'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
-        cert_str_list = self.__getItems(
-                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        try:
+            cert_str = self.__getItems(
+                    'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
+        except IndexError:
+            raise MissingDEPElementException('Signaturzertifikat', groupidx)
+        try:
+            cert_str_list = self.__getItems(
+                    'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        except IndexError:
+            raise MissingDEPElementException('Zertifizierungsstellen', groupidx)
+        if not isinstance(cert_str_list, list):
+            raise MalformedDEPElementException('Zertifizierungsstellen',
+                    _('not a list'), groupidx)
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
         state.setCrt(cert, cert_list)
-- 
2.43.0


From bfcded1bf2c51b43613bf6f37f40f86a0055f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 13/22] fix: StreamDEPParser reported an empty signing
 certificate as missing

A DEP without signing certificate was rejected as soon as a chunk was full.
---
 librksv/depparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index a0412a8..e94b342 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -165,6 +165,7 @@ class DEPStateWithIncompleteData(DEPStateWithData):
     class WIPData(object):
         def __init__(self):
             self.cert = None
+            self.cert_known = False
             self.cert_chain = None
             self.recs = list()
 
@@ -177,12 +178,13 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         self.idx = idx
 
     def needCrt(self):
-        if self.wip.cert is None or self.wip.cert_chain is None:
+        if not self.wip.cert_known or self.wip.cert_chain is None:
             return self.idx
         return None
 
     def setCrt(self, cert, cert_chain):
         self.wip.cert = cert
+        self.wip.cert_known = True
         self.wip.cert_chain = cert_chain
 
     def mergeIntoChunk(self):
@@ -283,6 +285,7 @@ class DEPStateGroup(DEPStateWithIncompleteData):
                         _('not a string'), self.idx)
             self.cert_seen = True
             self.wip.cert = parseDEPCert(value) if value != '' else None
+            self.wip.cert_known = True
 
         elif prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
             if self.cert_list_seen:
-- 
2.43.0


From 05bdf50226c26736d6a383f00631b264a5122a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 14/22] fix: reading a key store crashed on a certificate with
 empty ID

---
 librksv/key_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index f2c2742..c43f1db 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -195,7 +195,7 @@ def strSerialToKeyIds(serial):
     empty if the serial is invalid.
     """
     # for some reason the ref impl has a negative serial on some certs
-    if serial[0] == '-':
+    if serial.startswith('-'):
         serial = serial[1:]
 
     validKeyIds = list()
-- 
2.43.0


From 8d0296ed7545cf3b48c8b61c0fb43362371b1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 15/22] fix: receipts containing lone surrogates caused a
 UnicodeEncodeError

---
 librksv/receipt.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index dceac10..db4b54d 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -315,6 +315,11 @@ class Receipt(object):
         if not isinstance(jwsString, string_types):
             raise MalformedReceiptException(jwsString, _('Invalid JWS.'))
 
+        try:
+            jwsString.encode('utf-8')
+        except UnicodeEncodeError:
+            raise MalformedReceiptException(jwsString, _('Invalid JWS.'))
+
         jwsSegs = jwsString.split('.')
         if len(jwsSegs) != 3:
             raise MalformedReceiptException(jwsString,
@@ -453,6 +458,11 @@ class Receipt(object):
             raise MalformedReceiptException(basicCode,
                     _('Invalid machine-readable code.'))
 
+        try:
+            basicCode.encode('utf-8')
+        except UnicodeEncodeError:
+            raise MalformedReceiptException(basicCode, _('Invalid machine-readable code.'))
+
         segments = basicCode.split('_')
         if len(segments) != 14 or len(segments[0]) != 0:
             raise MalformedReceiptException(basicCode,
@@ -545,6 +555,11 @@ class Receipt(object):
             raise MalformedReceiptException(ocrCode,
                     _('Invalid OCR code.'))
 
+        try:
+            ocrCode.encode('utf-8')
+        except UnicodeEncodeError:
+            raise MalformedReceiptException(ocrCode, _('Invalid OCR code.'))
+
         segments = ocrCode.split('_')
         if len(segments) != 14 or len(segments[0]) != 0:
             raise MalformedReceiptException(ocrCode,
-- 
2.43.0


From 219686992d1fd72cd4d85f8f6d6c673a4f409ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 16/22] fix: certificates signed without a hash algorithm
 crashed verifyCert

---
 librksv/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index 8e16ba1..c8c4db3 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -206,6 +206,10 @@ def verifyCert(cert, signCert):
     """
     # FIXME: This is very likely wrong and we should find a better way to verify certs.
     halg = cert.signature_hash_algorithm
+    if halg is None:
+        # signature algorithms like Ed25519 do not use a separate hash
+        return False
+
     sig = cert.signature
     data = cert.tbs_certificate_bytes
 
-- 
2.43.0


From b2917395427c370fb4720b8e862e87dbe4f45412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 17/22] fix: a non-EC public key made R1.verify raise TypeError

---
 librksv/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index c0b9d1d..129acfb 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -189,7 +189,8 @@ class R1(AlgorithmI):
         payload = None
         try:
             payload = jwt.PyJWS().decode(jwsString, pubKey)
-        except jwt.exceptions.DecodeError as e:
+        except (jwt.exceptions.DecodeError, TypeError) as e:
+            # PyJWT raises a TypeError for anything but elliptic curve keys.
             pass
 
         if payload:
-- 
2.43.0


From 7d19fee28c6b97b920d3ca481730256aaa972018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 18/22] fix: invalid UTF-8 crashed the incremental DEP parsers

---
 librksv/depparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index e94b342..46bf4cf 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -472,7 +472,7 @@ class IncrementalDEPParser(DEPParserI):
                 yield last
             elif not got_something:
                 raise MalformedDEPException(_('No receipts found'))
-        except ijson.JSONError as e:
+        except (ijson.JSONError, UnicodeDecodeError) as e:
             raise DEPParseException(_('Malformed JSON: {}.').format(e))
 
 
-- 
2.43.0


From 524b20631625f6c09a343f2c84d98ac802dd8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 19/22] fix: key stores with non-EC keys could not be passed to
 other processes

---
 librksv/key_store.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index c43f1db..3920a6b 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -271,6 +271,24 @@ class KeyStore(KeyStoreI):
         cp.keydict = copy.copy(self.keydict)
         return cp
 
+    # Key objects other than EC keys cannot be pickled. Thus, we pickle the
+    # PEM representation to be able to use the key store in other processes.
+    def __getstate__(self):
+        keys = [(keyId,
+                 utils.exportKeyToPEM(kt.key) if kt.key else None,
+                 utils.exportCertToPEM(kt.cert) if kt.cert else None)
+                for keyId, kt in self.keydict.items()]
+        return { 'keys': keys }
+
+    def __setstate__(self, state):
+        self.keydict = dict()
+        for keyId, key, cert in state['keys']:
+            if key:
+                key = utils.loadPubKey(utils.addPEMPubKeyHeaders(key))
+            if cert:
+                cert = utils.loadCert(utils.addPEMCertHeaders(cert))
+            self.putKey(keyId, key, cert)
+
     def __init__(self):
         self.keydict = dict()
 
-- 
2.43.0


From 55cde3ae1239382d95cb8b0c836e06ca5130079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 20/22] fix: groups of a merging stream took receipts that
 belong to later groups

A group tuple read after its successor was handed out continued with the next
group that has the same certificates, although it does not follow directly.
Groups appended after the last group was read to its end were added to that
finished group, so their receipts were never seen.
---
 librksv/depexport.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index a89ff4f..f5e5b4e 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -98,10 +98,15 @@ class MergingDEPStream(DEPStream):
                 try:
                     return next(self._backing)
                 except StopIteration:
+                    if self._outer._last is not self:
+                        # this group is over, what follows belongs to others
+                        raise
+                    self._outer._last = None
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
                     if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
+                        self._outer._last = self
                         self.extend(rec_tuples)
                         continue
                     # no additional receipts, reinsert extracted group and stop
-- 
2.43.0


From 709e1119efe0451dead3e957a4c3d20d32980990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:01 +0000
Subject: [PATCH 21/22] fix: deeply nested JSON files raised RecursionError

---
 librksv/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index c8c4db3..e9dd76f 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -374,7 +374,11 @@ def readJsonStream(stream):
     Read a JSON file that may or may not have a BOM.
     """
     skipBOM(stream)
-    return json.load(stream)
+    try:
+        return json.load(stream)
+    except RuntimeError:
+        # recursion limit reached, RecursionError where that exists
+        raise ValueError(_('JSON is nested too deeply'))
 
 def cert_getstate(self):
     return exportCertToPEM(self)
-- 
2.43.0


From 75fc69ff7a4eb783fe2bc22ab92af1a1a18a875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:37 +0000
Subject: [PATCH 22/22] fix: a wrongly typed or undecodable AES key in a key
 store document raised internal errors

---
 librksv/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index e9dd76f..d3ad7ab 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -95,14 +95,24 @@ def loadKeyFromJson(json):
     :param json: The JSON data.
     :return: The key as a byte list or None if there is no key element in
     the JSON.
+    :throws: InvalidKeyException
     """
+    if not isinstance(json, dict):
+        raise InvalidKeyException()
+
     b64Key = None
     try:
         b64Key = json['base64AESKey']
     except KeyError:
         return None
 
-    return loadB64Key(b64Key.encode('utf-8'))
+    if not isinstance(b64Key, six.string_types):
+        raise InvalidKeyException()
+
+    try:
+        return loadB64Key(b64Key.encode('utf-8'))
+    except (TypeError, ValueError):
+        raise InvalidKeyException()
 
 def sha256(data):
     """
-- 
2.43.0

