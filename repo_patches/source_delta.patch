From 33b8a648af676dcebe57dbcfbf22c7e657e2079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:37 +0000
Subject: [PATCH 01/43] fix: use integer division for sizes and offsets on
 Python 3

2to3 left '/' in place, so every key generation and every block, base64
and bit-string computation raised 'float object cannot be interpreted as
an integer'.
---
 python/src/keyczar/keyinfo.py |  6 +++---
 python/src/keyczar/keys.py    |  8 ++++----
 python/src/keyczar/util.py    | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/src/keyczar/keyinfo.py b/python/src/keyczar/keyinfo.py
index 3a02d87..d033bc9 100644
--- a/python/src/keyczar/keyinfo.py
+++ b/python/src/keyczar/keyinfo.py
@@ -125,10 +125,10 @@ class CipherMode(_NameId):
     self.use_iv = use_iv
     self.GetOutputSize = OutputSizeFn
 
-CBC = CipherMode("CBC", 0, True, lambda b, i: (i / b + 2) * b)
-CTR = CipherMode("CTR", 1, True, lambda b, i: i + b / 2)
+CBC = CipherMode("CBC", 0, True, lambda b, i: (i // b + 2) * b)
+CTR = CipherMode("CTR", 1, True, lambda b, i: i + b // 2)
 ECB = CipherMode("ECB", 2, False, lambda b, i: b)
-DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i / b + 1) * b)
+DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i // b + 1) * b)
 modes = {"CBC": CBC, "CTR": CTR, "ECB": ECB, "DET_CBC": DET_CBC}
 
 def GetMode(name):
diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7a91f0d..e86ba29 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -354,7 +354,7 @@ class AesKey(SymmetricKey):
     @return: an AES key
     @rtype: L{AesKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size
     return AesKey(key_string, hmac_key, size)
@@ -419,7 +419,7 @@ class AesKey(SymmetricKey):
     @return: best buffer size
     @rtype: int
     """
-    no_pad_size = self.block_size * (buffer_size / self.block_size)
+    no_pad_size = self.block_size * (buffer_size // self.block_size)
     return max(no_pad_size, self.block_size)
 
   def Encrypt(self, data):
@@ -521,7 +521,7 @@ class HmacKey(SymmetricKey):
     @return: an HMAC-SHA1 key
     @rtype: L{HmacKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     return HmacKey(key_string, size)
 
@@ -850,7 +850,7 @@ class RsaPrivateKey(PrivateKey):
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
     byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
-    return util.PadBytes(byte_string, self.size/8 - len(byte_string))
+    return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
     """@see: L{RsaPublicKey.Verify}"""
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d06dced..088fe41 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -246,13 +246,13 @@ def MakeEmsaMessage(msg, modulus_size):
   magic_sha1_header = [0x30, 0x21, 0x30, 0x9, 0x6, 0x5, 0x2b, 0xe, 0x3, 0x2,
                        0x1a, 0x5, 0x0, 0x4, 0x14]
   encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
-  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
+  pad_string = chr(0xFF) * (modulus_size // 8 - len(encoded) - 3)
   return chr(1) + pad_string + chr(0) + encoded
 
 def BinToBytes(bits):
   """Convert bit string to byte string."""
   bits = _PadByte(bits)
-  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) / 8)]
+  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) // 8)]
   return "".join([chr(int(x, 2)) for x in octets])
 
 def BytesToBin(byte_string):
@@ -268,9 +268,9 @@ def IntToBin(n):
   if n == 0 or n == 1:
     return str(n)
   elif n % 2 == 0:
-    return IntToBin(n / 2) + "0"
+    return IntToBin(n // 2) + "0"
   else:
-    return IntToBin(n / 2) + "1"
+    return IntToBin(n // 2) + "1"
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
@@ -531,7 +531,7 @@ class BufferedIncrementalBase64WSEncoder(codecs.BufferedIncrementalEncoder):
     # and return an (output, length consumed) tuple
     if not final:
       # only output exact multiples of 3-bytes => no padding
-      len_to_write = 3 * (len(input) / 3)
+      len_to_write = 3 * (len(input) // 3)
     else:
       len_to_write = len(input)
     return (Base64WSEncode(input[:len_to_write]), len_to_write)
@@ -658,7 +658,7 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     """
     if not final:
       # only output exact multiples of 4-bytes => no padding
-      len_to_read = 4 * (len(input) / 4)
+      len_to_read = 4 * (len(input) // 4)
     else:
       len_to_read = len(input)
     return (Base64WSDecode(input[:len_to_read]), len_to_read)
-- 
2.43.0


From 0a47f87f9de40ff8bbac3cd341f92703dc49ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 02/43] fix: keep byte strings and library bytes apart in util
 on Python 3

Byte strings are str objects with one byte per character throughout the
package and its tests; hashlib, base64, struct, os.urandom and pyasn1 need
and return bytes. Convert at those calls, and report undecodable base64 as
Base64DecodingError.
---
 python/src/keyczar/util.py | 58 +++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 088fe41..6a6a597 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -95,6 +95,18 @@ DEFAULT_STREAM_BUFF_SIZE = 4096
 # environment variable that holds a list of additional plugin backend paths
 BACKEND_PATHS_ENV_VAR = 'KEYCZAR_BACKEND_PATHS'
 
+# Keyczar byte strings are str objects holding one byte (0-255) per character.
+# These convert them at the boundary to libraries that need bytes.
+def ToBytes(byte_string):
+  """Return the bytes object for the given byte string."""
+  if isinstance(byte_string, bytes):
+    return byte_string
+  return byte_string.encode("latin-1")
+
+def FromBytes(raw):
+  """Return the byte string for the given bytes object."""
+  return raw.decode("latin-1")
+
 def ASN1Sequence(*vals):
   seq = univ.Sequence()
   for i in range(len(vals)):
@@ -119,7 +131,7 @@ def ParseASN1Sequence(seq):
 #
 #Attributes ::= SET OF Attribute
 def ParsePkcs8(pkcs8):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(pkcs8))[0])
+  seq = ParseASN1Sequence(decoder.decode(ToBytes(Base64WSDecode(pkcs8)))[0])
   if len(seq) != 3:  # need three fields in PrivateKeyInfo
     raise errors.KeyczarError("Illegal PKCS8 String.")
   version = int(seq[0])
@@ -168,14 +180,13 @@ def ExportDsaPkcs8(params):
 #        algorithm            AlgorithmIdentifier,
 #        subjectPublicKey     BIT STRING  }
 def ParseX509(x509):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(x509))[0])
+  seq = ParseASN1Sequence(decoder.decode(ToBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
   [oid, alg_params] = ParseASN1Sequence(seq[0])
-  pubkey = decoder.decode(univ.OctetString(BinToBytes(seq[1].
-                                                      prettyPrint()[2:-3])))[0]
-  # Component 1 should be a BIT STRING, get raw bits by discarding extra chars,
-  # then convert to OCTET STRING which can be ASN.1 decoded
+  pubkey = decoder.decode(univ.OctetString(seq[1].asOctets()))[0]
+  # Component 1 should be a BIT STRING, get its raw octets and convert to
+  # OCTET STRING which can be ASN.1 decoded
   params = {}
   if oid == RSA_OID:
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
@@ -191,7 +202,7 @@ def ParseX509(x509):
 def ExportRsaX509(params):
   oid = ASN1Sequence(RSA_OID, univ.Null())
   key = ASN1Sequence(univ.Integer(params['n']), univ.Integer(params['e']))
-  binkey = BytesToBin(encoder.encode(key))
+  binkey = BytesToBin(FromBytes(encoder.encode(key)))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
@@ -201,7 +212,7 @@ def ExportDsaX509(params):
                             univ.Integer(params['q']),
                             univ.Integer(params['g']))
   oid = ASN1Sequence(DSA_OID, alg_params)
-  binkey = BytesToBin(encoder.encode(univ.Integer(params['y'])))
+  binkey = BytesToBin(FromBytes(encoder.encode(univ.Integer(params['y']))))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
@@ -220,7 +231,7 @@ def MakeDsaSig(r, s):
   @rtype: string
   """
   seq = ASN1Sequence(univ.Integer(r), univ.Integer(s))
-  return encoder.encode(seq)
+  return FromBytes(encoder.encode(seq))
 
 def ParseDsaSig(sig):
   """
@@ -234,7 +245,7 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(sig)[0]
+  seq = decoder.decode(ToBytes(sig))[0]
   if len(seq) != 2:
     raise errors.KeyczarError("Illegal DSA signature.")
   r = int(seq.getComponentByPosition(0))
@@ -318,22 +329,22 @@ def TrimBytes(byte_string):
 def RandBytes(n):
   """Return n random bytes."""
   # This function requires at least Python 2.4.
-  return os.urandom(n)
+  return FromBytes(os.urandom(n))
 
 def Hash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(i)
-  return md.digest()
+    md.update(ToBytes(i))
+  return FromBytes(md.digest())
 
 def PrefixHash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(IntToBytes(len(i)))
-    md.update(i)
-  return md.digest()
+    md.update(ToBytes(IntToBytes(len(i))))
+    md.update(ToBytes(i))
+  return FromBytes(md.digest())
 
 
 def Encode(s):
@@ -354,7 +365,7 @@ def Base64WSEncode(s):
   @return: Base64 representation of s.
   @rtype: string
   """
-  return base64.urlsafe_b64encode(str(s)).replace("=", "")
+  return FromBytes(base64.urlsafe_b64encode(ToBytes(s))).replace("=", "")
 
 
 def Decode(s):
@@ -388,9 +399,9 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return base64.urlsafe_b64decode(s)
-  except TypeError:
-    # Decoding raises TypeError if s contains invalid characters.
+    return FromBytes(base64.urlsafe_b64decode(s))
+  except (TypeError, ValueError):
+    # Decoding raises TypeError (ValueError on Python 3) if s is not valid.
     raise errors.Base64DecodingError()
 
 # Struct packed byte array format specifiers used below
@@ -404,7 +415,7 @@ def PackByteArray(array):
   """
   if array is None:
     return ''
-  array_length_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array))
+  array_length_header = FromBytes(struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array)))
   return array_length_header + array
 
 def PackMultipleByteArrays(*arrays):
@@ -414,7 +425,7 @@ def PackMultipleByteArrays(*arrays):
   four-byte big-endian integer, followed by the arrays in sequence, each
   length-prefixed by PackByteArray().
   """
-  array_count_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
+  array_count_header = FromBytes(struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays)))
   array_contents = ''.join([PackByteArray(a) for a in arrays])
   return array_count_header + array_contents
 
@@ -424,7 +435,8 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
-  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER, data[offset:offset + 4])[0]
+  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
+                            ToBytes(data[offset:offset + 4]))[0]
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
-- 
2.43.0


From e14d95963e048b665f4c701498e6dea4b5d39d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 03/43] fix: keep byte strings and library bytes apart in keys
 on Python 3

Same conversion at the hmac, AES, RSA and DSA library calls, without which
every sign, verify, encrypt and decrypt raised TypeError.
---
 python/src/keyczar/keys.py | 51 ++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e86ba29..e2dabea 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -199,12 +199,21 @@ class AesKey(SymmetricKey):
       @param mode: the cipher mode
       @type mode: integer (using AES values, e.g. AES.MODE_CBC)
       """
-      self.cipher = AES.new(key_bytes, mode, iv_bytes)
+      self.cipher = AES.new(util.ToBytes(key_bytes), mode,
+                            util.ToBytes(iv_bytes))
 
     def __getattr__(self, name):
       # defer everything to the actual cipher instance
       return getattr(self.cipher, name)
 
+    def decrypt(self, string):
+      """Return decrypted byte string, see L{EVPAdaptor.decrypt}"""
+      return util.FromBytes(self.cipher.decrypt(util.ToBytes(string)))
+
+    def encrypt(self, string):
+      """Return encrypted byte string, see L{EVPAdaptor.encrypt}"""
+      return util.FromBytes(self.cipher.encrypt(util.ToBytes(string)))
+
     def final(self):
       """
       Collect any remaining encrypted data i.e. non-block size conforming
@@ -279,8 +288,8 @@ class AesKey(SymmetricKey):
           # EVP requires different mode strings for each key size (in bits)
           mode = 'aes_%s_cbc' %(self.key_size*8)
           cipher = EVP.Cipher(alg=mode,
-                              key=self.key_bytes, 
-                              iv=self.IV,
+                              key=util.ToBytes(self.key_bytes),
+                              iv=util.ToBytes(self.IV),
                               op=selector,
                               padding=0
                              )
@@ -297,7 +306,8 @@ class AesKey(SymmetricKey):
       @return: plaintext string
       @rtype: string
       """
-      return self.__Cipher(self.OP_DECRYPT).update(string)
+      return util.FromBytes(
+          self.__Cipher(self.OP_DECRYPT).update(util.ToBytes(string)))
 
     def encrypt(self, string):
       """
@@ -309,7 +319,8 @@ class AesKey(SymmetricKey):
       @return: raw byte encrypted string  
       @rtype: string
       """
-      return self.__Cipher(self.OP_ENCRYPT).update(string)
+      return util.FromBytes(
+          self.__Cipher(self.OP_ENCRYPT).update(util.ToBytes(string)))
 
     def final(self, selector=OP_ACTIVE):
       """
@@ -317,7 +328,7 @@ class AesKey(SymmetricKey):
 
       @return: remaining encrypted data, if any
       """
-      return self.__Cipher(selector).final()
+      return util.FromBytes(self.__Cipher(selector).final())
 
   def __init__(self, key_string, hmac_key, size=keyinfo.AES.default_size,
                mode=keyinfo.CBC):
@@ -549,7 +560,8 @@ class HmacKey(SymmetricKey):
     @return: raw byte string signature
     @rtype: string
     """
-    return hmac.new(self.key_bytes, msg, sha1).digest()
+    return util.FromBytes(
+        hmac.new(util.ToBytes(self.key_bytes), util.ToBytes(msg), sha1).digest())
 
   def Verify(self, msg, sig_bytes):
     """
@@ -591,10 +603,10 @@ class HmacKeyStream(object):
 
   def __init__(self, hmac_key):
     self.hmac_key = hmac_key
-    self.hmac = hmac.new(self.hmac_key.key_bytes, '', sha1)
+    self.hmac = hmac.new(util.ToBytes(self.hmac_key.key_bytes), b'', sha1)
 
   def Update(self, data):
-      self.hmac.update(data)
+      self.hmac.update(util.ToBytes(data))
 
   def Sign(self):
     """
@@ -603,7 +615,7 @@ class HmacKeyStream(object):
     @return: raw byte string signature
     @rtype: string
     """
-    return self.hmac.digest()
+    return util.FromBytes(self.hmac.digest())
 
 
 class PrivateKey(AsymmetricKey):
@@ -649,7 +661,7 @@ class DsaPrivateKey(PrivateKey):
     @return: a DSA private key
     @rtype: L{DsaPrivateKey}
     """
-    key = DSA.generate(size, util.RandBytes)
+    key = DSA.generate(size, lambda n: util.ToBytes(util.RandBytes(n)))
     params = { 'x': util.PadBytes(util.BigIntToBytes(key.x), 1) }
     pubkey = key.publickey()
     pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
@@ -694,7 +706,7 @@ class DsaPrivateKey(PrivateKey):
     # Need to chose a random k per-message, SystemRandom() is available
     # since Python 2.4.
     k = random.SystemRandom().randint(2, self.key.q-1)
-    (r, s) = self.key.sign(util.Hash(msg), k)
+    (r, s) = self.key.sign(util.ToBytes(util.Hash(msg)), k)
     return util.MakeDsaSig(r, s)
 
   def Verify(self, msg, sig):
@@ -775,7 +787,7 @@ class RsaPrivateKey(PrivateKey):
     @return: a RSA private key
     @rtype: L{RsaPrivateKey}
     """
-    key = RSA.generate(size, util.RandBytes)
+    key = RSA.generate(size, lambda n: util.ToBytes(util.RandBytes(n)))
     #NOTE: PyCrypto stores p < q, u = p^{-1} mod q
     #But OpenSSL and PKCS8 stores q < p, invq = q^{-1} mod p
     #So we have to reverse the p and q values
@@ -835,7 +847,7 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    decrypted = self.key.decrypt(ciph_bytes)
+    decrypted = util.FromBytes(self.key.decrypt(util.ToBytes(ciph_bytes)))
     return self.__Decode(decrypted)
 
   def Sign(self, msg):
@@ -849,7 +861,7 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
-    byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
+    byte_string = util.BigIntToBytes(self.key.sign(util.ToBytes(emsa_encoded), None)[0])
     return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
@@ -919,7 +931,7 @@ class DsaPublicKey(PublicKey):
     """
     try:
       (r, s) = util.ParseDsaSig(sig)
-      return self.key.verify(util.Hash(msg), (r, s))
+      return self.key.verify(util.ToBytes(util.Hash(msg)), (r, s))
     except errors.KeyczarError:
       # if signature is not in correct format
       return False
@@ -998,7 +1010,8 @@ class RsaPublicKey(PublicKey):
     @rtype: string
     """
     data = self.__Encode(data)
-    ciph_bytes = self.key.encrypt(data, None)[0]  # PyCrypto returns 1-tuple
+    ciph_bytes = util.FromBytes(
+        self.key.encrypt(util.ToBytes(data), None)[0])  # PyCrypto returns 1-tuple
     return self.Header() + ciph_bytes
 
   def Verify(self, msg, sig):
@@ -1015,7 +1028,9 @@ class RsaPublicKey(PublicKey):
     @rtype: boolean
     """
     try:
-      return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
+      return self.key.verify(
+          util.ToBytes(util.MakeEmsaMessage(msg, self.size)),
+          (util.BytesToLong(sig),))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
-- 
2.43.0


From 062cc5e6d3b413f9b9f6fba91a007e86dd839561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 04/43] fix: buffer byte strings in the base64 stream reader on
 Python 3

codecs' base classes start with bytes buffers, so the first read raised
TypeError.
---
 python/src/keyczar/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 6a6a597..a664c95 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -650,6 +650,10 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
   undecoded data outside this optimal size will be buffered.
   """
 
+  def __init__(self, errors='strict'):
+    super(BufferedIncrementalBase64WSDecoder, self).__init__(errors)
+    self.buffer = ''  # a byte string, the base class starts with bytes
+
   def _buffer_decode(self, input, errors, final):
     """
     Decodes input and returns the resulting object, buffering any data that is
@@ -739,6 +743,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
 
     """
     super(IncrementalBase64WSStreamReader, self).__init__(stream, errors)
+    self.bytebuffer = ''  # a byte string, the base class starts with bytes
     self.decoder = BufferedIncrementalBase64WSDecoder(errors=errors)
 
   def read(self, size=-1, chars=-1, firstline=False):
-- 
2.43.0


From a3db2f62951de80e5d70a43a7c8676fb188c783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 05/43] fix: use the selected crypt library for AES decryption
 and streams

Encrypt() honoured ACTIVE_CRYPT_LIB but Decrypt() and both streams always
used PyCrypto, whose AES does not run on Python 3.12; EVPAdaptor.decrypt()
was never reached.
---
 python/src/keyczar/keys.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e2dabea..8199a99 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -445,7 +445,7 @@ class AesKey(SymmetricKey):
     """
     data = self._Pad(data)
     iv_bytes = util.RandBytes(self.block_size)
-    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
     ciph_bytes = cipher.encrypt(data)
     ciph_bytes += cipher.final()
     msg_bytes = self.Header() + iv_bytes + ciph_bytes
@@ -476,10 +476,11 @@ class AesKey(SymmetricKey):
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
 
-    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
+    plain = cipher.decrypt(ciph_bytes)
     return self._UnPad(plain)
 
-  def __CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
+  def _CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
     """
     Factory function for creating cipher of specified type using the active
     crypto library
@@ -1059,7 +1060,7 @@ class EncryptingStreamWriter(object):
 
     self.__hmac_stream = key.hmac_key.CreateStreamable()
     iv_bytes = util.RandBytes(key.block_size)
-    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
+    self.__cipher = key._CreateCipher(key.key_bytes, iv_bytes)
 
     hdr = key.Header()
     self.__hmac_stream.Update(hdr + iv_bytes)
@@ -1317,6 +1318,6 @@ class DecryptingStreamReader(object):
         self.__encrypted_buffer = self.__encrypted_buffer[
             reqd_block_size:]
         self.__hmac_stream.Update(iv_bytes)
-        self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
+        self.__cipher = self.__key._CreateCipher(self.__key.key_bytes, iv_bytes)
     return is_data_avail
 
-- 
2.43.0


From 232d47756c8b74ec8e995888a20048186f649aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:03 +0000
Subject: [PATCH 06/43] fix: give PyCrypto a working random source on Python
 3.8 and later

---
 python/src/keyczar/keys.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 8199a99..9edb2ea 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -24,12 +24,14 @@ of base class Key.
 import hmac
 import math
 import random
+import sys
 try:
   # Import hashlib if Python >= 2.5
   from hashlib import sha1
 except ImportError:
   import sha as sha1
 
+from Crypto import Random
 from Crypto.Cipher import AES
 from Crypto.PublicKey import DSA
 from Crypto.PublicKey import RSA
@@ -52,6 +54,17 @@ from . import keyczar
 from . import keyinfo
 from . import util
 
+class _SystemRandom(object):
+  """Source of random bytes for PyCrypto, with the interface it expects."""
+
+  @staticmethod
+  def read(n):
+    return util.ToBytes(util.RandBytes(n))
+
+# PyCrypto's own generator depends on time.clock(), which Python 3.8 removed.
+if sys.version_info >= (3, 8):
+  Random.new = _SystemRandom
+
 #TODO: Note that simplejson deals in Unicode strings. So perhaps we should
 #modify all Read() methods to wrap data obtained from simplejson with str().
 #Currently, only problem arose with base64 conversions -- this was dealt with
-- 
2.43.0


From c378bb1237bd91708f6b4f5c090c8124b7c97183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:51 +0000
Subject: [PATCH 07/43] fix: ignore characters outside the base64 alphabet when
 decoding, as on Python 2

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index a664c95..9db802c 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -399,7 +399,7 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return FromBytes(base64.urlsafe_b64decode(s))
+    return FromBytes(base64.urlsafe_b64decode(ToBytes(s)))
   except (TypeError, ValueError):
     # Decoding raises TypeError (ValueError on Python 3) if s is not valid.
     raise errors.Base64DecodingError()
-- 
2.43.0


From a2e144cd535c0a4b0859c363eeb4540919eab195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:51 +0000
Subject: [PATCH 08/43] fix: raise NoPrimaryKeyError when a key set has no
 primary key

---
 python/src/keyczar/keyczar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index af20330..e1faac3 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -68,7 +68,7 @@ class Keyczar(object, metaclass=util.ABCMeta):
   versions = property(lambda self: [k for k in list(self._keys.keys())
                                     if isinstance(k, keydata.KeyVersion)],
                       doc="""List of versions in key set.""")
-  primary_key = property(lambda self: self.GetKey(self.primary_version),
+  primary_key = property(lambda self: self._GetPrimaryKey(),
                          doc="""The primary key for this key set.""")
 
   def __str__(self):
@@ -125,6 +125,11 @@ class Keyczar(object, metaclass=util.ABCMeta):
     except KeyError:
       raise errors.KeyNotFoundError(key_id)
 
+  def _GetPrimaryKey(self):
+    if self.primary_version is None:
+      raise errors.NoPrimaryKeyError()
+    return self.GetKey(self.primary_version)
+
   def _AddKey(self, version, key):
     self._keys[version] = self._keys[key.hash_id] = key
     self.metadata.AddVersion(version)
-- 
2.43.0


From 5ef9338122e4c1248b02c63e34b8dbd66677591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:51 +0000
Subject: [PATCH 09/43] fix: report malformed DSA signatures as KeyczarError

---
 python/src/keyczar/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 9db802c..496011b 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -51,6 +51,7 @@ except ImportError:
 
 from pyasn1.codec.der import decoder
 from pyasn1.codec.der import encoder
+from pyasn1 import error
 from pyasn1.type import univ
 
 from . import errors
@@ -245,11 +246,14 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(ToBytes(sig))[0]
-  if len(seq) != 2:
+  try:
+    seq = decoder.decode(ToBytes(sig))[0]
+    if len(seq) != 2:
+      raise errors.KeyczarError("Illegal DSA signature.")
+    r = int(seq.getComponentByPosition(0))
+    s = int(seq.getComponentByPosition(1))
+  except (error.PyAsn1Error, AttributeError, TypeError, ValueError):
     raise errors.KeyczarError("Illegal DSA signature.")
-  r = int(seq.getComponentByPosition(0))
-  s = int(seq.getComponentByPosition(1))
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From 65482cbfdc46a184523da94400848cbd9b4f4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:51 +0000
Subject: [PATCH 10/43] fix: reject packed byte arrays whose length does not
 fit the data

---
 python/src/keyczar/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 496011b..c00e01a 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -439,9 +439,13 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
+  if len(data) < offset + 4:
+    raise errors.KeyczarError("Packed byte array is too short.")
   array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                             ToBytes(data[offset:offset + 4]))[0]
   offset += 4
+  if array_len < 0 or array_len > len(data) - offset:
+    raise errors.KeyczarError("Packed byte array has an invalid length.")
   return data[offset:offset + array_len], offset + array_len
 
 def UnpackMultipleByteArrays(data):
-- 
2.43.0


From 9d453ccb90e9fd2594a36c0bb89dd3b0d1768ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:51 +0000
Subject: [PATCH 11/43] fix: report an OAEP block without a delimiter as
 KeyczarError

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 9edb2ea..5a38491 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -775,7 +775,7 @@ class RsaPrivateKey(PrivateKey):
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[0] != '\x01':
+    if delimited_message[:1] != '\x01':
       raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
     return delimited_message[1:]  # The message
 
-- 
2.43.0


From 0a5143e268ea625f2b110909047e2878411f4d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:51 +0000
Subject: [PATCH 12/43] fix: keep leading zero bytes of RSA ciphertexts

---
 python/src/keyczar/keys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 5a38491..4f34a5e 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1026,6 +1026,8 @@ class RsaPublicKey(PublicKey):
     data = self.__Encode(data)
     ciph_bytes = util.FromBytes(
         self.key.encrypt(util.ToBytes(data), None)[0])  # PyCrypto returns 1-tuple
+    # PyCrypto strips leading zero bytes, PKCS#1 ciphertexts are modulus sized.
+    ciph_bytes = util.PadBytes(ciph_bytes, len(data) - len(ciph_bytes))
     return self.Header() + ciph_bytes
 
   def Verify(self, msg, sig):
-- 
2.43.0


From 39bc49c5c196146a25db17d6823fd80fd0ced936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:51 +0000
Subject: [PATCH 13/43] fix: drop revoked keys from the in-memory key set

---
 python/src/keyczar/keyczar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index e1faac3..44e4d63 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -252,6 +252,8 @@ class GenericKeyczar(Keyczar):
     version = self.metadata.GetVersion(version_number)
     if version.status == keyinfo.INACTIVE:
       self.metadata.RemoveVersion(version_number)
+      key = self._keys.pop(version)
+      self._keys.pop(key.hash_id, None)
     else:
       raise errors.KeyczarError("Can't revoke key if not inactive.")
 
-- 
2.43.0


From 3df9485100e3a12a68fbc90edf20a140b9380517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 14/43] fix: reject truncated ciphertext streams instead of
 reporting end of data

---
 python/src/keyczar/keys.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 4f34a5e..cdda83a 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1174,6 +1174,7 @@ class DecryptingStreamReader(object):
     self.__cipher = None
     self.__encrypted_buffer = ''
     self.__decrypted_buffer = ''
+    self.__verified = False
     self.__closed = False
 
   def read(self, chars=-1):
@@ -1242,10 +1243,15 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          self.__verified = True
           decrypted_data = self.__key._UnPad(decrypted_data)
           
         self.__decrypted_buffer += decrypted_data
         
+    if not is_data_avail and not self.__verified:
+      # the source ended before there was a signature to verify
+      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
+
     if chars < 0:
       result = self.__decrypted_buffer
       self.__decrypted_buffer = ''
-- 
2.43.0


From 0a48047695bed6d04981e08867a1bd9a048e6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 15/43] fix: return None from the base64 stream reader when no
 data is available

---
 python/src/keyczar/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index c00e01a..fe80055 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -833,9 +833,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
         self.bytebuffer = data[decodedbytes:]
         # put new characters in the character buffer
         self.charbuffer += newchars
-        # there was no data available
-        if not newdata:
-          break
+      # there was no data available
+      if not newdata:
+        break
 
     if chars < 0:
       # Return everything we've got
-- 
2.43.0


From 217c7a095bf45ba913e10f8d7b6091592d102296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 16/43] fix: report malformed packed session keys as
 KeyczarError

---
 python/src/keyczar/keyczar.py | 3 ++-
 python/src/keyczar/util.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 44e4d63..18b688b 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -703,7 +703,8 @@ class _Session(object):
     _Session.packed_key.
     """
     unpacked = util.UnpackMultipleByteArrays(packed_key_data)
-    assert len(unpacked) == 2
+    if len(unpacked) != 2:
+      raise errors.KeyczarError("Illegal session key data.")
     aes_key_bytes = unpacked[0]
     hmac_key_bytes = unpacked[1]
     hmac_key = keys.HmacKey(util.Base64WSEncode(hmac_key_bytes), len(hmac_key_bytes) * 8)
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index fe80055..647d153 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -460,7 +460,8 @@ def UnpackMultipleByteArrays(data):
   while position < len(data):
     array, position = UnpackByteArray(data, position)
     result.append(array)
-  assert position == len(data)
+  if position != len(data):
+    raise errors.KeyczarError("Packed byte arrays are too short.")
   return result
 
 def WriteFile(data, loc):
-- 
2.43.0


From c5cbff32ffd78d540c4dfe5f027511b139b907fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:16 +0000
Subject: [PATCH 17/43] fix: write keys before the metadata that refers to them

---
 python/src/keyczar/keyczar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 18b688b..86b49b9 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -299,9 +299,10 @@ class GenericKeyczar(Keyczar):
         'Using a string as the writer is deprecated. Use writers.CreateWriter', 
         DeprecationWarning)
     self.metadata.encrypted = (encrypter is not None)
-    writer.WriteMetadata(self.metadata)
+    # metadata last, so that it never refers to a key that is not there yet
     for v in self.versions:
       writer.WriteKey(self.GetKey(v), v.version_number, encrypter)
+    writer.WriteMetadata(self.metadata)
 
 class Encrypter(Keyczar):
   """Capable of encrypting only."""
-- 
2.43.0


From adee2dcb03ae090acc14dadbe2b1ee07bc3ca59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:16 +0000
Subject: [PATCH 18/43] fix: replace key set files atomically

---
 python/src/keyczar/util.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 647d153..b253988 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -25,6 +25,7 @@ import codecs
 import functools
 import math
 import os
+import shutil
 import struct
 import warnings
 import sys
@@ -476,10 +477,19 @@ def WriteFile(data, loc):
 
   @raise KeyczarError: if unable to write to file because of IOError
   """
+  # write to a temporary file first: an interrupted write must not leave an
+  # existing key or metadata file truncated
+  loc = os.path.realpath(loc)
+  temp = loc + ".tmp"
   try:
-    f = open(loc, "w")
-    f.write(data)
-    f.close()
+    f = open(temp, "w")
+    try:
+      if os.path.exists(loc):
+        shutil.copymode(loc, temp)
+      f.write(data)
+    finally:
+      f.close()
+    os.replace(temp, loc)
   except IOError:
     raise errors.KeyczarError("Unable to write to file %s." % loc)
 
-- 
2.43.0


From 9bf3eeda38547d481b068775746cb9de40035290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:48 +0000
Subject: [PATCH 19/43] fix: reject OAEP blocks whose first byte is not zero

---
 python/src/keyczar/keys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index cdda83a..673dd36 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -750,6 +750,8 @@ class RsaPrivateKey(PrivateKey):
     # Step 3b  EM = Y || maskedSeed || maskedDB
     k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
     diff_len = k - len(encoded_message)
+    if diff_len < 1:
+      raise errors.KeyczarError("OAEP Decoding Error - expected a leading zero byte")
     # PyCrypto strips out leading zero bytes.
     # In OAEP, the first byte is expected to be a zero, so we can ignore it
     if diff_len > 1:
-- 
2.43.0


From a51678041b90431ef628b42dad08cd8e07d82e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:36 +0000
Subject: [PATCH 20/43] fix: compute the RSA modulus length exactly for moduli
 close to a power of two

---
 python/src/keyczar/keys.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 673dd36..878cbac 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -22,7 +22,6 @@ of base class Key.
 """
 
 import hmac
-import math
 import random
 import sys
 try:
@@ -748,7 +747,7 @@ class RsaPrivateKey(PrivateKey):
         "OAEP Decoding Error - encoded_message is too small: %d" % len(encoded_message))
 
     # Step 3b  EM = Y || maskedSeed || maskedDB
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = len(util.BigIntToBytes(self.key.n)) # num bytes in n
     diff_len = k - len(encoded_message)
     if diff_len < 1:
       raise errors.KeyczarError("OAEP Decoding Error - expected a leading zero byte")
@@ -964,7 +963,7 @@ class RsaPublicKey(PublicKey):
   def __Encode(self, msg, label=""):
     if len(label) >= 2**61:  # the input limit for SHA-1
       raise errors.KeyczarError("OAEP parameter string too long.")
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = len(util.BigIntToBytes(self.key.n)) # num bytes in n
     if len(msg) > k - 2 * util.HLEN - 2:
       raise errors.KeyczarError("Message too long to OAEP encode.")
     label_hash = util.Hash(label)
-- 
2.43.0


From 5b18679b2fb3ec634a1a115c4f7438ef4b8b4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:59 +0000
Subject: [PATCH 21/43] fix: reject RSA signature values that are not below the
 modulus

---
 python/src/keyczar/keys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 878cbac..919ca3f 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1044,10 +1044,12 @@ class RsaPublicKey(PublicKey):
     @return: True if signature is valid for the message hash_id. False otherwise.
     @rtype: boolean
     """
+    sig_value = util.BytesToLong(sig)
+    if sig_value >= self.key.n:
+      return False
     try:
       return self.key.verify(
-          util.ToBytes(util.MakeEmsaMessage(msg, self.size)),
-          (util.BytesToLong(sig),))
+          util.ToBytes(util.MakeEmsaMessage(msg, self.size)), (sig_value,))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
-- 
2.43.0


From d8276d8eb51d298f0e92a677b748f93ea0dee01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:01 +0000
Subject: [PATCH 22/43] fix: reject DSA signatures with non-integer components
 or huge lengths

---
 python/src/keyczar/util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index b253988..edf8516 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -251,9 +251,14 @@ def ParseDsaSig(sig):
     seq = decoder.decode(ToBytes(sig))[0]
     if len(seq) != 2:
       raise errors.KeyczarError("Illegal DSA signature.")
-    r = int(seq.getComponentByPosition(0))
-    s = int(seq.getComponentByPosition(1))
-  except (error.PyAsn1Error, AttributeError, TypeError, ValueError):
+    r = seq.getComponentByPosition(0)
+    s = seq.getComponentByPosition(1)
+    if not (isinstance(r, univ.Integer) and isinstance(s, univ.Integer)):
+      raise errors.KeyczarError("Illegal DSA signature.")
+    r = int(r)
+    s = int(s)
+  except (error.PyAsn1Error, ArithmeticError, AttributeError, TypeError,
+          ValueError):
     raise errors.KeyczarError("Illegal DSA signature.")
   return (r, s)
 
-- 
2.43.0


From 2639942d048aa759bff7348df7d9de20a9b59af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:27 +0000
Subject: [PATCH 23/43] fix: convert integers of any size to bit strings

---
 python/src/keyczar/util.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index edf8516..7cc71e6 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -286,12 +286,7 @@ def _PadByte(bits):
   return ((8 - r) % 8) * '0' + bits
 
 def IntToBin(n):
-  if n == 0 or n == 1:
-    return str(n)
-  elif n % 2 == 0:
-    return IntToBin(n // 2) + "0"
-  else:
-    return IntToBin(n // 2) + "1"
+  return "{0:b}".format(n)
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
-- 
2.43.0


From fbba2f56188935a6d6dc6455185ddeabe2630aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:27 +0000
Subject: [PATCH 24/43] fix: keep data already read when the source of a
 decrypting stream would block

---
 python/src/keyczar/keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 919ca3f..c3ad3b9 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1289,7 +1289,10 @@ class DecryptingStreamReader(object):
     need_more_data = True
     result = ''
     while need_more_data:
-      read_bytes = self.__input_stream.read(size)
+      try:
+        read_bytes = self.__input_stream.read(size)
+      except util.BlockingIOError:
+        read_bytes = None
       if read_bytes:
         result += read_bytes
       elif read_bytes is not None:
-- 
2.43.0


From 9fa33b7d2d5c885dda4e39e53f78ded01a4599e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 25/43] fix: close the underlying stream when the base64 stream
 writer is closed

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 7cc71e6..987277c 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -636,7 +636,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
   def close(self):
     """ Flushes and closes the stream """
     self.flush()
-    super(IncrementalBase64WSStreamWriter, self).close()
+    self.stream.close()
 
   def flush(self):
     """
-- 
2.43.0


From 52181cbff3e759b1c7a60f12b1ecc2728af7a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:32 +0000
Subject: [PATCH 26/43] fix: keep failing when a stream with an unusable header
 is read again

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index c3ad3b9..28c2f8e 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1320,8 +1320,8 @@ class DecryptingStreamReader(object):
 
       if len(self.__encrypted_buffer) >= keyczar.HEADER_SIZE:
         hdr_bytes = self.__encrypted_buffer[:keyczar.HEADER_SIZE]
-        self.__encrypted_buffer = self.__encrypted_buffer[keyczar.HEADER_SIZE:]
         self.__key = self.__key_set._ParseHeader(hdr_bytes)
+        self.__encrypted_buffer = self.__encrypted_buffer[keyczar.HEADER_SIZE:]
         self.__hmac_stream = self.__key.hmac_key.CreateStreamable()
         self.__hmac_stream.Update(hdr_bytes)
         if self.__buffer_size >= 0:
-- 
2.43.0


From ba5eae7b9c860f3fcdd04349aa58565a0410ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:24 +0000
Subject: [PATCH 27/43] fix: report malformed signed session material as
 KeyczarError

---
 python/src/keyczar/keyczar.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 86b49b9..5714e8a 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -720,10 +720,15 @@ class _Session(object):
     extracted from the provided json_session_data, which must have been produced by
     _Session.json.
     """
-    json_dict = json.loads(json_session_data)
-    aes_key_string = json.dumps(json_dict['key'])
-    return _Session.__Create(keys.AesKey.Read(aes_key_string),
-                             util.Base64WSDecode(json_dict['nonce']))
+    try:
+      json_dict = json.loads(json_session_data)
+      aes_key_string = json.dumps(json_dict['key'])
+      session_key = keys.AesKey.Read(aes_key_string)
+      session_key.hash_id  # decodes the key strings
+      return _Session.__Create(session_key,
+                               util.Base64WSDecode(json_dict['nonce']))
+    except (AttributeError, KeyError, TypeError, ValueError):
+      raise errors.KeyczarError("Illegal session data.")
 
   @staticmethod
   def __Create(session_key, nonce):
-- 
2.43.0


From e1ca1f34a3373871f4acec6b70f86249457a75ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:08 +0000
Subject: [PATCH 28/43] fix: reject authenticated AES ciphertexts with a
 malformed length or padding

---
 python/src/keyczar/keys.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 28c2f8e..4163b2b 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -424,8 +424,12 @@ class AesKey(SymmetricKey):
 
     @return: original, unpadded string
     @rtype: string
+
+    @raise KeyczarError: if the data is not padded
     """
-    pad = ord(padded[-1])
+    pad = ord(padded[-1]) if padded else 0
+    if not 0 < pad <= self.block_size or padded[-pad:] != pad * chr(pad):
+      raise errors.KeyczarError("Illegal ciphertext padding.")
     return padded[:-pad]
 
   def _NoPadBufferSize(self, buffer_size):
@@ -487,6 +491,8 @@ class AesKey(SymmetricKey):
     sig_bytes = data_bytes[-util.HLEN:]  # last 20 bytes are sig
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
+    if len(ciph_bytes) % self.block_size:
+      raise errors.KeyczarError("Illegal ciphertext length.")
 
     cipher = self._CreateCipher(self.key_bytes, iv_bytes)
     plain = cipher.decrypt(ciph_bytes)
@@ -1246,8 +1252,10 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
-          self.__verified = True
+          if len(data_to_decrypt) % self.__key.block_size:
+            raise errors.KeyczarError("Illegal ciphertext length.")
           decrypted_data = self.__key._UnPad(decrypted_data)
+          self.__verified = True
           
         self.__decrypted_buffer += decrypted_data
         
-- 
2.43.0


From 11f809919e142883c4c6e2a97af1c6c13cc08553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:08 +0000
Subject: [PATCH 29/43] fix: reject session keys of unsupported sizes

---
 python/src/keyczar/keyczar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 5714e8a..85d13ad 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -735,6 +735,8 @@ class _Session(object):
     """
     Creates a new _Session instance, with the private fields initialized to the provided values.
     """
+    if not keyinfo.AES.IsValidSize(len(session_key.key_bytes) * 8):
+      raise errors.KeyczarError("Illegal session key size.")
     session = _Session()
     session.__session_key = session_key
     session.__nonce = nonce
-- 
2.43.0


From 1416952776f211261e324e65da94cd38737a86cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:40 +0000
Subject: [PATCH 30/43] fix: keep the primary key when generating its successor
 fails

---
 python/src/keyczar/keyczar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 85d13ad..d68499f 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -178,11 +178,6 @@ class GenericKeyczar(Keyczar):
     # Make the new version number the max of the existing versions plus one
     version = keydata.KeyVersion(max_version_number + 1, status, False)
 
-    if status == keyinfo.PRIMARY:
-      if self.primary_version is not None:
-        self.primary_version.status = keyinfo.ACTIVE
-      self.primary_version = version
-
     if size < self.default_size:
       print(("WARNING: %d-bit key size is less than recommended default key"
             "size of %d bits for %s keys."
@@ -194,6 +189,11 @@ class GenericKeyczar(Keyczar):
       if self._keys.get(key.hash_id) is None:
         break
 
+    if status == keyinfo.PRIMARY:
+      if self.primary_version is not None:
+        self.primary_version.status = keyinfo.ACTIVE
+      self.primary_version = version
+
     self._AddKey(version, key)
 
   def Promote(self, version_number):
-- 
2.43.0


From 97ddad70bf690e7ebdd158c54482a8006bc7ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:05 +0000
Subject: [PATCH 31/43] fix: open unversioned signers and verifiers through the
 storage back ends

---
 python/src/keyczar/keyczar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index d68499f..db5ecba 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -461,7 +461,7 @@ class UnversionedVerifier(Keyczar):
       perform verify functions.
     @rtype: L{Verifier}
     """
-    return UnversionedVerifier(readers.FileReader(location))
+    return UnversionedVerifier(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes verifying."""
@@ -653,7 +653,7 @@ class UnversionedSigner(UnversionedVerifier):
       perform sign and verify functions.
     @rtype: L{Signer}
     """
-    return UnversionedSigner(readers.FileReader(location))
+    return UnversionedSigner(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes signing."""
-- 
2.43.0


From 6e2f5ad026189d574db769de1337d48308412cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:05 +0000
Subject: [PATCH 32/43] fix: export public keys through the storage back ends

---
 python/src/keyczar/keyczar.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index db5ecba..c5264f4 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -270,17 +270,22 @@ class GenericKeyczar(Keyczar):
         pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.VERIFY, keyinfo.RSA_PUB)
     if pubkmd is None:
       raise errors.KeyczarError("Cannot export public key")
-    for v in self.versions:
-      pubkmd.AddVersion(v)
-      pubkey = self.GetKey(v).public_key
-      if mock:  # only for testing
-        mock.SetPubKey(v.version_number, pubkey)
+    writer = None if mock else writers.CreateWriter(dest)
+    try:
+      for v in self.versions:
+        pubkmd.AddVersion(v)
+        pubkey = self.GetKey(v).public_key
+        if mock:  # only for testing
+          mock.SetPubKey(v.version_number, pubkey)
+        else:
+          writer.WriteKey(pubkey, v.version_number)
+      if mock: # only for testing
+        mock.pubkmd = pubkmd
       else:
-        util.WriteFile(str(pubkey), os.path.join(dest, str(v.version_number)))
-    if mock: # only for testing
-      mock.pubkmd = pubkmd
-    else:
-      util.WriteFile(str(pubkmd), os.path.join(dest, "meta"))
+        writer.WriteMetadata(pubkmd)
+    finally:
+      if writer:
+        writer.Close()
 
   def Write(self, writer, encrypter=None):
     """
-- 
2.43.0


From 8dfac6b49dc3392030457cef285db9654990190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:05 +0000
Subject: [PATCH 33/43] fix: accept equals signs in keyczart flag values

---
 python/src/keyczar/keyczart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 4071590..552359e 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -287,7 +287,7 @@ def main(argv):
       if arg.startswith("--"):
         arg = arg[2:]  # trim leading dashes
         try:
-          [flag, val] = arg.split("=")
+          [flag, val] = arg.split("=", 1)
           flags[GetFlag(flag)] = val
         except ValueError:
           print("Flags incorrectly formatted")
-- 
2.43.0


From 97eb26281e91a3d7a5da38e5436f76ee4d36b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:31 +0000
Subject: [PATCH 34/43] fix: whitespace shifted the groups of a streamed base64
 text

The stream decoder counted line breaks and spaces towards the multiples of
four characters it decodes, so that wrapped text that Base64WSDecode accepts
was refused or decoded wrongly.
---
 python/src/keyczar/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 987277c..3d202f9 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -714,7 +714,9 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     @return: plaintext representation of input.
     @rtype: string
     """
-    result = super(BufferedIncrementalBase64WSDecoder, self).decode(input,
+    # Whitespace is ignored and must not count towards the multiples of 4.
+    chars = ''.join(input.splitlines()).replace(" ", "")
+    result = super(BufferedIncrementalBase64WSDecoder, self).decode(chars,
                                                                   final=final)
     return (result, len(input))
 
-- 
2.43.0


From f04b5d4de3114dcb9c3fef673a1df92fbe31b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:02 +0000
Subject: [PATCH 35/43] fix: base64 reader returned more characters than asked
 for

At the end of the text the whole last group was returned, whatever the
character limit of the read.
---
 python/src/keyczar/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 3d202f9..3a9bfe4 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -866,6 +866,10 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
     if not result and newdata == '':
       if chars != 0:
         result = self.decoder.flush()
+        if chars > 0:
+          # never return more than chars characters
+          self.charbuffer = result[chars:]
+          result = result[:chars]
 
     return result
 
-- 
2.43.0


From 4763dbf3840fa892017f40079e98c6ea5be6ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:15 +0000
Subject: [PATCH 36/43] fix: a read of nothing flushed the base64 stream
 decoder

read(0) in the middle of a stream decoded the group collected so far, so that
everything after it was garbage.
---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 3a9bfe4..9b65f60 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -864,7 +864,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
       result = None
 
     if not result and newdata == '':
-      if chars != 0:
+      if chars != 0 and size != 0:
         result = self.decoder.flush()
         if chars > 0:
           # never return more than chars characters
-- 
2.43.0


From b3766bff559c87c4514c74cf296cd297df9ae201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 37/43] fix: do not run keyczart commands whose flags are
 malformed

The usage was printed but the command went on without the flag: for example
'addkey --location=X --crypter C' added an unencrypted key.
---
 python/src/keyczar/keyczart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 552359e..3409922 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -290,16 +290,16 @@ def main(argv):
           [flag, val] = arg.split("=", 1)
           flags[GetFlag(flag)] = val
         except ValueError:
-          print("Flags incorrectly formatted")
           Usage()
+          raise errors.KeyczarError("Flags incorrectly formatted")
     
     try:
       version = int(flags.get(VERSION, -1))
       size = int(flags.get(SIZE, -1))
       # -1 if non-existent
     except ValueError:
-      print("Size and version flags require an integer")
       Usage()
+      raise errors.KeyczarError("Size and version flags require an integer")
     
     loc = flags.get(LOCATION)  # all commands need location
     
-- 
2.43.0


From 502fa2b90586339513cf623b199b76a008656dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 38/43] fix: close the reader that an encrypted reader wraps

keyczart only closes the wrapper, so the reader of a storage back end was never
closed by addkey --crypter.
---
 python/src/keyczar/readers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/readers.py b/python/src/keyczar/readers.py
index 43932b1..1a94223 100644
--- a/python/src/keyczar/readers.py
+++ b/python/src/keyczar/readers.py
@@ -152,8 +152,7 @@ class EncryptedReader(Reader):
     return self._crypter.Decrypt(self._reader.GetKey(version_number))
 
   def Close(self):
-    # Nothing to close - util.ReadFile() closes it
-    return
+    self._reader.Close()
 
   @classmethod
   def CreateReader(cls, location):
-- 
2.43.0


From 7027ecb9deea4f425ed200e3354c7ce3de6bdb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 39/43] fix: close the writer that Write() creates for a
 location

A storage back end that stores on Close lost the key set.
---
 python/src/keyczar/keyczar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index c5264f4..7a5927a 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -299,10 +299,15 @@ class GenericKeyczar(Keyczar):
     @type encrypter: Encrypter
     """
     if isinstance(writer, str):
-      writer = writers.CreateWriter(writer)
       warnings.warn(
         'Using a string as the writer is deprecated. Use writers.CreateWriter', 
         DeprecationWarning)
+      writer = writers.CreateWriter(writer)
+      try:
+        self.Write(writer, encrypter)
+      finally:
+        writer.Close()
+      return
     self.metadata.encrypted = (encrypter is not None)
     # metadata last, so that it never refers to a key that is not there yet
     for v in self.versions:
-- 
2.43.0


From eeb10a33446cdcdc91098fabe2d336e135f70cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:31 +0000
Subject: [PATCH 40/43] fix: interop tests whose names coincide replaced each
 other

---
 interop/interop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interop/interop.py b/interop/interop.py
index 513bb2b..9f58544 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -426,6 +426,7 @@ class InteropTestRunner(object):
 
     Should be called before loaded into unittest
     """
+    test_names = set()
     for params in self._GenerateAll():
       generate_implementation, operation, keyset, generate_options = params
       output = self._Generate(
@@ -440,6 +441,10 @@ class InteropTestRunner(object):
             "_".join(list(generate_options.values())),
             "_".join(list(test_options.values())),
             )
+        # different option values can make up the same name
+        while test_name in test_names:
+          test_name += "_"
+        test_names.add(test_name)
 
         test = self.InteropTestGenerator(
             output,
-- 
2.43.0


From 551021d2e5830ee81a33fb51a3e028960df9a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:49 +0000
Subject: [PATCH 41/43] fix: flushing the base64 stream writer did not always
 flush its stream

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 9b65f60..e40ff11 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -645,7 +645,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
     result = self.encoder.flush()
     if result:
       self.stream.write(result)
-      self.stream.flush()
+    self.stream.flush()
 
   def encode(self, input, errors='strict'):
     """
-- 
2.43.0


From 4f1b28e63a5396354e43b01779c9ec3d4a4c90c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:21 +0000
Subject: [PATCH 42/43] fix: OAEP decoding told which part of the encoding is
 wrong

Different errors, reported after different amounts of work, allow anyone who can
have ciphertexts decrypted and sees the error to decrypt any ciphertext (Manger's
attack; PKCS#1 v2.1 section 7.1.2, note on step 3g).
---
 python/src/keyczar/keys.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 4163b2b..ab0bba7 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -748,42 +748,34 @@ class RsaPrivateKey(PrivateKey):
     if len(label) >= 2**61:
       # 2^61 = the input limit for SHA-1
       raise errors.KeyczarError("OAEP Decoding Error - label is too large %d" % len(label))
-    if len(encoded_message) < 2 * util.HLEN + 2:
-      raise errors.KeyczarError(
-        "OAEP Decoding Error - encoded_message is too small: %d" % len(encoded_message))
+
+    # Step 3g: which part of the encoding is wrong must not be distinguishable
+    # (otherwise ciphertexts can be decrypted by asking), so that everything is
+    # checked before an error is reported, and always the same one.
 
     # Step 3b  EM = Y || maskedSeed || maskedDB
     k = len(util.BigIntToBytes(self.key.n)) # num bytes in n
-    diff_len = k - len(encoded_message)
-    if diff_len < 1:
-      raise errors.KeyczarError("OAEP Decoding Error - expected a leading zero byte")
-    # PyCrypto strips out leading zero bytes.
-    # In OAEP, the first byte is expected to be a zero, so we can ignore it
-    if diff_len > 1:
-      # If more bytes were chopped by PyCrypto, add zero bytes back on
-      encoded_message = '\x00' * (diff_len - 1) + encoded_message
-
-    masked_seed = encoded_message[:util.HLEN]
-    masked_datablock = encoded_message[util.HLEN:]
+    # PyCrypto strips out leading zero bytes, add them back on
+    encoded_message = encoded_message.rjust(k, '\x00')
+    valid_start = encoded_message[:1] == '\x00'
+    masked_seed = encoded_message[1:util.HLEN + 1]
+    masked_datablock = encoded_message[util.HLEN + 1:]
 
     # Step 3c,d
     seed_mask = util.MGF(masked_datablock, util.HLEN)
     seed = util.Xor(masked_seed, seed_mask)
 
     # Step 3e
-    datablock_mask = util.MGF(seed, len(masked_datablock))  # encoded_message already stripped of 0
+    datablock_mask = util.MGF(seed, len(masked_datablock))
 
     # Step 3f
     datablock = util.Xor(masked_datablock, datablock_mask)
 
-    label_hash = datablock[:util.HLEN]
-    expected_label_hash = util.Hash(label)  # Debugging
-    if label_hash != expected_label_hash:
-      raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
-
+    valid_label = datablock[:util.HLEN] == util.Hash(label)
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[:1] != '\x01':
-      raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
+    valid_delimiter = delimited_message[:1] == '\x01'
+    if not (valid_start & valid_label & valid_delimiter):
+      raise errors.KeyczarError("OAEP Decoding Error")
     return delimited_message[1:]  # The message
 
   def __str__(self):
-- 
2.43.0


From 43afebc924fc94e24ac74baa95ac49493675bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:24 +0000
Subject: [PATCH 43/43] fix: exporting public keys replaced private keys at the
 destination

PublicKeyExport (keyczart pubkey) wrote the public keys over whatever key
set the destination held. With the location of the private set itself, or
of any other private or symmetric set, as destination the private keys
were lost. Refuse a destination whose metadata is not of a public key set.
---
 python/src/keyczar/keyczar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 7a5927a..4dae8d7 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -270,6 +270,12 @@ class GenericKeyczar(Keyczar):
         pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.VERIFY, keyinfo.RSA_PUB)
     if pubkmd is None:
       raise errors.KeyczarError("Cannot export public key")
+    if not mock:
+      # never replace private keys, in particular not the ones being exported
+      present = os.path.join(dest, "meta")
+      if os.path.exists(present) and keydata.KeyMetadata.Read(
+          util.ReadFile(present)).type not in (keyinfo.DSA_PUB, keyinfo.RSA_PUB):
+        raise errors.KeyczarError("Destination holds keys that are not public")
     writer = None if mock else writers.CreateWriter(dest)
     try:
       for v in self.versions:
-- 
2.43.0

