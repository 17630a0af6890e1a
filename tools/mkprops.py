import json
P='python/src/keyczar/'
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[f if '/' in f else P+f for f in files],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    return d
L=[]
def add(*a,**k): L.append(p(*a,**k))

add('C01','Decrypting what was encrypted gives back the plaintext',
 'For every crypt key set (AES of each supported size, RSA) and every byte-string plaintext, of any length and content that the key can carry, decrypting the result of encrypting it returns exactly that plaintext, with the default base64 encoding as well as with raw bytes. A plaintext longer than an RSA key can carry is refused with a Keyczar error and never truncated.',
 ['inputs','configurations'],'all plaintext lengths and contents, all crypt key types and sizes, encoded and raw',
 'The crypter tests use one fixed sentence and one random string per run, with one key size.',
 ['keyczar.py','keys.py','util.py'],
 [('PKCS5 padding','keys.py AesKey._Pad/_UnPad'),('OAEP encode/decode','keys.py RsaPublicKey.__Encode, RsaPrivateKey.__Decode'),('encoder/decoder plumbing','keyczar.py Encrypter.Encrypt, Crypter.Decrypt')],
 ['Crypter.Encrypt / Crypter.Decrypt'])
add('C02','An altered AES ciphertext is never decrypted',
 'Any byte string other than one produced by encryption under a key of the set - obtained from a genuine ciphertext by changing any bit of header, IV, body or tag, by truncating, extending, inserting, deleting or splicing parts of other genuine ciphertexts - is rejected with a Keyczar error when decrypted with an AES key set. No plaintext is returned for it.',
 ['inputs'],'all single-byte changes, truncations, extensions, deletions, insertions and splices of genuine ciphertexts of every block count in the bound',
 'The tests alter one byte of one ciphertext in two places.',
 ['keys.py','keyczar.py'],
 [('HMAC over header, IV and body, checked before decryption','keys.py AesKey.Decrypt'),('constant-time comparison of the whole tag','keys.py HmacKey.VerifySignedData'),('length checks','keyczar.py Crypter.Decrypt, keys.py AesKey.Decrypt')],
 ['Crypter.Decrypt'])
add('C03','RSA decryption accepts only well-formed OAEP messages',
 'An RSA key set decrypts a ciphertext only if it encrypts a well-formed OAEP (SHA-1, empty label) block, and then returns exactly the message in that block, including one that starts with zero or one bytes. Every other ciphertext - altered, truncated, or carrying a block with a wrong label hash, a missing or wrong delimiter or a non-zero first byte - is refused with a Keyczar error.',
 ['inputs'],'all structural deviations of an OAEP block, all byte positions of a ciphertext, all message lengths up to capacity',
 'The RSA tests decrypt one golden output and one round trip; no malformed block is ever constructed.',
 ['keys.py','util.py'],
 [('OAEP decoding','keys.py RsaPrivateKey.__Decode'),('mask generation','util.py MGF')],
 ['Crypter.Decrypt with an RSA key set'])
add('C04','A signature verifies exactly for the data and key set that signed it',
 'For every signing key set (HMAC, RSA, DSA) and every byte string, the signature produced by signing verifies under that key set, and under the exported public key set, in encoded and raw form. Verification of any other data, of a signature whose signed value was changed anywhere, or under a key set that does not hold the signing key never reports success.',
 ['inputs','configurations'],'all data in the bound, every byte position of every signature, every pair of key sets',
 'The tests sign one sentence and change one character of it or of its signature.',
 ['keyczar.py','keys.py','util.py'],
 [('header look-up plus key verification','keyczar.py Verifier.__InternalVerify'),('tag comparison','keys.py HmacKey.VerifySignedData'),('EMSA-PKCS1 / DSA verification','keys.py RsaPublicKey.Verify, DsaPublicKey.Verify')],
 ['Signer.Sign, Signer.Verify, Verifier.Verify'])
add('C05','Attached signatures bind both the data and the nonce',
 'Verifying an attached-signature blob with the nonce it was made with returns exactly the signed data, for every data and nonce byte string including empty ones and ones containing zero bytes or length-like prefixes. With any other nonce, or after any change to the header, the data or the signature value in the blob, no data is returned: in particular moving bytes between data and nonce does not yield a blob that verifies.',
 ['inputs'],'all small (data, nonce) pairs and all pairs of pairs, every byte position of the blob',
 'The tests use one data string and the nonces "nonce" and "wrong".',
 ['keyczar.py','util.py'],
 [('length-prefixed nonce in the signed string','keyczar.py Signer.__InternalSign, Verifier.__InternalVerify; util.py PackByteArray'),('blob parsing','keyczar.py Verifier.AttachedVerify; util.py UnpackByteArray')],
 ['Signer.AttachedSign, Verifier.AttachedVerify'])
add('C06','Unversioned signatures are plain signatures tried against every key',
 'An unversioned signature is the plain HMAC-SHA1, RSA-SHA1 or DSA-SHA1 signature of exactly the data, made with the primary key. Unversioned verification succeeds if and only if at least one key of the set, whatever its status or position, verifies it.',
 ['inputs','configurations'],'all data in the bound, all key sets of up to three versions in all statuses, signatures by each version and by outsiders, every byte position altered',
 'The tests use the two-key golden sets with a signature by the primary only.',
 ['keyczar.py','keys.py'],
 [('loop over all versions','keyczar.py UnversionedVerifier.Verify'),('plain signing','keyczar.py UnversionedSigner.Sign')],
 ['UnversionedSigner.Sign, UnversionedVerifier.Verify'])
add('C07','Key status changes follow the documented life cycle',
 'After any sequence of add-key, promote, demote and revoke operations, through the command-line tool or the API, the stored statuses are those of the documented life cycle: new keys get the next version number and are not exportable, promoting an active key (or adding a primary) demotes the previous primary to active, promoting an inactive key makes it active, demoting goes primary, active, inactive, and only inactive keys can be revoked. There is never more than one primary, and an operation that is not permitted fails with a Keyczar error and leaves the stored key set unchanged.',
 ['histories'],'all operation sequences up to the depth bound on key sets of up to four versions',
 'keyczart_test applies each command once or twice on one fixed mock key set.',
 ['keyczar.py','keyczart.py','keydata.py','writers.py'],
 [('status transitions','keyczar.py GenericKeyczar.AddVersion/Promote/Demote/Revoke'),('command dispatch','keyczart.py main')],
 ['files of the key set after each command'],
 [('version statuses','PRIMARY/ACTIVE/INACTIVE per version','keydata.py KeyMetadata')])
add('C08','Data stays usable until its key is revoked, and new data uses the primary',
 'At every point of any key life-cycle history, encrypting or signing uses the current primary key, and fails with the no-primary-key error if there is none. Every ciphertext and signature made earlier still decrypts to its plaintext or verifies as long as its key version has not been revoked, whatever that version\'s status; once it is revoked the data is refused as key not found and never decrypts or verifies, even if its version number is used again.',
 ['histories'],'all operation sequences up to the depth bound, checking every ciphertext and signature made at every earlier point',
 'The tests never rotate: they read fixed two-version sets.',
 ['keyczar.py','keys.py','keyczart.py'],
 [('key identifier in the header selects the key','keyczar.py Keyczar._ParseHeader'),('primary look-up','keyczar.py Keyczar.primary_key')],
 ['Crypter/Signer opened on the key set after each command'])
add('C09','A key set read back is the key set that was written',
 'Writing a key set to a location and reading it back yields the same name, purpose, key type, versions, statuses, exportable flags, sizes and key material for every key type and size, any name and any set of versions and statuses, unencrypted or encrypted. Data produced with the key set before writing works with the one read back and the other way round, and writing the key set read back changes nothing, not even the access rights of its files.',
 ['configurations','inputs'],'all key types, sizes, version subsets, statuses and flags in the bound; names with arbitrary characters',
 'Only fixed key sets are read in the tests; nothing is written and read back.',
 ['keyczar.py','keydata.py','keys.py','readers.py','writers.py'],
 [('JSON serialisation','keys.py __str__/Read of each key class; keydata.py KeyMetadata.__str__/Read'),('file layout','readers.py FileReader, writers.py FileWriter')],
 ['Keyczar classes on the location read back'])
add('C10','A crash during a key set update never loses a usable key set',
 'If the process dies at any point of a create, add-key, promote, demote, revoke or public-export command, the key set at the location still opens, and is the key set from before or the one from after the command, with all the key material of its versions intact. Running the command afterwards works as on that key set.',
 ['crash_points','histories'],'all mutating file-system operations of every command on every key set of the bound, every torn write prefix',
 'No test interrupts a command.',
 ['keyczar.py','writers.py','util.py','keyczart.py'],
 [('keys before metadata','keyczar.py GenericKeyczar.Write'),('atomic file replacement','util.py WriteFile'),('metadata before removal','keyczart.py Revoke')],
 ['the location after the crash, opened with the public classes'])
add('C11','A failed write is reported and leaves the key set intact',
 'If opening, reading, writing, replacing or removing a file fails during a key set command (no space, I/O error, permission), the command ends with an exception and not as if it had succeeded. The key set at the location still opens and is the one from before or the one from after the command.',
 ['fault_sequences','histories'],'an error at every file-system operation of every command on every key set of the bound',
 'No test injects a file error.',
 ['util.py','writers.py','readers.py','keyczart.py'],
 [('IOError mapped to KeyczarError','util.py WriteFile/ReadFile')],
 ['outcome of the command and the location afterwards'])
add('C12','A key set can only be used for its purpose',
 'Each class opens a key set exactly when its purpose permits the operations of the class: encrypting needs an encrypt or decrypt-and-encrypt set, decrypting a decrypt-and-encrypt set, signing a sign-and-verify set, verifying a verify or sign-and-verify set; anything else is refused with a Keyczar error when it is opened. A key set with two primary versions is refused as well.',
 ['configurations'],'all classes x all purposes x all key types, all status assignments',
 'The tests only open key sets with a class that fits.',
 ['keyczar.py','keyinfo.py'],
 [('purpose check on construction','keyczar.py Keyczar.__init__, IsAcceptablePurpose')],
 ['constructors and Read of the public classes'])
add('C13','Session encryption works exactly with its own session material',
 'For every plaintext, data encrypted by a session encrypter is decrypted by a session decrypter built from that session\'s material and the matching private key set, in any order and number of messages and with any number of sessions alive at the same time. A decrypter for another session, altered session material or altered data never yields a plaintext, only a Keyczar error.',
 ['histories','inputs'],'all interleavings of operations of several sessions up to the bound, every byte position of material and data',
 'session_test runs one session with one message.',
 ['keyczar.py','util.py','readers.py'],
 [('session key wrapping','keyczar.py _Session, SessionEncrypter, SessionDecrypter'),('memoised crypter','util.py Memoize')],
 ['SessionEncrypter, SessionDecrypter'])
add('C14','Signed sessions reject data from any other session, signer or altered data',
 'Data encrypted in a signed session is returned by the matching signed-session decrypter for every plaintext, including the empty one. Data that was altered, that belongs to another session - even one with the same signer - or that was signed by a signer whose key the verifier does not hold never yields a plaintext. Session material that is altered, or that lacks the key or the nonce, is refused with a Keyczar error.',
 ['histories','inputs'],'all pairs of sessions, signers and messages in the bound; every byte position of the data',
 'session_test runs one signed session with one message.',
 ['keyczar.py'],
 [('nonce bound through attached signing','keyczar.py SignedSessionEncrypter.Encrypt, SignedSessionDecrypter.Decrypt')],
 ['SignedSessionEncrypter, SignedSessionDecrypter'])
add('C15','Stream encryption does not depend on how the data is written',
 'Whatever sequence of writes (of any sizes, including empty ones) delivers the plaintext to an encrypting stream, after the flush the output is one well-formed ciphertext which decrypts, in one piece or as a stream, to the concatenation of the writes, and all of it has been passed on to and flushed through the output stream. Closing discards what was not flushed, leaves the output stream open, and a closed stream takes nothing more. This holds for raw output and for base64 output.',
 ['inputs','histories'],'all partitions of the plaintext into writes up to the bound, all lengths around block boundaries',
 'The tests write in a handful of chunk sizes.',
 ['keys.py','util.py'],
 [('buffering to whole blocks','keys.py EncryptingStreamWriter.write/flush'),('incremental base64','util.py BufferedIncrementalBase64WSEncoder')],
 ['Encrypter.CreateEncryptingStreamWriter'])
add('C16','Stream decryption does not depend on how the data arrives or is read',
 'For every genuine AES ciphertext and every way the source delivers it (short reads, no data yet as None or as a would-block error, end of file) and every sequence of read sizes, the concatenation of what the decrypting stream returns is the plaintext, no read returns more than was asked for, and the end is signalled by an empty string only after everything has been returned. A closed stream refuses to be read. This holds for raw and for base64 sources.',
 ['inputs','histories'],'all delivery schedules and read-size sequences up to the deviation bound, all lengths around block boundaries',
 'The tests use a few fixed read sizes and one alternating would-block pattern.',
 ['keys.py','util.py'],
 [('buffering of block and signature','keys.py DecryptingStreamReader.read'),('would-block handling','keys.py DecryptingStreamReader.__ReadBytes, util.py IncrementalBase64WSStreamReader.read')],
 ['Crypter.CreateDecryptingStreamReader'])
add('C17','Stream decryption detects every altered or truncated stream',
 'For every alteration or truncation of a genuine ciphertext stream, and however it is delivered and read, the decrypting stream raises a Keyczar error no later than at the point where it would have reported the end of the data. The end is never reported for such a stream.',
 ['inputs','histories'],'every bit of short ciphertexts, every truncation point, extensions, splices, for all read sizes in the bound',
 'The tests alter two bytes of one stream.',
 ['keys.py'],
 [('signature check on the final read','keys.py DecryptingStreamReader.read')],
 ['Crypter.CreateDecryptingStreamReader'])
add('C18','Web-safe base64 encodes every byte string and decodes it back',
 'Encoding any byte string gives its standard URL-safe base64 form without padding characters or line breaks, and decoding gives the byte string back, also when spaces or line breaks were inserted or padding characters kept. Decoding text whose length without white space is one more than a multiple of four raises the base64 decoding error, and no text raises anything but that error.',
 ['inputs'],'all byte strings up to the length bound, all boundary lengths, all texts up to the length bound over the decisive characters',
 'The tests encode a few strings.',
 ['util.py'],[('encoding and decoding','util.py Base64WSEncode, Base64WSDecode')],['util.Base64WSEncode, util.Base64WSDecode'])
add('C19','Streamed base64 equals one-shot base64 for every chunking',
 'Whatever sequence of writes delivers the data, the base64 stream writer produces, after the flush, exactly the one-shot encoding of the whole, and flushes its output stream. Whatever sequence of reads, short reads and no-data-yet answers delivers an encoded text, also one with spaces or line breaks inserted, the base64 stream reader returns in total exactly the decoded whole, never more characters in one read than its character limit, reports no data yet as None, and reports the end only when everything has been returned.',
 ['inputs','histories'],'all partitions up to the bound, all read-size and delivery schedules up to the deviation bound',
 'The tests use fixed chunk sizes.',
 ['util.py'],[('buffering to multiples of 3 and 4','util.py BufferedIncrementalBase64WSEncoder, BufferedIncrementalBase64WSDecoder'),('reader loop','util.py IncrementalBase64WSStreamReader.read')],
 ['util.IncrementalBase64WSStreamWriter, util.IncrementalBase64WSStreamReader'])
add('C20','Symmetric outputs follow the published Keyczar format',
 'AES ciphertexts are version byte 0, the four-byte key identifier, the 16-byte IV, the AES-CBC/PKCS5 encryption under the key and the HMAC-SHA1 of all of that; HMAC signatures are version byte 0, the key identifier and the HMAC-SHA1 of the data followed by a zero byte; the identifiers are the published SHA-1 based ones. Everything an independent implementation of that format produces is accepted, everything Keyczar produces is accepted by it, and outputs kept from earlier releases still decrypt and verify.',
 ['inputs','configurations'],'all data in the bound and all AES and HMAC key sizes, both directions against an independent implementation',
 'The tests compare with two golden outputs per key set, of one sentence.',
 ['keys.py','keyczar.py','util.py'],
 [('header and payload layout','keys.py Key.Header, AesKey.Encrypt, HmacKey.Sign'),('key identifiers','keys.py AesKey._Hash, HmacKey._Hash')],
 ['Crypter, Signer outputs and inputs'])
add('C21','Asymmetric outputs follow the published Keyczar format',
 'RSA ciphertexts are the five-byte header and the modulus-sized RSAES-OAEP (SHA-1) ciphertext; RSA signatures are the header and the modulus-sized RSASSA-PKCS1-v1_5 (SHA-1) signature, DSA signatures the header and the DER sequence of r and s, each over the data followed by a zero byte; the identifiers are the published SHA-1 based ones of the public key, the same for a private key and its public half. Everything an independent implementation of that format produces is accepted, everything Keyczar produces is accepted by it, and outputs kept from earlier releases still decrypt and verify.',
 ['inputs','configurations'],'all data in the bound and RSA and DSA keys of several sizes, both directions against an independent implementation',
 'The tests compare with two golden outputs per key set, of one sentence.',
 ['keys.py','keyczar.py','util.py'],
 [('OAEP and EMSA encodings','keys.py RsaPublicKey, util.py MakeEmsaMessage, MGF'),('key identifiers','keys.py RsaPublicKey._Hash, DsaPublicKey._Hash; util.py PrefixHash, TrimBytes')],
 ['Crypter, Signer outputs and inputs'])
add('C22','Key and signature import and export are lossless and standard',
 'Exporting RSA or DSA parameters as PKCS#8 or X.509 yields the standard DER structures in web-safe base64, and parsing them returns the same parameters for all parameter values, including ones with leading zero bits, high bits set or unusual sizes; a structure of another version, algorithm or number of fields is refused. Making and parsing DSA signature values, and converting integers to and from byte strings and bit strings, are inverse to each other for all values.',
 ['inputs'],'all small parameter values and all boundary bit lengths, against an independent DER codec',
 'The tests parse one fixed key of each kind.',
 ['util.py'],[('DER structures','util.py ParsePkcs8, ExportRsaPkcs8, ExportDsaPkcs8, ParseX509, ExportRsaX509, ExportDsaX509, MakeDsaSig, ParseDsaSig'),('conversions','util.py BigIntToBytes, BytesToLong, IntToBytes, BytesToBin, BinToBytes')],
 ['util functions'])
add('C23','Encrypted key sets never expose key material without the crypter',
 'When a key set is written with a crypter, no file at the location contains any secret key material in readable form, the metadata says it is encrypted, and it can only be opened through that crypter: opening it without one, or with another one, is refused with a Keyczar error. Adding keys with the crypter keeps all of this true at every step, and commands that were not given the crypter do not change the key set.',
 ['histories','configurations'],'all key types and all command sequences up to the bound, every file and every secret parameter in every usual encoding',
 'The tests read one encrypted AES set.',
 ['writers.py','readers.py','keyczar.py','keyczart.py'],
 [('encryption on write','writers.py FileWriter.WriteKey'),('check on open','keyczar.py Keyczar.__init__')],
 ['files at the location, constructors'])
add('C24','Exported public key sets hold the public halves and nothing else',
 'Exporting the public keys of an RSA or DSA key set writes a key set with the same name, versions and statuses, the corresponding public purpose and type, and for each version exactly the public half of the key, with no private value in any file; after a revocation the revoked version is not exported. The exported set encrypts for, or verifies signatures of, the private set, and exporting a symmetric key set is refused with a Keyczar error and writes nothing.',
 ['configurations','histories'],'all asymmetric types and purposes, all version and status combinations and life-cycle histories in the bound',
 'keyczart_test exports one mock set and compares one key.',
 ['keyczar.py','keys.py','keyczart.py'],
 [('export','keyczar.py GenericKeyczar.PublicKeyExport'),('public serialisation','keys.py RsaPublicKey.__str__, DsaPublicKey.__str__')],
 ['files at the destination'])
add('C25','The command-line tool does what the command says and never overwrites a set',
 'Creating a key set at a location that already holds one is refused and changes nothing; at an empty location it creates an empty set with the name, purpose and key type that the flags say, and refuses unknown or missing purposes. Exporting public keys to a location that holds a private or symmetric key set, be it the exported one in whatever spelling, is refused and changes nothing; over an earlier export it replaces it. For every combination and order of flags, each command acts on the given location, version, status, size and crypter only, and a command with an unknown name, an unknown or malformed flag or a missing required flag changes no file.',
 ['inputs','configurations'],'all commands x all combinations and orders of the relevant flags in the bound',
 'keyczart_test covers a few flag combinations through the mock.',
 ['keyczart.py','writers.py'],
 [('flag parsing','keyczart.py main'),('no overwrite','writers.py FileWriter.WriteMetadata; keyczar.py GenericKeyczar.PublicKeyExport')],
 ['files at the location after the command'])
add('C26','Every operation uses fresh secret randomness',
 'Every generated key, session key, nonce, AES IV, OAEP seed and DSA per-signature value comes afresh from the operating system\'s random source and in full length: no two operations share one, however they are interleaved across objects, streams and re-opened key sets. The outputs do not repeat even when every other source (clock, process id, general-purpose random generators) repeats.',
 ['histories','inputs'],'all short sequences of randomised operations with the random source under control',
 'No test looks at the random values.',
 ['keys.py','keyczar.py','util.py'],
 [('random source','util.py RandBytes'),('per-use draws','keys.py AesKey.Encrypt, EncryptingStreamWriter, RsaPublicKey.__Encode, DsaPrivateKey.Sign; keyczar.py _Session.New')],
 ['IV, seed, k and keys recovered from the outputs'])
add('C27','Malformed input only ever causes the documented outcomes',
 'For every byte string given as ciphertext, signature, attached blob, stream or session material, the operation ends, and its outcome is a result, a negative verification result or a Keyczar error; no other exception escapes. Inputs shorter than a header or a minimal ciphertext are reported as too short, a wrong version byte as bad version, and an unknown key identifier as key not found.',
 ['inputs'],'all byte strings up to the length bound over the decisive byte values, all truncations, and structured malformed values',
 'The tests try two bad ciphertexts and two bad signatures.',
 ['keyczar.py','keys.py','util.py','errors.py'],
 [('length checks','keyczar.py Crypter.Decrypt, Verifier.Verify'),('format checks','util.py ParseDsaSig, UnpackByteArray; keys.py RsaPrivateKey.__Decode')],
 ['Decrypt, Verify, AttachedVerify, streams, sessions'])
add('C28','One opened key set can be shared between threads',
 'When several threads use one opened crypter, signer, verifier or session object at the same time, every operation gives a result that it could give alone: round trips succeed, verifications give the right answer, no operation fails, and no two encryptions share an IV.',
 ['schedules'],'all interleavings of two or three threads with one or two operations each, at source-line granularity, up to the preemption bound',
 'No test uses threads.',
 ['keyczar.py','keys.py','util.py'],
 [('per-call ciphers and digests','keys.py AesKey, HmacKey, EVPAdaptor'),('memoisation','util.py Memoize')],
 ['results of each thread\'s calls'])
add('C29','The interop runner runs exactly the configured test matrix',
 'For every configuration, the runner asks every implementation to generate every operation with every matching key set, key size and option combination that is not ignored, and has every implementation test that output with every matching test key set and test option combination that is not ignored, each exactly once and with the generating implementation\'s keys and output. Public keys are used for encrypting and for verifying only, private keys for decrypting and signing, and the listing of tests shows the same matrix. Unless told otherwise it first has every implementation create every key set of the matrix, plain with more than one key, encrypted and public, in emptied directories. A test that an implementation fails is reported as failed and does not keep the others from running.',
 ['configurations'],'all small configurations of implementations, operations, algorithms and options in the bound, and the shipped one',
 'The unit tests check a fixed small configuration piece by piece.',
 ['interop/interop.py'],
 [('matrix enumeration','interop.py _GenerateAll, _TestAll, _Options, Keyset.GetGenerateKeysets/GetTestKeysets')],
 ['calls the implementations receive; display output'])
add('C30','Ignore rules skip exactly the tests they describe',
 'A test or generate step is skipped if and only if some ignore rule matches its implementation, operation and algorithm (by name or by wildcard) and all of the options the rule names have one of the values the rule lists; a rule whose options are a wildcard matches every option combination. Skipped steps are reported with the reason of the rule.',
 ['configurations'],'all rules over small name sets with and without wildcards, all option subsets, pairs of rules',
 'The unit tests check four rules.',
 ['interop/interop.py'],
 [('rule matching','interop.py InteropTestRunner._IsException')],
 ['calls the implementations receive'])
add('C31','Keys are generated with exactly the requested, supported size',
 'Adding a key of a supported size produces a key of exactly that size, recorded as such and usable; without a size the default size of the type is used; any other size is refused with an error and leaves the key set, including its primary, unchanged. The generated key material has full length and its parameters satisfy the mathematical relations of its algorithm, and are stored as positive (signed big-endian) integers, as the other implementations read them.',
 ['inputs','configurations'],'all sizes in a range around the supported ones for all key types',
 'keyczart_test adds one key of one size per type.',
 ['keys.py','keyczar.py','keyinfo.py'],
 [('size validation','keyczar.py GenericKeyczar.AddVersion, keys.py GenKey, keyinfo.py KeyType.IsValidSize')],
 ['key files after the command'])
add('C32','Storage back ends are chosen by location and used for everything',
 'A reader or writer is created by the first registered back end that accepts the location, including ones loaded from the plug-in paths of the environment variable, and a location that none accepts is refused with a Keyczar error. Every key-set command works on a plug-in back end as on files, touches only that back end, and closes the readers and writers it opened on the key set, whether or not it succeeds. A call of the back end that fails is reported and leaves the key set from before or the one from after the command.',
 ['configurations','histories'],'all combinations of accepting and refusing back ends, command histories compared with files',
 'The tests register one dummy reader and one dummy writer.',
 ['readers.py','writers.py','util.py','keyczart.py'],
 [('factories','readers.py CreateReader, writers.py CreateWriter'),('plug-in import','util.py ImportBackends')],
 ['CreateReader, CreateWriter and the keyczart commands'])
add('C33','Length-prefixed packing is unambiguous',
 'Packing any list of byte strings gives the count and each string preceded by its four-byte big-endian length, and unpacking returns exactly that list; different lists never give the same packing. Unpacking data that is not a packing, because a length is negative, too large or cut off, ends with a Keyczar error.',
 ['inputs'],'all lists of up to three short strings, all byte strings up to the length bound, boundary lengths',
 'The tests pack one array.',
 ['util.py'],[('packing','util.py PackByteArray, PackMultipleByteArrays, UnpackByteArray, UnpackMultipleByteArrays')],['util functions'])
add('C34','How a wrong tag or encoding is refused reveals nothing about the right one',
 'When the HMAC tag of a ciphertext, signature, attached signature, stream or session message or material is wrong, the outcome and the amount of work do not depend on which of its bytes are wrong: the right and the presented tag are never compared with an operation that stops at the first difference. An altered AES ciphertext is refused in the same way whatever it would decrypt to, with good or bad padding, and an RSA ciphertext whose OAEP encoding is wrong with the same error whichever part of the encoding is wrong.',
 ['inputs'],'all wrong bytes and sets of wrong bytes of a tag, all altered bytes of a body, all wrong parts of an encoding',
 'A test sees that a wrong tag is refused, not how.',
 ['keys.py','keyczar.py'],
 [('comparison of all bytes','keys.py HmacKey.VerifySignedData'),('tag before padding','keys.py AesKey.Decrypt, DecryptingStreamReader.read'),('one error for all encodings','keys.py RsaPrivateKey.__Decode')],
 ['outcome of and instructions executed by Decrypt, Verify, AttachedVerify, stream reading and sessions'])
add('C35','Using a key set never changes it and leaves no traces',
 'Opening a key set and encrypting, decrypting, signing, verifying, streaming and holding sessions with it, successfully or not, whether the set is intact, encrypted or damaged, opens no file for writing, changes, creates and removes no file (contents, times and access rights included), starts no process, uses no network, prints nothing, leaves no file open and does not change the environment. Key sets can be used from read-only storage.',
 ['inputs','configurations'],'all kinds of key sets and statuses, intact, encrypted and damaged, all classes, all operations on genuine and unfit inputs',
 'The tests do not look at the files after use.',
 ['readers.py','keyczar.py','keys.py','util.py'],
 [('reading','readers.py FileReader, util.py ReadFile'),('use','keyczar.py Keyczar, Encrypter, Crypter, Signer, Verifier, sessions')],
 ['file system and interpreter events during use'])
add('C36','Messages never contain keys or plaintexts',
 'No exception message (including the exceptions it was caused by), printed output, log record, warning or string form of a crypter, signer, verifier, session, stream or metadata object contains key material, a session key or a plaintext, for every operation on every input, for every damaged key set or session material, and for every command of the key tool. (The string form of a key object is its stored form and does contain the key.)',
 ['inputs','configurations'],'all operations on genuine, cut and altered inputs, all damages of key files and metadata, all commands',
 'The tests do not look at messages.',
 ['errors.py','keys.py','keyczar.py','keyczart.py'],
 [('error texts','errors.py'),('reports of the tool','keyczart.py main, Promote, Demote, Revoke, AddKey'),('string forms','keyczar.py Keyczar.__str__, keydata.py KeyMetadata.__str__')],
 ['exceptions, standard output and error, logging, warnings, str and repr'])
add('C37','Operations do not influence each other',
 'What an operation returns or reports depends only on the key set, the input and fresh randomness, and not on what was done before in the process, with the same or another opened key set, session or stream, successfully or not: after any history of encrypting, decrypting, signing, verifying, streaming, holding sessions, opening and changing sets, also ones that have keys in common, and after any number of refused inputs, genuine values are accepted, others are refused with the same outcome, and new outputs are made with the keys of the set that is used.',
 ['histories'],'all sequences of operations up to the depth bound, repetitions and rotations',
 'The tests do one or two operations per object.',
 ['keyczar.py','keys.py','util.py','keydata.py'],
 [('key lookup','keyczar.py Keyczar.GetKey, _GetPrimaryKey'),('per-call ciphers and digests','keys.py AesKey, HmacKey'),('memoisation','util.py Memoize'),('sessions','keyczar.py _Session')],
 ['results of all operations'])
add('C38','A key set opened while a command changes it is the one before or the one after',
 'A key set that is opened, in whatever class, while another process runs a create, add-key, promote, demote, revoke or public-export command on it is the set from before or the set from after the command: its metadata, primary and keys belong together and none is missing, at whatever point of the command each file is read. The opening fails with an error only if there was no set before the command, if the command encrypts an empty set or if it revokes a key.',
 ['schedules','histories'],'all interleavings of the file accesses of an opening with those of a command, in all states and for all commands in the bound',
 'The tests open key sets that nobody changes.',
 ['keyczar.py','readers.py','writers.py','keyczart.py','util.py'],
 [('metadata read once, then the keys','keyczar.py Keyczar.__init__, readers.py FileReader'),('keys written before, removed after the metadata','keyczar.py GenericKeyczar.Write, keyczart.py Revoke, UpdateGenericKeyczar'),('files replaced as a whole','util.py WriteFile')],
 ['opened key set compared with the stored ones before and after'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
