#!/usr/bin/env python3
"""Source of properties.jsonl (run: tools/props.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                 "observe_at": observe or []}})


prop("C01", "A block based stream behaves as a POSIX byte array",
     "For every block size, stream content, offset and length: a read returns exactly the bytes of the stream in the requested range, cut at its end; a write replaces exactly the requested range, extends the size only when needed and zero fills the gap past the old end; a resize keeps the common prefix and zero fills the rest. No other byte changes, and no access leaves the caller's buffer.",
     ["inputs"], "all block sizes, stream lengths, offsets, lengths and contents",
     "The alignment cases (head, whole blocks, tail, holes, sparse or not) multiply; tests sample a handful of sizes and offsets.",
     ["sources/streams.cpp", "sources/streams.h"],
     [("BlockBasedStream::read/write/resize/read_block/write_block/zero_fill/ unaligned cases", "sources/streams.cpp")],
     ["StreamBase::read", "StreamBase::write", "StreamBase::resize", "StreamBase::size"])

prop("C02", "Lite-format file content: encrypted, authenticated, position bound",
     "In the lite format every stored data block is nonce, ciphertext, tag under the per-file key, bound to its block number, with a fresh non-zero nonce for every block written; reading yields exactly the plaintext last written or fails with a verification error when the stored block was altered or moved and verification is on. The plaintext size and the stored size determine each other exactly, for every size.",
     ["inputs", "fault_sequences"], "all block/iv/padding sizes, file sizes, block numbers, contents and alterations of the stored bytes",
     "Tests use a few block sizes and do not alter every byte or check the layout of every block.",
     ["sources/lite_stream.cpp", "sources/lite_stream.h"],
     [("AESGCMCryptStream block read/write, size formulas, header", "sources/lite_stream.cpp")])

prop("C03", "Full-format file content: encrypted, authenticated, position bound",
     "In the full format every data block is encrypted under the file's key with a fresh nonce and stored as ciphertext at its block's offset with nonce and tag in the metadata stream at the position of that block, authenticated together with the file id; the whole metadata stream (header, nonces and tags in block order) is authenticated by an HMAC under its own key and the file id, renewed at every flush. A block whose data and metadata entry are all zero is a hole of zeros. With verification on, a file whose metadata stream or id was altered is refused when opened, and reading a block whose data, nonce or tag was altered fails with a verification error; otherwise reading yields what was last written.",
     ["inputs", "fault_sequences"], "all block sizes, sizes, block numbers, contents and alterations",
     "Tests use a few block sizes and do not alter every byte or check every position.",
     ["sources/streams.cpp", "sources/streams.h"],
     [("AESGCMCryptStream (full)", "sources/streams.cpp"), ("HMACStream", "sources/streams.cpp")])

prop("C04", "Stream wrappers are transparent",
     "A padded stream exposes exactly the bytes after its random padding for every padding size, offset and length, and its size and resize agree with that view; a write-cached stream is observably equal to the stream under it for every sequence of reads, writes, resizes and flushes.",
     ["inputs", "histories"], "all padding sizes, offsets, lengths; all operation sequences on the cached stream",
     "Overlap of the cached range with reads and writes has many relative positions; tests sample few.",
     ["sources/streams.cpp", "sources/lite_stream.cpp"],
     [("PaddedStream", "sources/streams.cpp"), ("write-cached stream", "sources/streams.cpp")])

prop("C05", "Deterministic name/key encryption is AES-SIV and rejects forgeries",
     "The deterministic authenticated encryption equals AES-SIV of RFC 5297 with one optional associated-data string for every message and associated-data length, decryption inverts it, and any change to tag, ciphertext or associated data makes decryption report failure.",
     ["inputs"], "all keys, message lengths, associated data and alterations",
     "Tests run a few RFC vectors; the padding/xor-end cases depend on lengths around the block size.",
     ["sources/crypto.cpp", "sources/crypto.h"], [("AES_SIV::s2v/encrypt_and_authenticate/decrypt_and_verify", "sources/crypto.cpp")])

prop("C06", "HKDF derives RFC 5869 output of any requested length",
     "The key derivation equals HKDF-SHA256 of RFC 5869 (with the documented behaviour for an empty salt) for every key, salt, info and output length, and refuses lengths that the standard does not allow instead of returning short output.",
     ["inputs"], "all key, salt, info and output lengths", "Tests use a few vectors.",
     ["sources/crypto.cpp"], [("hkdf, hkdf_expand, hkdf_with_password", "sources/crypto.cpp")])

prop("C07", "A directory behaves as a map from name to (id, type)",
     "After any sequence of additions, removals and lookups a directory holds exactly the entries added and not removed: lookups of present names return their id and type, absent names are reported absent, adding a present name is refused without change, iteration lists each entry exactly once, and the directory is empty exactly when no entry is left; the same holds after it is flushed, closed and reopened.",
     ["histories", "inputs"], "all operation sequences and name lengths",
     "B-tree splits, merges and rotations depend on history; tests run one random sequence.",
     ["sources/btree_dir.cpp", "sources/btree_dir.h", "sources/files.h"], [("BtreeDirectory", "sources/btree_dir.cpp")])

prop("C08", "File metadata persists exactly",
     "The mode, owner, group, link count and times a file object holds are written to its header and read back unchanged for every value; setting one leaves the others unchanged; utimens stores the two times given, or the current time when none is given, and sets the change time to the current time; a symbolic link keeps its target; the type of a file object is fixed and using it as another type is refused.",
     ["inputs", "histories"], "all field values and update sequences", "Tests check few values.",
     ["sources/files.cpp", "sources/files.h"], [("FileBase::initialize_empty/read_header/write_header/utimens/stat", "sources/files.cpp")])

prop("C09", "One object per open id; storage removed only after unlink and last close",
     "Opening the same id twice yields the same file object; a file stays open while any holder remains; when the last holder closes it, it is flushed and its storage is kept unless it was marked unlinked, in which case exactly its two backing files are removed; creating an id that exists is refused and every id maps to its own backing paths.",
     ["histories", "inputs"], "all sequences of open/create/close/unlink over all ids",
     "Depends on histories and cache eviction.", ["sources/file_table_v2.cpp", "sources/file_table_v2.h", "sources/files.cpp"],
     [("FileTable, FileTableIO", "sources/file_table_v2.cpp")])

prop("C10", "Lite-format name translation is a keyed bijection on paths",
     "Every virtual path component is translated deterministically to a stored name that decodes back to the same (normalised) component under the same key; different components never share a stored name; stored names contain neither separators nor the plaintext; over-long names are stored under a keyed hash plus a table entry; a stored name whose decoded bytes were altered is rejected; symlink targets round-trip.",
     ["inputs", "configurations"], "all component contents and lengths, all normalisation settings",
     "Tests sample a few names.", ["sources/lite_format.cpp", "sources/lite_format.h", "sources/mystring.cpp"],
     [("NameTranslator implementations", "sources/lite_format.cpp")])

prop("C11", "Full-format operations have POSIX effects or fail without effect",
     "Lookup, create, mkdir, symlink, link, unlink, rmdir and rename on the full format have the effects POSIX states on the tree, keep link counts, never detach a non-empty directory, and report the POSIX error with the tree unchanged when they must fail.",
     ["histories", "inputs"], "all trees, paths and operation sequences",
     "Histories and error paths; tests run one happy path.", ["sources/full_format.cpp"], [("FuseHighLevelOps", "sources/full_format.cpp")])

prop("C12", "Lite-format operations have POSIX effects on the decrypted tree",
     "Each lite-format operation acts on exactly the underlying object whose decrypted path is the given one, listings show each stored name decrypted exactly once and never an entry that does not decrypt, sizes reported equal the plaintext sizes, the table of long names of a directory holds exactly the long names that are in it, and a failing operation leaves the tree and the long-name table unchanged.",
     ["histories", "inputs"], "all trees, names, and operation sequences",
     "Histories, long names and error paths.", ["sources/lite_format.cpp", "sources/lite_long_name_lookup_table.cpp"],
     [("FuseHighLevelOps, DirectoryImpl, LongNameLookupTable", "sources/lite_format.cpp")])

prop("C13", "Master keys are recovered only by the right password and key file",
     "Encrypting the volume parameters under a password and key file and decrypting with the same yields the same parameters, for every parameter set and every supported key derivation; any other password or key file, and any altered ciphertext, tag, salt or derivation parameter, is rejected.",
     ["inputs", "fault_sequences", "configurations"], "all passwords, key files, parameter sets and alterations",
     "Tests use one password.", ["sources/params_io.cpp"], [("encrypt/decrypt", "sources/params_io.cpp")])

prop("C14", "Extended attributes round-trip encrypted",
     "Attribute names and values are stored encrypted and authenticated (a fresh nonce for every value; the full format also binds value to file and name) and read back exactly, for every name and value length and every sufficient buffer; a size query (no buffer) returns the plaintext length; a short caller buffer is refused with ERANGE and altered values are rejected; listing yields exactly the names that decrypt, each once, NUL terminated; setting or removing one attribute leaves the others alone.",
     ["inputs", "fault_sequences"], "all names, values, lengths and buffer sizes", "Buffer size cases.",
     ["sources/lite_format.cpp", "sources/files.cpp", "sources/xattr_name.cpp"], [("XattrCryptor, transform_listxattr_result", "sources/xattr_name.cpp")])

prop("C15", "Path handling stays inside the mounted root",
     "Joining a directory and a path gives directory, separator, path (an absolute path is kept as it is, a directory that is not absolute is refused) for every text; the root is resolved once and every operation of the underlying file system acts on exactly the given path relative to that open directory, with the given arguments, without following a final link, and reports every failure with its error number; the same holds for the reads, writes and other calls on the files opened there.",
     ["inputs", "fault_sequences"], "all root and path strings, arguments and results of the system calls",
     "String edge cases.", ["sources/unix.cpp"], [("OSService::concat_and_norm, OSService operations, UnixFileStream", "sources/unix.cpp")])

prop("C16", "Text and integer encodings are exact inverses",
     "Hex and base32 text encodings decode to the original bytes for every byte string; a text with a character outside the alphabet or of an impossible length is refused (base32 is case-insensitive and its unused trailing bits are ignored); little and big endian integer stores and loads are inverse for every value; checked conversions return the value or fail, never truncate.",
     ["inputs"], "all byte strings, texts and integers", "Bit positions at partial groups; invalid characters.",
     ["sources/mystring.cpp", "sources/mystring.h", "sources/myutils.h"], [("hexify/parse_hex/base32_encode/base32_decode/to_little_endian/from_little_endian", "sources/mystring.cpp")])

prop("C17", "Every failure reaches the caller as the right negative errno",
     "For every operation in the table given to libfuse and every standard exception the implementation raises, the operation returns the negative errno the exception stands for (its own number for VFS and POSIX errors, EINVAL for invalid arguments, EFBIG for streams that would get too long, EPERM for all others such as verification failures), or the implementation's own result when it raises none; no such exception crosses the boundary, at every logging level.",
     ["inputs", "fault_sequences"], "all operations, all exception classes and error numbers 1 to 4095", "Thirty entry points times ten exception kinds, and the logging code runs inside them.",
     ["sources/fuse_tracer_v2.h", "sources/fuse_tracer_v2.cpp", "sources/fuse_high_level_ops_base.cpp", "sources/exceptions.h"],
     [("FuseTracer::traced_call", "sources/fuse_tracer_v2.h")])

prop("C18", "Layered operation wrappers forward every argument and result unchanged",
     "Every file-system operation, called through the libfuse table or through any wrapper (activity hook, sensitive logging, unmount support), reaches the inner implementation exactly once with exactly the caller's arguments and its result is returned unchanged, except that ENOSYS of an ioctl becomes ENOTSUP under unmount support; an operation is in the table exactly when it is supported; the wrappers answer only the mount query, the unmount requests and the special directory themselves; the activity hook is told of every operation.",
     ["inputs"], "all operations, argument values and wrapper combinations", "Thirty operations, easy to swap arguments.",
     ["sources/fuse_high_level_ops_base.cpp", "sources/fuse_high_level_ops_base.h", "sources/fuse_hook.h"], [("FuseHighLevelOpsBase::static_*, build_ops, DelegateFuseHighLevelOps, HookedFuseHighLevelOps", "sources/fuse_high_level_ops_base.cpp")])

prop("C19", "Concurrent operations are linearizable",
     "Operations issued concurrently through the mount have the same results as some order of issuing them one after another.",
     ["schedules"], "all interleavings", "Schedules.", ["sources/full_format.cpp", "sources/lite_format.cpp", "sources/file_table_v2.cpp"],
     [("per-file and per-directory locks", "sources/files.h")])

prop("C20", "A crash loses at most unflushed data",
     "After a crash at any point the volume mounts, data flushed before the crash is intact and no file shows bytes that were never written to it.",
     ["crash_points"], "all crash points", "Crash points.", ["sources/streams.cpp", "sources/btree_dir.cpp", "sources/lite_long_name_lookup_table.cpp"],
     [("write ordering", "sources/streams.cpp")])

for p in P:
    print(json.dumps(p))
