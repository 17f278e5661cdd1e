claim("C01", "proof", "BlockBasedStream read/write/resize proved for all sizes, offsets, lengths; the block layer is a contract")
claim("C02", "proof", "block read/write, header, size formulas proved; block and nonce size fixed per proof (4096/12; 100/32 thorough), arbitrary ones bounded; AES-GCM assumed")
NA["C19"] = "interleavings are outside sequential function contracts; the verifier has no model of concurrency"
NA["C20"] = "crash points are whole-history properties of storage between calls, not expressible as per-call contracts here"
claim("C16", "proof", "hexify, parse_hex, base32_encode, integer stores/loads and checked_cast proved for every input; base32_decode bounded (text up to 40 characters)")
claim("C05", "proof", "S2V, CTR use and the verdict proved for every text/AD length; AES-CMAC and AES-CTR of the library assumed, checked boundedly")
claim("C06", "proof", "hkdf, hkdf_expand, hmac_sha256_* proved for every length; HMAC-SHA256 of the library assumed, checked boundedly")
claim("C17", "proof", "traced_call and every entry of the libfuse table proved for every exception kind, error number and result; logging code checked natively")
claim("C18", "proof", "every operation through every wrapper and the libfuse table proved for all argument values; unmount itself replaced by a recorder")
claim("C03", "proof", "block read/write, sizes, header, limits and the authentication code of the metadata stream proved for all contents, offsets and lengths (block/nonce size 4096/12, thorough also 256/32); AES-GCM and HMAC of the library assumed, checked boundedly")
claim("C04", "proof", "every operation of both wrappers proved to act on the stream under it for all offsets, lengths and paddings; sequences by induction")
claim("C08", "proof", "header load/store, setters, stat, utimens, open, flush, symlink target and casts proved for every field value; sequences by induction, repeated natively on the real streams")
claim("C14", "proof", "every xattr operation of both formats and the name encryption proved for all names, values and sizes; the decoding loop of the listing, AES-GCM, AES-SIV and base64 checked boundedly")
claim("C10", "proof", "component decryption, path encryption (up to three components of any length), symlink encoding, normalisation, plain names, splitting off the last component and the choice of translator proved; AES-SIV, base32 and Unicode normalisation are contracts (C05, C16; stand-in), all checked end to end boundedly")
claim("C12", "proof", "every operation of the lite format (make, remove, rename, attributes, open, I/O, truncate, readlink, getattr) proved over contracts of the underlying file system, the translator, the table of long names and the streams; listings symbolically for at most two entries (bounded); SQLite and whole histories boundedly on a real directory")
claim("C13", "proof", "encrypt, both decrypts, the dispatch on the file's form and the key-file code proved for all passwords, key files, costs, tags, nonces and texts over contracts of the key derivations, AES-GCM, hex decoding and protobuf; wrong secrets and alterations of real files checked boundedly with the real libraries")
claim("C15", "proof", "path joining, the root, every operation of OSService and UnixFileStream and directory reading proved for all paths, arguments and results over contracts of the system calls; the real calls boundedly against direct POSIX calls")
claim("C11", "proof", "every operation of the full format proved for all trees, names, attributes and results over contracts of the file table, the directories, the file objects and the walk along the path; the walk, symlink resolution and whole histories boundedly against a reference file system on the real directories, streams and file table")
claim("C09", "proof", "opening, creating and closing proved for every id, holder count, link count and number of kept files (opening: 0, 1 and 6 kept files in the quick tier, all sizes in the thorough one), the shard and both storage layouts for every id; over contracts of the storage, the file objects and the hash map; whole histories with eviction boundedly on the real objects")
claim("C07", "proof", "every operation on the nodes of the tree proved for every node size, position and order of names, over contracts of the others; pages, the list of free pages, the cache of nodes and the page layout for every page number; a lookup over more than one level and the entry that replaces an inner one for small trees; rebuilding and whole histories boundedly on the real objects")
