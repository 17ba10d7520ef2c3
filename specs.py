"""What is checked: one entry per property. gen.py turns this into properties.jsonl and MANIFEST.json; check.py runs it."""
def E(entry, *reach, **kw): return dict(entry=entry, reach=list(reach), **kw)
def T(entry, *reach, **kw): return dict(entry=entry, reach=list(reach), thorough_only=True, **kw)
SVC = "src/service.rs"
SPECS = {}
SPECS["P01"] = dict(
    title="No storage operation runs unless the request is authenticated",
    statement="When an authentication provider is set, a request that carries no credentials, malformed credentials, an unknown access key or a signature that does not match is refused, and no storage operation sees any of it. This holds for header-signed, presigned and POST-form requests and for every operation.",
    over=["inputs"], quant="all operations x all ways of leaving out, garbling or falsifying the credentials (arbitrary signature, key and date bytes within the bounds)",
    why="The tests send a few signed requests with correct credentials; they never quantify over wrong ones, nor over the operations and the three ways to sign.",
    files=["src/service.rs", "src/signature_v4.rs", "src/auth.rs", "src/headers/authorization_v4.rs"],
    mech=[("check_signature and its three variants run before dispatch", "src/service.rs"), ("lookup of the secret key", "src/auth.rs")],
    entries=[E("a_gate_header"), E("a_gate_garbage"), E("a_gate_presigned"), E("a_gate_form"), E("a_gate_other"), E("a_keys", "accepted", "refused")],
    bounds="16 operations; signatures off by an arbitrary non-zero 32-byte mask, arbitrary symbolic bytes in each credential field (up to 8 at a time), missing and duplicate fields; eight access keys (also empty, prefixes, other case) with symbolic 3-character secrets, a secret registered twice, a failing provider.", outside="clock skew of header-signed requests; conditions of POST policies.")
SPECS["P02"] = dict(
    title="A signature authorises only the request that was signed",
    statement="A request accepted under a signature is, in method, path, query, signed headers and payload hash, the one its signer signed: any change of one of these makes the service refuse it. Header-signed, presigned and chunked requests alike.",
    over=["inputs"], quant="all pairs of a signed request and a different request sent with the same signature, within the bounds",
    why="The unit tests compare a handful of canonical strings with AWS examples; they cannot show that two different requests never share one.",
    files=["src/signature_v4.rs", "src/service.rs"], mech=[("canonical request and string to sign", "src/signature_v4.rs"), ("signature comparison", "src/service.rs")],
    entries=[E("a_tamper_path"), E("a_tamper_query"), E("a_tamper_rest"), E("a_tamper_unsigned_header"), E("a_tamper_payload"), E("a_tamper_many")],
    bounds="paths and query strings with up to 3 symbolic bytes on the signed and the sent side (also reserved characters, shifted separators, swapped names and values), every method, header and payload altered by symbolic bytes, headers added, dropped, repeated and joined; other payloads for eight kinds of requests; one of 20 or 70 headers or parameters, and one byte of a key, value or body of 70 to 1000 bytes, altered.", outside="values that differ only in runs of blanks, which Signature Version 4 folds; HMAC secrets that differ only in trailing NUL bytes.")
SPECS["P03"] = dict(
    title="Correctly signed requests are accepted",
    statement="Every request signed as AWS Signature Version 4 prescribes, with a registered key, is accepted and reaches the operation it names, whatever bytes its path, query, header values, region, service and payload contain.",
    over=["inputs"], quant="all requests signed by an independent reference signer within the bounds",
    why="The tests replay AWS' documented examples, whose paths and queries need no escaping, sorting or normalisation.",
    files=["src/signature_v4.rs", "src/service.rs", "src/data_structures/ordered_qs.rs", "src/data_structures/ordered_headers.rs"],
    mech=[("canonical URI, query and headers", "src/signature_v4.rs"), ("percent decoding of the path and query", "src/service.rs")],
    entries=[E("a_accept_ops", "accepted"), E("a_accept_bytes"), E("a_accept_utf8"), E("a_accept_sizes"), E("a_accept_scope"), E("a_accept_form")],
    bounds="16 operations x 5 ways of signing x query orders; path, query and header bytes (also of header names) arbitrary (2 symbolic bytes, all UTF-8 lengths), payloads up to 3 symbolic bytes, and of 0 to several thousand bytes in one or more pieces.", outside="header values beyond ASCII, which are refused; a signed header sent several times, whose lines the server signs one by one instead of joined, so that it refuses such a request.")
SPECS["P04"] = dict(
    title="A presigned URL works exactly within its validity period",
    statement="A correctly presigned request is accepted when the current time lies in [X-Amz-Date, X-Amz-Date + X-Amz-Expires] and refused before or after, for every clock reading. Malformed or missing presigning fields are refused.",
    over=["inputs", "configurations"], quant="all clock readings, dates and validity periods within the bounds",
    why="No test controls the clock, so no test can observe expiry.",
    files=["src/service.rs", "src/data_structures/presigned_url.rs", "src/headers/amz_date.rs"], mech=[("validity period", "src/service.rs"), ("date parsing", "src/headers/amz_date.rs")],
    entries=[E("a_expiry"), E("a_expiry_dates"), E("a_expiry_fields")],
    bounds="64-bit symbolic clock, symbolic validity period digits, dates over leap days and month ends.", outside="validity periods above 604800 s are not refused.")
SPECS["P13"] = dict(
    title="GET returns exactly the bytes the last PUT stored",
    statement="After a successful PUT of an object, GET returns exactly its bytes and size and HEAD the same size, and both ETags are the MD5 of the data, however the body was fragmented whatever the key held before, and however much each system call transfers. A key that holds nothing is answered with NoSuchKey.",
    over=["inputs", "histories"], quant="all contents, sizes around buffer boundaries, fragmentations and previous contents within the bounds",
    why="The tests store one short literal in one piece.",
    files=["src/storages/fs.rs", "src/ops/put_object.rs", "src/ops/get_object.rs", "src/utils/body.rs"], mech=[("write to a temporary file, then rename", "src/storages/fs.rs")],
    entries=[E("d_put_small", "roundtrip"), E("d_put_large", "roundtrip"), E("d_huge", "roundtrip"), E("d_put_key", "stored", "refused"), E("d_short", "short"), E("d_absent", "absent", "refused")],
    bounds="sizes 0-4 with every fragmentation, 4095-12289 around the buffer boundaries with all bytes symbolic, 65535-1048577 with a fixed pattern and symbolic bytes near the end, keys of symbolic bytes and of up to 5000 bytes; system calls that transfer 1 to 8191 bytes at a time.")
SPECS["P05"] = dict(
    title="An aws-chunked upload that differs from the signed one is refused",
    statement="In an upload signed chunk by chunk (STREAMING-AWS4-HMAC-SHA256-PAYLOAD), any change of a chunk's data, size or signature, any reordering, repetition, omission or merging of chunks, and any early end, abort or foreign continuation makes the upload fail; only data of verified chunks reaches the storage, never as a body that ends regularly, and a previously stored object stays as it was.",
    over=["inputs"], quant="all chunk sequences within the bounds x all data masks, forged signatures, size characters, cut positions and tail bytes",
    why="The unit test feeds one intact chunked body of AWS' documentation.",
    files=["src/streams/aws_chunked_stream.rs", "src/service.rs", "src/signature_v4.rs"], mech=[("chunk signature chain and end of stream", "src/streams/aws_chunked_stream.rs"), ("body replaced by the verifying stream", "src/service.rs")],
    entries=[E("b_chunk_tamper", "tampered"), E("b_chunk_truncate", "tampered"), E("b_chunk_long_tamper", "tampered"), E("b_chunk_store", "refused")],
    bounds="up to 3 data chunks of up to 3 symbolic bytes, 9 kinds of tampering at every chunk, arbitrary printable forged signatures, every truncation position and anything after the complete body; any change of one byte of early, middle and late chunks of uploads of 300 chunks and of 64 KiB chunks; PutObject and UploadPart.")
SPECS["P06"] = dict(
    title="aws-chunked bodies decode to exactly their data, however the network fragments them",
    statement="A correctly signed aws-chunked upload is accepted and the storage receives exactly the concatenated data of its chunks, for all data, chunk sizes and ways the transport splits the body into pieces.",
    over=["inputs", "schedules"], quant="all data bytes x all fragmentations within the bounds",
    why="The unit tests use one fragmentation; fragment boundaries inside the size line, the signature or the line ends are not sampled.",
    files=["src/streams/aws_chunked_stream.rs", "src/service.rs"], mech=[("incremental chunk parser", "src/streams/aws_chunked_stream.rs")],
    entries=[E("b_chunk_frag", "decoded"), E("b_chunk_pairs", "decoded"), E("b_chunk_sizes", "decoded"), E("b_chunk_long", "decoded"), E("b_chunk_empty", "decoded")],
    bounds="every single cut, every pair of cuts of a one-chunk body, near pairs and regular pieces of 1-7 bytes of bodies with up to 3 chunks, empty pieces; chunk sizes 1-65537 around powers of 16, leading zeros and upper case; 300 chunks in one upload, chunks of a megabyte.")
SPECS["P07"] = dict(
    title="Browser form uploads are parsed exactly, however the network fragments them",
    statement="A POST-form upload stores exactly the bytes of its file field under the key of its key field, for all contents (including ones that resemble the boundary), field orders and fragmentations of the body; a form that ends early is refused and never stored as if it were complete.",
    over=["inputs", "schedules"], quant="all file bytes, near-boundary contents and fragmentations within the bounds",
    why="The unit tests parse two literal bodies split at a few fixed places.",
    files=["src/streams/multipart.rs", "src/service.rs", "src/ops/put_object.rs"], mech=[("line and boundary scanner", "src/streams/multipart.rs")],
    entries=[E("b_form_cut1"), E("b_form_cut2"), E("b_form_pieces"), E("b_form_sizes"), E("b_form_fields"), E("b_form_names", "stored"), E("b_form_headers", "stored"), E("b_form_lines"), E("b_form_truncate")],
    bounds="one and two cuts at every position, regular pieces, file sizes up to several kilobytes, contents of up to 6 symbolic bytes mixed with CR, LF, dashes and boundary prefixes.", outside="parts with more than sixteen headers; Content-Disposition parameters in other orders or encodings, which are refused; ${filename} substitution.")
SPECS["P08"] = dict(
    title="The path names the bucket and the key exactly",
    statement="Every request path is read as /bucket/key: the operation receives exactly the percent-decoded bucket and key, a bucket name is accepted exactly when S3's naming rules admit it, keys longer than 1024 bytes are refused, and nothing else is altered on the way; the shared form of the service, which an HTTP server drives, answers exactly as the service itself.",
    over=["inputs"], quant="all bucket names and keys within the bounds",
    why="The unit test lists a dozen names; the rules have to hold for every string.",
    files=["src/path.rs", "src/service.rs"], mech=[("S3Path::try_from_path", "src/path.rs"), ("percent decoding", "src/service.rs")],
    entries=[E("r_shared", "called", "refused"), E("r_bucket", "valid", "invalid"), E("r_key", "key", "refused"), E("r_key_len", "accepted", "refused")],
    bounds="bucket names of up to 5 arbitrary symbolic bytes and of lengths around 3 and 63, IP-like names; keys of up to 3 arbitrary bytes in several positions and of lengths around 1024.", outside="bucket names with two adjacent periods.")
SPECS["P11"] = dict(
    title="Every request reaches exactly the operation it names, with its parameters",
    statement="The method, the path and the query decide the operation as S3 documents it; sub-resources the server does not implement are refused and never run another operation; query parameters and headers arrive at the storage with their exact decoded values, in any order.",
    over=["inputs"], quant="all methods x paths x query names (symbolic bytes) x parameter orders and values within the bounds",
    why="The tests send one request per operation; they cannot show that no other request is mistaken for one.",
    files=["src/service.rs", "src/ops/mod.rs", "src/ops/put_object.rs", "src/ops/list_objects_v2.rs", "src/data_structures/ordered_qs.rs"], mech=[("handler selection", "src/service.rs"), ("is_match and parameter extraction", "src/ops/mod.rs")],
    entries=[E("r_unsupported", "refused"), E("r_unsupported_other", "refused"), E("r_unknown", "same"), E("r_params", "params"), E("r_header_params", "params"), E("r_all_params", "params")],
    bounds="all documented sub-resources with every method, query names of up to 3 symbolic bytes, parameter values of up to 3 symbolic bytes, all rotations of the query; every header and query parameter of 15 operations, alone and all together, with 2 symbolic characters each.")
SPECS["P12"] = dict(
    title="Every request gets a well-formed answer",
    statement="Whatever bytes a request carries in its method, target, headers and body, the service answers: it neither panics nor hangs nor leaks file descriptors, the status is a valid one, and an error body is well-formed S3 error XML.",
    over=["inputs"], quant="all header values, query strings, targets and bodies within the bounds",
    why="A panic hides behind inputs no test contains.",
    files=["src/service.rs", "src/output.rs", "src/errors.rs", "src/utils/body.rs", "src/storages/fs.rs"], mech=[("conversion of errors into responses", "src/service.rs")],
    entries=[E("r_garbage_header", "answered"), E("r_garbage_query", "answered"), E("r_garbage_uri", "answered"), E("r_garbage_body", "answered"), E("r_garbage_form", "answered"), E("r_garbage_signed_form", "answered", "stored"), E("r_garbage_chunked", "answered")],
    bounds="up to 4 arbitrary bytes at every interesting position (all header names the service reads, whole query, target, XML bodies; unsigned and correctly signed forms and aws-chunked bodies with any byte changed, removed or inserted, forms with fields dropped, doubled or filled with 2 symbolic bytes); overflow checks on.")
SPECS["P21"] = dict(
    title="Responses carry the storage's answer exactly",
    statement="Status, headers and body of every successful response are those S3 prescribes for what the storage returned: every header holds the value of its own field, or the answer is an error when no header can carry it, and there are no others. The XML of every response parses, has the root and element names S3 documents, and its texts are exactly the values the storage returned, whatever characters they contain; absent values leave no element and no header.",
    over=["inputs"], quant="all result texts (symbolic characters, including every XML special character and multi-byte UTF-8) x present or absent",
    why="The tests compare one listing; escaping and element structure are sampled once.",
    files=["src/utils/xml.rs", "src/ops/list_objects.rs", "src/ops/list_objects_v2.rs", "src/ops/list_buckets.rs", "src/ops/copy_object.rs", "src/ops/complete_multipart_upload.rs"], mech=[("XmlWriterExt", "src/utils/xml.rs"), ("S3Output implementations", "src/ops/mod.rs")],
    entries=[E("x_out", "document"), E("x_out_absent", "document"), E("x_headers", "headers", "refused")],
    bounds="2 symbolic characters per text, each text in turn, and texts that look like entities or markup; all eight operations with XML answers; all header fields of 15 operations, with values of 2 symbolic printable characters or any one ASCII character.", outside="control characters XML 1.0 cannot express.")
SPECS["P22"] = dict(
    title="XML request bodies are read exactly or refused",
    statement="DeleteObjects, CompleteMultipartUpload and CreateBucket act on exactly the keys, versions, part numbers, ETags and location their XML body lists, in order, whatever characters the texts contain and however elements are laid out; a malformed body is refused before the storage is called.",
    over=["inputs"], quant="all texts (symbolic characters, escaped) x layouts x malformed variants within the bounds",
    why="No test sends these bodies with anything but plain names.",
    files=["src/ops/delete_objects.rs", "src/ops/complete_multipart_upload.rs", "src/ops/create_bucket.rs", "src/utils/body.rs"], mech=[("deserialize_xml_body", "src/utils/body.rs")],
    entries=[E("x_delete"), E("x_long", "long"), E("x_complete"), E("x_create"), E("x_refuse")],
    bounds="up to 3 listed entries, 2 symbolic characters each, several layouts; lists of up to 1500 keys and 10000 parts with one symbolic character.")
SPECS["P26"] = dict(
    title="Error answers report the storage's error code, status and message",
    statement="When the storage fails with an error code, the response has the HTTP status S3 assigns to that code and an Error document with the code's name and the exact message, for every code and every message.",
    over=["inputs"], quant="all error codes x all messages within the bounds x operations",
    why="No test provokes more than a couple of the codes.",
    files=["src/errors.rs", "src/service.rs", "src/output.rs"], mech=[("S3ErrorCode status and names", "src/errors.rs")],
    entries=[E("x_error"), E("x_error_own"), E("x_code_names")],
    bounds="every code in S3ErrorCode; messages of up to 2 symbolic characters.")
FS = "src/storages/fs.rs"
SPECS["P09"] = dict(
    title="The storage touches nothing outside the bucket a request names",
    statement="Whatever bucket, key, copy source, upload id, part number or deleted key a request carries, the file system storage reads, writes and removes only files of the named buckets and its own bookkeeping files directly under its root; nothing outside is read, changed or revealed.",
    over=["inputs"], quant="all names within the bounds (dots, slashes, backslashes, percent signs, arbitrary bytes) x every operation",
    why="A handful of ../ examples does not show that no other spelling escapes.",
    files=[FS, "src/path.rs", "src/service.rs"], mech=[("get_object_path, get_bucket_path, get_part_path", FS), ("bucket name check", "src/path.rs")], observe=["every path handed to the C library"],
    entries=[E("l_confined", "done", "refused"), E("l_confined_bucket", "refused", "done")],
    bounds="names of up to 5 symbolic bytes, also between ../ pieces and names of real files outside; 11 operations; bucket part of up to 3 arbitrary bytes, before nothing, a hidden directory of the root and an absolute path into the root.", outside="symbolic links placed under the root by others.")
SPECS["P10"] = dict(
    title="Ranged GETs return exactly the requested bytes",
    statement="For every Range header and object size, GET answers 206 with exactly the requested bytes clamped to the object, the right Content-Range and Content-Length, or 416 when no byte is in range, or an error for a header that is no byte range; never other bytes.",
    over=["inputs"], quant="all range bounds (64-bit) x object sizes x contents within the bounds",
    why="Tests use one or two ranges inside one small object; the boundary cases are where it fails.",
    files=[FS, "src/headers/range.rs", "src/ops/get_object.rs", "src/data_structures/bytes_stream.rs"], mech=[("range clamping", FS), ("BytesStream limit", "src/data_structures/bytes_stream.rs")],
    entries=[E("d_range_small", "partial", "unsatisfiable"), E("d_range_big", "partial", "unsatisfiable"), E("d_range_any", "refused", "partial"), E("d_huge", "partial"), E("d_range_beyond", "beyond")],
    bounds="objects of 0-5 and around 4096, 8192, 65536 and 2^20 bytes, and (zeros read in one call, then symbolic bytes) around 2^31, 2^32 and 2^40, bounds of symbolic digits and around 2^63 and 2^64, arbitrary header bytes.", outside="multiple ranges (refused).")
SPECS["P14"] = dict(
    title="User metadata is stored and returned exactly, and belongs to one object version",
    statement="GET and HEAD return exactly the x-amz-meta-* names and values the current version was stored with (by PUT, form upload or copy); overwriting, copying or deleting an object replaces or removes its metadata, which never leaks to another or a later object.",
    over=["inputs", "histories"], quant="all header values and names within the bounds x all short histories of puts, copies, deletes and completions",
    why="No test stores metadata and then does something else with the key.",
    files=[FS, "src/ops/put_object.rs", "src/ops/get_object.rs", "src/ops/head_object.rs"], mech=[("metadata files", FS)],
    entries=[E("d_meta_value", "kept", "refused"), E("d_meta_name", "kept"), E("d_meta_many", "kept"), E("d_meta_key", "kept"), E("d_meta_key_far", "kept"), E("d_meta_history", "history"), T("d_meta_history5", "history"), E("d_meta_form", "kept")],
    bounds="values and names of up to 3 symbolic bytes, up to 70 names and 2000 bytes, keys of up to 1024 bytes that differ in one byte, histories of 3 operations on 2 keys (5 in the thorough check).", outside="metadata given to CreateMultipartUpload, which the storage does not keep.")
SPECS["P15"] = dict(
    title="An object is always old or new as a whole",
    statement="Whatever file system call fails, wherever the process dies or the client breaks off, whether in PUT, form upload, copy, multipart completion or deletion: afterwards the key holds the complete previous or the complete new object (a successful answer means the new one), other objects are untouched, no partial data is listed, no descriptor leaks, and the request can be repeated. A file system that cannot be read is reported as a server error, never as a missing object, bucket or part.",
    over=["faults", "crash points"], quant="all file system calls as the failing one and all state-changing ones as the last one (symbolic position), torn writes, all positions at which a body or a client breaks off, all contents within the bounds",
    why="The tests never fail a call, crash or drop a request.",
    files=[FS], mech=[("temporary file and rename", FS)], observe=["HTTP responses after the fault or a restart", "files under the root"],
    entries=[E("f_enospc", "fault", "no fault", "retried"), E("f_crash", "crash", "no crash"), E("f_body", "broken"), E("f_delete", "deleted"), E("f_read", "fault", "no fault", "retried"), E("c_cancel", "broken off", "finished"), E("c_cancel_read", "broken off", "finished")],
    bounds="one fault per request; contents of 3 symbolic bytes; old object absent, without or with metadata.", outside="loss of data written but not synchronised at a power failure; temporary files a crash leaves behind.",
    assumptions=["a crash keeps exactly the effects of the completed calls (plus half of a torn write)"])
SPECS["P16"] = dict(
    title="A completed multipart upload is exactly the concatenation of its parts",
    statement="CompleteMultipartUpload stores the concatenation of the latest uploads of exactly the listed parts in ascending order, or fails and changes nothing: missing parts, wrong ETags, wrong order and unknown uploads are refused. Parts are invisible before, and uploads do not mix.",
    over=["inputs", "histories"], quant="all contents, sizes, part lists and short histories within the bounds",
    why="No test uploads more than one literal part.",
    files=[FS, "src/ops/complete_multipart_upload.rs", "src/ops/upload_part.rs"], mech=[("part files and their concatenation", FS)],
    entries=[E("m_assemble", "assembled"), E("m_sizes"), E("m_history", "history"), T("m_history6", "history"), E("m_refuse", "refused"), E("m_ids", "refused"), E("m_huge", "assembled"), E("m_many", "assembled")],
    bounds="up to 3 parts of up to 3 symbolic bytes, sizes around 8192, one upload of 1003 parts, histories of 4 operations (6 in the thorough check).", outside="an upload id used with another key or bucket; minimum part size; part numbers above 10000.")
SPECS["P17"] = dict(
    title="Listings show exactly the stored objects",
    statement="ListObjects and ListObjectsV2 return exactly the stored keys of the bucket that start with the prefix, each once, in ascending byte order with its size, whatever the order of the directory entries.",
    over=["inputs", "histories"], quant="all sets of keys, prefixes and short histories within the bounds",
    why="Tests list a bucket with one object.",
    files=[FS, "src/ops/list_objects.rs", "src/ops/list_objects_v2.rs"], mech=[("directory walk, prefix filter and sort", FS)],
    entries=[E("l_sets", "listed"), E("l_prefix", "listed"), E("l_history", "history"), T("l_history5", "history"), E("l_many", "many"), E("d_range_beyond", "beyond")],
    bounds="sets of up to 4 of 8 nested names, keys and prefixes of up to 3 symbolic bytes, both directory orders, histories of 3 operations (5 in the thorough check), 1003 objects, sizes around 2^31, 2^32 and 2^40 (zeros read in one call, then symbolic bytes).", outside="max-keys, marker and delimiter, which the storage ignores.")
SPECS["P18"] = dict(
    title="Deleting removes exactly the named objects",
    statement="DeleteObject and DeleteObjects remove exactly the named objects, succeed for names that hold none, and leave every other object readable and unchanged.",
    over=["inputs"], quant="all deleted names against all stored names within the bounds",
    why="Tests delete the one object they stored.",
    files=[FS, "src/ops/delete_object.rs", "src/ops/delete_objects.rs"], mech=[("remove_object", FS)],
    entries=[E("l_delete_key", "deleted", "refused"), E("l_delete_last", "deleted"), E("l_delete_many", "deleted"), E("l_many", "many")],
    bounds="names of up to 3 symbolic bytes next to nested neighbours; lists of up to 3 names (with and without VersionId null and Quiet), and of 1002 names.")
SPECS["P19"] = dict(
    title="Buckets exist exactly between their creation and their deletion",
    statement="A bucket can be created once, is listed and found exactly while it exists, can be deleted only when it holds no object, and every operation on a missing bucket is refused with NoSuchBucket and creates nothing.",
    over=["inputs", "histories"], quant="all short histories over several buckets x all operations on missing buckets",
    why="Tests create one bucket once.",
    files=[FS, "src/ops/create_bucket.rs", "src/ops/delete_bucket.rs", "src/ops/list_buckets.rs"], mech=[("check_bucket", FS)],
    entries=[E("l_buckets", "history"), T("l_buckets5", "history"), E("l_missing_bucket", "refused"), E("l_bucket_full", "full"), E("l_bucket_names", "lived"), E("l_many", "many")],
    bounds="histories of 3 operations over 2 buckets (5 in the thorough check), 16 operations on a missing bucket, names of up to 12 symbolic letters (3 symbolic bytes of any kind), 1005 buckets.")
SPECS["P20"] = dict(
    title="CopyObject copies exactly the named source",
    statement="CopyObject makes the destination an exact copy of the named source object (content and metadata, or the metadata of the request with the directive REPLACE), leaves the source as it was, also onto itself and however the source is URL-encoded, and refuses missing or malformed sources without changing anything.",
    over=["inputs"], quant="all contents, source names and encodings within the bounds",
    why="Tests copy one plain name.",
    files=[FS, "src/headers/amz_copy_source.rs", "src/ops/copy_object.rs"], mech=[("copy_object", FS), ("copy source parser", "src/headers/amz_copy_source.rs")],
    entries=[E("d_copy", "copied"), E("d_copy_source", "copied"), E("d_copy_refused", "refused")],
    bounds="contents of up to 3 symbolic bytes, source keys of up to 3 symbolic bytes, percent-encoded or not.", outside="copy conditions.")
SPECS["P23"] = dict(
    title="Header parsers accept exactly the documented forms and read them exactly",
    statement="The Range, x-amz-date, x-amz-content-sha256, Authorization and x-amz-copy-source parsers accept a text only if it has the documented form, return exactly its fields, accept every text of that form, and never panic.",
    over=["inputs"], quant="all texts within the bounds: arbitrary bytes in every position, inserted, cut or replaced",
    why="The unit tests parse a few documented examples.",
    files=["src/headers/range.rs", "src/headers/amz_date.rs", "src/headers/amz_content_sha256.rs", "src/headers/authorization_v4.rs", "src/headers/amz_copy_source.rs"], mech=[("from_header_str", "src/headers")], observe=["results of the public parsers"],
    entries=[E("p_range", "range", "refused"), E("p_date", "date", "refused"), T("p_date_pairs", "date", "refused"), E("p_sha256", "unsigned", "chunks", "hash", "refused"), E("p_auth", "read", "refused"), E("p_auth_date", "read", "refused"), T("p_auth_date_pairs", "read"), E("p_copy", "read", "refused")],
    bounds="up to 5 symbolic bytes in one place, or 2 adjacent ones in any place, of each header; numbers around 2^63 and 2^64.")
SPECS["P24"] = dict(
    title="Objects with different keys are independent",
    statement="No operation on one key or bucket changes, reveals or destroys the content or metadata of an object with another key, however similar the two names are.",
    over=["inputs"], quant="all pairs of distinct keys within the bounds x operations",
    why="Tests use one key at a time.",
    files=[FS, "src/path.rs"], mech=[("path and metadata file of a key", FS)],
    entries=[E("l_isolation", "two", "deleted", "read"), E("d_meta_key_far", "kept")],
    bounds="pairs of keys that differ in up to 2 symbolic bytes, nested, long or in several buckets; PUT, copy, DELETE, GET.", outside="a key that is a directory of another one (refused).")
SPECS["P25"] = dict(
    title="Concurrent requests on an object act one after the other",
    statement="Requests that overlap in time on the same object (PUT, DELETE, CopyObject, CompleteMultipartUpload, GET, ranged GET, HEAD, listing) answer and leave the object as if one had run after the other: a GET returns one version as a whole with its own ETag and size, nothing fails because of the other, nothing is lost or left behind.",
    over=["schedules", "inputs"], quant="all schedules in which one request interrupts the other before any file system call (symbolic position), runs whole or for any number of its blocking calls, and continues after it; all ordered pairs of 10 requests",
    why="The tests run one request at a time.",
    files=[FS, "src/data_structures/bytes_stream.rs", "src/service.rs"], mech=[("temporary file and rename; open file kept while sending", FS)], observe=["both responses", "GET and listing afterwards"],
    entries=[E("c_pairs", "raced", "in turn"), E("c_split", "raced"), E("c_large", "raced"), E("c_three", "raced"), T("c_three_all", "raced")],
    bounds="two requests, two context switches (three in c_split), contents of up to 3 symbolic bytes and of 9000 bytes; three requests of which two run, each as a whole, at any two points of the third.", outside="more requests at a time; content and metadata of one object as a pair (known finding).")
SPECS["P27"] = dict(
    title="Concurrent bucket and multipart requests act one after the other",
    statement="Requests that overlap in time on the same bucket (creation, deletion, listing, storing, copying) or the same multipart upload (parts, completion) answer and leave the store as if one had run after the other: no stored object is lost, no deleted bucket comes back, and a completed object consists of whole parts.",
    over=["schedules", "inputs"], quant="all schedules in which one request interrupts the other before any file system call (symbolic position), runs whole or for any number of its blocking calls, and continues after it; all ordered pairs of 11 bucket requests and 6 upload requests in all initial states",
    why="The tests run one request at a time.",
    files=[FS], mech=[("delete_bucket, create_bucket, create_object_dirs", FS), ("complete_multipart_upload", FS)], observe=["both responses", "the store afterwards"],
    entries=[E("c_buckets", "raced", "in turn"), E("c_buckets_split", "raced"), E("c_parts", "raced", "in turn"), E("c_parts_split", "raced"), E("c_buckets_three", "raced"), E("c_parts_three", "raced"), T("c_buckets_three_all", "raced")],
    bounds="two requests, two context switches (three in the _split entries), parts of 2 symbolic bytes; three requests of which two run, each as a whole, at any two points of the third.", outside="a request that stores into a bucket while its directories are being removed, or into a bucket (or removes one) that is removed and made again meanwhile, may fail with InternalError without effect.")
SPECS["P28"] = dict(
    title="Modification times are right and the same everywhere",
    statement="The Last-Modified header of GetObject, ranged GetObject and HeadObject (an HTTP date in GMT), the LastModified of both listings and of CopyObject's answer state the moment at which the object was stored by an upload, overwrite, copy, multipart completion or form, whatever the server's time zone and whatever is read, copied or fails later; ListBuckets states the moment at which a bucket was created, whatever is stored in it later.",
    over=["inputs", "histories"], quant="all seconds of nine 66-second windows (ends of minutes, days, months, leap days, years, centuries, the 32-bit limit), three sub-second values, five server time zones (one that changes within the window), six ways of storing, four later requests",
    why="The tests compare no times.",
    files=["src/utils/time.rs", FS, "src/ops/get_object.rs"], mech=[("rfc3339_to_last_modified, to_rfc3339", "src/utils/time.rs"), ("get_object, head_object, list_objects, copy_object, list_buckets", FS)], observe=["Last-Modified headers and LastModified, CreationDate elements"],
    entries=[E("t_objects", "stated"), E("t_buckets", "stated")],
    bounds="nine windows of 66 seconds, one object or bucket.", outside="file systems that keep no creation time; clocks set backwards.")
SPECS["P29"] = dict(features="server",
    title="The server program serves its root directory to holders of the configured credentials only",
    statement="Started with --access-key and --secret-key, the s3-server program answers requests signed with exactly that pair and refuses all others, on every connection; one of the two options alone, repeated, unknown or malformed arguments make it exit without serving, and without both it serves everyone. It serves exactly the directory --fs-root names (the current one by default) and ends with an error if there is none; it listens exactly once, at the host and port it is given (localhost:8014 by default), or ends with an error.",
    over=["configurations", "inputs"], quant="all values of the options and requests within the bounds",
    why="No test starts the program; the tests drive the service inside the process.",
    files=["src/bin/s3-server.rs", "src/auth.rs", "src/service.rs"], mech=[("Args and main", "src/bin/s3-server.rs"), ("into_shared, set_auth", "src/service.rs")],
    observe=["the answers on a connection", "files below the root directory", "the listening address"],
    entries=[E("s_auth", "accepted", "kept out"), E("s_args", "open", "refused"), E("s_root", "served", "no root"), E("s_listen", "listens", "not served", "refused")],
    bounds="three access keys, secrets of 3 symbolic printable characters (and empty ones), five forms and orders of the options, four requests signed in two ways with the right or a wrong key or secret (one of the two symbolic), first and second connection; 16 command lines with symbolic values; 12 root directories from three current directories; six hosts, ports of up to 6 digits, two of them symbolic characters.", outside="the tokio runtime, hyper's connection handling, logging, .env files and name resolution, for which the harness stands in.")
NA = []
