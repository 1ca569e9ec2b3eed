#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="sources/"
p("C01","Lite files hold exactly the bytes written",
"A regular file in a lite repository behaves as a growable byte array: after any sequence of writes, truncations, extensions and reopenings, every read returns the bytes last written at those offsets, zeros in the never-written gaps, and nothing beyond the end; the reported size equals the array's length. This holds for every block size, IV size and padding setting the format accepts.",
["histories","inputs","configurations"],"every sequence of write/truncate/read/reopen operations at offsets around block boundaries, for every block, IV and padding configuration",
"The one stable test checks constants; even the disabled randomized stream tests sample operation sequences and never enumerate the boundary combinations (partial last block, hole, shrink then grow).",
[S+"lite_stream.cpp",S+"lite_stream.h",S+"streams.cpp",S+"lite_format.cpp"],
[("block splitting of reads and writes",S+"streams.cpp BlockBasedStream"),("per-block encryption",S+"lite_stream.cpp AESGCMCryptStream"),("size mapping",S+"lite_stream.cpp size/adjust_logical_size")])
p("C02","Full-format files hold exactly the bytes written",
"A regular file in a full-format repository behaves as a growable byte array: after any sequence of writes, truncations, extensions, flushes and reopenings, every read returns the bytes last written at those offsets, zeros in never-written gaps, and nothing beyond the end; the reported size equals the array's length. This holds for every block size, IV size and padding setting and with or without stored timestamps.",
["histories","inputs","configurations"],"every sequence of write/truncate/read/flush/reopen operations at offsets around block boundaries, for every configuration",
"No stable test touches file content; sampled sequences cannot settle boundary interactions between data, metadata and the authenticated header.",
[S+"streams.cpp",S+"files.cpp",S+"files.h"],[("length and block metadata",S+"streams.cpp CryptStream/AESGCMCryptStream"),("authenticated header stream",S+"streams.cpp HMACStream"),("file object",S+"files.cpp FileBase/RegularFile")])
p("C03","Lite namespace behaves like a POSIX directory tree",
"In a lite repository every sequence of create, mkdir, unlink, rmdir, rename, link, symlink, stat and listing operations returns the result and produces the tree that POSIX prescribes, with names at any legal length including those above the long-name threshold. An operation that fails leaves every name, file and directory exactly as it was.",
["histories","inputs","configurations"],"every sequence of namespace operations over a small set of short and long, colliding names, under every name-translation configuration",
"The repository's end-to-end tests need a kernel mount and are not among the stable ones; they sample random trees and hardly ever check that a failed operation changed nothing.",
[S+"lite_format.cpp",S+"lite_long_name_lookup_table.cpp",S+"unix.cpp"],[("path translation and dispatch",S+"lite_format.cpp FuseHighLevelOps"),("long-name table transactions",S+"lite_long_name_lookup_table.cpp")])
p("C04","Full-format namespace behaves like a POSIX directory tree",
"In a full-format repository every sequence of create, mkdir, unlink, rmdir, rename, link, symlink, stat and listing operations returns the result and produces the tree that POSIX prescribes, with hard links being the same file under each name. An operation that fails leaves every name, file and directory exactly as it was.",
["histories","inputs","configurations"],"every sequence of namespace operations over a small set of colliding names, with case- and normalization-insensitive configurations included",
"No stable test exercises the namespace; random end-to-end trees miss error paths such as removing a non-empty directory or renaming onto an over-long name.",
[S+"full_format.cpp",S+"btree_dir.cpp",S+"files.cpp"],[("operations over directory objects",S+"full_format.cpp FuseHighLevelOps"),("path resolution",S+"full_format.cpp generic_open/open_base/open_all")])
p("C05","A directory stays a correct ordered map at every size",
"A full-format directory behaves as a map from names to objects through any sequence of additions, lookups, removals and listings, from empty to thousands of entries and back: every present entry is found and listed exactly once, every absent one is not. Storage freed by removals is reused and never shared by live entries, and the same holds after the directory is closed and reopened.",
["histories","inputs"],"every short sequence of add/remove/lookup applied to every directory shape built by systematic insertion and deletion orders, including those that split, borrow, merge and collapse levels",
"Deep tree shapes need hundreds of entries in particular orders; a sampled test reaches a few shapes and does not verify the on-disk free list.",
[S+"btree_dir.cpp",S+"btree_dir.h"],[("insertion and split",S+"btree_dir.cpp insert_and_balance"),("deletion, borrow, merge",S+"btree_dir.cpp balance_up"),("page allocation",S+"btree_dir.cpp allocate_page/deallocate_page")])
p("C06","Everything survives unmount and remount",
"After a clean unmount, mounting the same repository again with the same secret shows exactly the same names, file contents, symlink targets, hard-link structure, permissions and extended attributes as before, whatever operations led there. A remount in the middle of any history changes nothing about how the rest of the history behaves.",
["histories","configurations"],"every bounded operation history with a remount inserted at every position, both formats, every configuration",
"Tests that never close the file system cannot tell state held in caches from state on disk.",
[S+"full_format.cpp",S+"file_table_v2.cpp",S+"files.cpp",S+"btree_dir.cpp",S+"lite_format.cpp"],[("cache write-back",S+"file_table_v2.cpp FileTable"),("header flush",S+"files.cpp FileBase::flush"),("B-tree flush",S+"btree_dir.cpp flush_cache")])
p("C07","Unlinked-but-open files live until closed and leave nothing behind",
"A file that is removed or replaced while open stays fully readable and writable through the open handles, and its storage disappears at the last close. At any quiescent moment the repository's storage holds exactly the objects reachable from the tree or open handles: nothing reachable is deleted and nothing unreachable is leaked, including after operations that fail.",
["histories"],"every sequence of open, close, link, unlink, rename-over and failing operations with up to three handles on up to three files, including enough files to overflow the object cache",
"Leaks and premature deletions are invisible to result checks; only a comparison of stored objects with reachable ones after each step of many histories reveals them.",
[S+"file_table_v2.cpp",S+"file_table_v2.h",S+"full_format.cpp",S+"files.h"],[("object table and cache",S+"file_table_v2.cpp FileTable::open_as/close/create_as"),("link counting",S+"files.h unlink/is_unlinked")])
p("C08","Extended attributes behave as a map on each file",
"For each file, setting, replacing, listing, reading and removing extended attributes behaves as a map from names to byte strings, honouring create-only and replace-only flags, size probing, too-small buffers and larger-than-needed buffers. Values come back byte for byte, including after a remount, and never in plaintext in the underlying storage.",
["histories","inputs","configurations"],"every sequence of attribute operations over two names, values of boundary sizes including empty, and every buffer size around the value's size",
"No stable test reads an attribute; end-to-end tests probe one exact-size read per attribute.",
[S+"lite_format.cpp",S+"files.cpp",S+"xattr_name.cpp"],[("value encryption",S+"lite_format.cpp XattrCryptor"),("full-format values",S+"files.cpp getxattr/setxattr"),("name wrapping",S+"xattr_name.cpp")])
p("C09","File attributes are stored and reported faithfully",
"Mode, owner, group, size, link count, file type and (where the format stores them) timestamps reported for a file are the ones the operations so far imply under POSIX rules, per file and unaffected by operations on others. A mount-time owner override changes only what is reported.",
["histories","configurations"],"every sequence of chmod, chown, utimens, write, truncate, link, unlink and remount over two files, with and without stored time and owner override",
"Attribute interactions (mode change on a shared inode, time update at unlink, override at stat) are combinatorial and no stable test stats a file.",
[S+"files.cpp",S+"files.h",S+"full_format.cpp",S+"lite_format.cpp",S+"unix.cpp"],[("header fields",S+"files.cpp FileBase::initialize_empty/stat/utimens"),("owner override",S+"full_format.cpp postprocess_stat")])
p("C10","Any tampering with a lite repository is detected",
"If the stored bytes of a lite repository are altered without the key (bits flipped, blocks reordered or copied within a file, parts of another file substituted, stored names or link targets or attribute values changed), then each read either fails with an error or returns data that was legitimately at that position of that file; it never returns other bytes as if they were genuine. A whole-block truncation, zeroing of a whole block, replay of the same file's own older block at the same place, and giving a whole stored object another stored name are outside what the format promises; attribute values and link targets are not bound to the file that has them, and without a long-name threshold each component of a link target is protected by itself.",
["inputs","configurations"],"every single-byte alteration and every block-level cut, swap, duplication and substitution of small repositories",
"A functional test feeds back only what the system itself wrote.",
[S+"lite_stream.cpp",S+"lite_format.cpp",S+"crypto.cpp"],[("per-block authentication bound to block index and padding",S+"lite_stream.cpp read_block/write_block"),("name authentication",S+"lite_format.cpp decrypt_path_component"),("attribute authentication",S+"lite_format.cpp XattrCryptor::decrypt")])
p("C11","Any tampering with a full-format repository is detected",
"If the stored bytes of a full-format repository are altered without the key (bits flipped, truncated, blocks moved, data or metadata of one object substituted for another's), then each operation either fails with an error or returns what was legitimately stored for that object at some time; it never presents other bytes, names, sizes or attributes as genuine, and never crashes. (A size counts as genuine when the last byte of that size can be read; the alteration happens while the repository is not mounted.) Replay of one object's complete older state is outside what the format promises.",
["inputs","configurations"],"every single-byte alteration, truncation, block swap and object substitution of the data and metadata of every stored object of small repositories",
"A functional test feeds back only what the system itself wrote.",
[S+"streams.cpp",S+"files.cpp",S+"btree_dir.cpp",S+"crypto.cpp"],[("authenticated metadata",S+"streams.cpp HMACStream"),("block authentication bound to object id",S+"streams.cpp AESGCMCryptStream"),("directory parsing",S+"btree_dir.cpp")])
p("C12","Nothing secret is readable in the underlying storage",
"After any history, no underlying file name, file content, symlink target, attribute, table or configuration file contains a plaintext name, file content, link target, attribute name or value, password or key, except where plain-text names were requested. Encrypting equal contents, attribute values or configurations twice gives unrelated ciphertext: no nonce is used twice under one key, and identifiers, keys and salts are fresh for every object and repository (within a lite repository equal names, link targets and attribute names deliberately look alike).",
["histories","configurations"],"every bounded history that stores recognizable secrets in every place a secret can go, in every configuration",
"A round-trip test passes just as well when data is stored in the clear or with a repeated nonce.",
[S+"lite_stream.cpp",S+"streams.cpp",S+"lite_format.cpp",S+"params_io.cpp",S+"crypto.cpp",S+"files.cpp"],[("nonce generation",S+"lite_stream.cpp/streams.cpp generate_random"),("name and target encryption",S+"lite_format.cpp NameTranslator"),("long-name table",S+"lite_long_name_lookup_table.cpp")])
p("C13","Logs do not reveal file contents or attribute values",
"With tracing at the most verbose level, the log never contains bytes of file contents or of extended-attribute values passed through any operation, unless the mount explicitly allows sensitive logging. Every traced call reports the operation's actual result and the trace itself never changes the result.",
["programs","histories","configurations"],"every file-system operation that carries a buffer, successful and failing, at every log level, with sensitive logging on and off",
"No test reads the log.",
[S+"fuse_high_level_ops_base.cpp",S+"fuse_tracer_v2.cpp",S+"logger.cpp"],[("argument redaction",S+"fuse_high_level_ops_base.cpp static_*"),("tracer",S+"fuse_tracer_v2.cpp")])
p("C14","Name translation is a faithful, injective encoding",
"Translating any legal name (valid UTF-8 where a normalization is requested) and back yields the same name, up to the requested case and normalization rules; names that are not equivalent under those rules always map to different stored names, equivalent ones map to the same, and directory structure is preserved. Stored names are legal on the underlying file system and, where names are encrypted, never collide with the repository's own files; any stored name that is not a genuine encryption (apart from letter case and unused trailing bits of its base-32 spelling) is refused rather than shown.",
["inputs","configurations"],"every name up to a small length over an alphabet of structural, case-variant and composed or decomposed characters, plus every length up to and past the long-name threshold, in every translator configuration",
"Injectivity and round-trip quantify over all names; a test samples a few.",
[S+"lite_format.cpp",S+"mystring.cpp",S+"crypto.cpp"],[("translators",S+"lite_format.cpp LegacyNameTranslator/NewStyleNameTranslator/PathNormalizingNameTranslator"),("base32",S+"mystring.cpp"),("AES-SIV",S+"crypto.cpp")])
p("C15","Every long name keeps exactly one matching table entry",
"In a lite repository every file, directory or link whose name is above the threshold is listed under its true name through any history of creations, removals, renames (within and across directories, over existing targets) and failures. Each directory's table holds an entry for each long name present and none for absent ones, and removing a directory that holds only its table succeeds.",
["histories","fault_sequences"],"every sequence of create, mkdir, symlink, link, unlink, rmdir and rename over two long and one short name in two directories, with remounts",
"The table and the directory are two stores that must change together; only the failing and replacing paths break them apart.",
[S+"lite_format.cpp",S+"lite_long_name_lookup_table.cpp",S+"sqlite_helper.cpp"],[("transactional update",S+"lite_format.cpp process_possible_long_name/vrename"),("table",S+"lite_long_name_lookup_table.cpp")])
p("C16","Padding hides sizes without affecting data",
"With padding enabled every file's stored size exceeds its unpadded stored size by an amount that is fixed for that file, lies between zero and the configured maximum, is derived from a secret and so varies between files, and is the same on every mount. Sizes, contents and tamper detection seen through the file system are the same as without padding.",
["inputs","histories","configurations"],"every maximum padding size in a small range and every operation sequence over boundary offsets, many file ids",
"Padding shifts every stored offset; a sampled configuration without it proves nothing.",
[S+"lite_stream.cpp",S+"streams.cpp",S+"crypto.cpp",S+"lite_format.cpp"],[("padding derivation",S+"lite_format.cpp compute_padding"),("padded streams",S+"lite_stream.cpp, "+S+"streams.cpp PaddedStream")])
p("C17","Only the right secret opens a repository configuration",
"A configuration written for a password and/or key file, with any supported key-derivation function, is opened by exactly that combination and yields exactly the stored parameters; any other password or key file, and any alteration of the configuration that changes what it says, is rejected with an error (another spelling of the same message may open, with the same meaning; format versions 1 to 4 never authenticated their block size, nonce size, padding and long-name settings, only the keys). Configurations in the older supported formats remain readable with the meaning they had.",
["inputs","configurations"],"every combination of format, key-derivation function, password and key-file presence, every wrong combination, and every single-byte alteration of the configuration; every reference repository in the tree",
"Rejection must hold for every altered byte and every wrong secret, not for the one a test tries.",
[S+"params_io.cpp",S+"commands.cpp",S+"crypto.cpp"],[("encrypt/decrypt parameters",S+"params_io.cpp"),("key derivation",S+"params_io.cpp compute_password_derived_key"),("command line",S+"commands.cpp")])
p("C18","Replacing a configuration never loses the repository",
"Creating a repository never overwrites an existing one, and changing the password or rewriting the configuration is atomic: killed at any point, or failing at any system call, the configuration on disk is complete and opens with the old or with the new secret; a killed creation leaves no configuration, a complete one, or one that every command refuses. New contents are on disk before they replace the old. A command that reports success has made the new secret effective and one that reports failure has left the old one effective, and neither keeps a later command from working.",
["crash_points","fault_sequences"],"a kill before every modifying system call, with every torn write, and a failure of every system call, of create, chpass and migrate-long-name",
"Tests run commands to completion.",
[S+"commands.cpp",S+"params_io.cpp",S+"unix.cpp"],[("password change",S+"commands.cpp ChangePasswordCommand"),("creation",S+"commands.cpp CreateCommand"),("suffix migration",S+"commands.cpp MigrateLongNameCommand")])
p("C19","A killed lite mount leaves a mountable, intact repository",
"If a lite mount is killed at any moment, the repository mounts again; every file, name, attribute and byte not being changed by the interrupted operation is exactly as it was, and the interrupted operation has happened completely, not at all, or (for a write or a size change) only within the storage blocks it was working on, which then read as old or new data or report an error. Names not involved in the interrupted operation are never lost or corrupted.",
["crash_points","histories"],"a kill before every modifying system call of every operation after every short history, with torn writes",
"Tests never stop the process between two system calls.",
[S+"lite_format.cpp",S+"lite_stream.cpp",S+"lite_long_name_lookup_table.cpp",S+"unix.cpp"],[("order of table commit and underlying operation",S+"lite_format.cpp"),("block writes",S+"lite_stream.cpp")])
p("C20","A killed full-format mount keeps what was already synced",
"If a full-format mount is killed at any moment while an operation runs, the repository mounts again without manual repair and every object whose changes were flushed before, and which the interrupted work does not touch, is intact: same name, content and attributes. Damage from the interruption is confined to the objects being written and surfaces as errors, never as wrong data; a stale lock left by a killed process never prevents mounting.",
["crash_points","histories"],"a kill before every modifying system call of every operation following a synced base state, with torn writes",
"Tests never stop the process between two system calls.",
[S+"files.cpp",S+"btree_dir.cpp",S+"streams.cpp",S+"file_table_v2.cpp",S+"full_format.cpp"],[("flush order",S+"btree_dir.cpp flush_cache, "+S+"streams.cpp HMACStream::flush"),("lock takeover",S+"full_format.cpp RepoLocker")])
p("C21","Storage errors are reported and do no further harm",
"If any system call the file system makes fails, the operation either still succeeds completely or returns a negative error number to the caller; it never crashes, hangs, returns success for work not done, answers that something is missing, present or not empty when it is not, or keeps a lock. Afterwards, once the fault is gone, files not involved are unaffected and the file system keeps working.",
["fault_sequences","histories"],"the failure of each system call, with each of several error numbers, of every operation after every short history",
"Tests run on storage that never fails.",
[S+"fuse_high_level_ops_base.cpp",S+"fuse_tracer_v2.h",S+"unix.cpp",S+"streams.cpp",S+"lite_stream.cpp",S+"files.cpp",S+"btree_dir.cpp"],[("exception to errno mapping",S+"fuse_tracer_v2.h traced_call"),("system call wrappers",S+"unix.cpp"),("locks released on unwinding",S+"lock_guard.h")])
p("C22","Concurrent reads, writes and truncations of a file are atomic",
"When several callers read, write, truncate, flush and stat one file at the same time, through the same or different handles, every result and the final content are those of some sequential order of the calls consistent with real time. No schedule loses an acknowledged write, mixes two writes, corrupts the file so that it no longer authenticates, deadlocks or races on memory.",
["schedules"],"every interleaving, up to a preemption bound, of two or three callers with one or two operations each on one file, both formats",
"A test runs one schedule.",
[S+"files.h",S+"files.cpp",S+"lite_format.cpp",S+"lite_format.h",S+"lock_guard.h",S+"lite_stream.cpp"],[("per-file lock",S+"files.h FileBase"),("file lock plus storage lock",S+"lite_format.h File"),("lock guards",S+"lock_guard.h")])
p("C23","Concurrent full-format operations never corrupt or deadlock",
"When several callers open, close, create, remove, rename and list names of a full-format repository at the same time, as far as the kernel allows it, every result and the final tree are those of some sequential order, with no deadlock, data race, use of a released object, or two copies of the same object alive at once. Object eviction from the cache is never observable.",
["schedules"],"every interleaving, up to a preemption bound, of two or three callers with one or two operations each on colliding names and objects, with an empty and an overflowing cache",
"A test runs one schedule; the windows between name removal, object open and reference release are a few instructions wide.",
[S+"file_table_v2.cpp",S+"file_table_v2.h",S+"full_format.cpp",S+"files.h",S+"lock_guard.h"],[("reference counting and eviction",S+"file_table_v2.cpp"),("double lock ordering",S+"lock_guard.h DoubleFileLockGuard")])
p("C24","Concurrent lite operations, also from several mounts, never corrupt",
"When several callers, through one mount or through two mounts of the same lite repository, work on the same names and files at the same time, every result and the final tree are those of some sequential order, with no deadlock, data race or lost long name. File locks taken by one mount exclude the other's conflicting accesses.",
["schedules"],"every interleaving, up to a preemption bound, of two or three callers with one or two operations each on colliding short and long names and on one file, one or two mounts",
"A test runs one schedule and one mount.",
[S+"lite_format.cpp",S+"lite_format.h",S+"lite_long_name_lookup_table.cpp",S+"sqlite_helper.cpp",S+"unix.cpp"],[("storage lock",S+"unix.cpp lock/unlock"),("table transactions",S+"sqlite_helper.cpp")])
p("C25","At most one process has a full-format repository mounted for writing",
"At no time do two live processes both hold a full-format repository open for writing, whatever the order in which they start, stop and are killed; and a repository whose holder has died can always be mounted again. A refused mount changes nothing in the repository.",
["schedules","crash_points"],"every interleaving of the lock-related steps of two or three mounting, unmounting or dying processes from every initial lock-file state",
"A test starts one mount.",
[S+"full_format.cpp",S+"full_format.h",S+"internal_mount.cpp",S+"unix.cpp"],[("lock file",S+"full_format.cpp RepoLocker")])
p("C26","The idle timer fires exactly when it should",
"A resettable timer invokes its callback once the most recently set time has passed with no further reset, and never earlier; a cancellation or a later reset always takes effect, and destroying the timer always terminates promptly, whatever the order and timing of calls. A mount with an idle limit shuts down only after that long since the last operation began, however the operations overlap, and every kind of operation counts.",
["schedules","histories"],"every interleaving, up to a preemption bound, of setters, cancellers, destructor and timer thread over virtual time; every file-system operation for idleness",
"The existing timer test sleeps through one schedule of real time.",
[S+"resettable_timer.cpp",S+"resettable_timer.h",S+"fuse_hook.cpp",S+"fuse_hook.h"],[("timer thread",S+"resettable_timer.cpp"),("activity hook",S+"fuse_hook.h HookedFuseHighLevelOps")])
p("C27","Per-thread objects are never shared or used after destruction",
"Each thread that uses a per-thread object sees its own instance, created once per thread and owner and kept for as long as both live; no schedule of threads and owners starting and ending lets two threads share an instance, gives a new owner another owner's instance, destroys one in use, leaks one, or races.",
["schedules","histories"],"every interleaving, up to a preemption bound, of threads getting, owners being created and destroyed and threads exiting",
"The existing test runs one schedule and checks a few values.",
[S+"thread_local.cpp",S+"thread_local.h"],[("holder registry",S+"thread_local.cpp"),("typed accessor",S+"thread_local.h")])
p("C28","Mount options do what they say and nothing else",
"Each mount option (disabled verification, owner override, case folding, Unicode normalization, plain-text names, disabled extended attributes, disabled file locks, sensitive logging) has exactly its documented effect, whether the mounting process is the one that was started or one in the background. In particular case-insensitive mounts treat exactly the equivalent names as one file while keeping what was first created, and disabling verification never changes what is read from an intact repository.",
["configurations","histories"],"every combination of the options that interact, with every bounded history over name variants",
"Options multiply; tests mount with one or two combinations.",
[S+"internal_mount.cpp",S+"lite_format.cpp",S+"full_format.cpp",S+"mystring.cpp",S+"btree_dir.cpp",S+"commands.cpp"],[("option plumbing",S+"internal_mount.cpp"),("name comparison",S+"mystring.cpp, "+S+"btree_dir.cpp DirNameComparison")])
p("C29","Changing the long-name suffix preserves everything",
"Migrating a lite repository to another long-name suffix leaves every file, directory and link with the same name, content and attributes when mounted afterwards, in every directory, however many long names there are. A suffix that cannot be used is refused with nothing changed. If the migration fails or is killed part way, running it again completes it with nothing lost.",
["histories","crash_points","configurations"],"every small tree of long and short names and every pair of old and new suffixes; a kill before every modifying system call of the migration",
"No stable test runs the migration, and none interrupts it.",
[S+"lite_format.cpp",S+"commands.cpp"],[("renaming and table rewriting",S+"lite_format.cpp change_long_name_suffix"),("command",S+"commands.cpp MigrateLongNameCommand")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),[ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
