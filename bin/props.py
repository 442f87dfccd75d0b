"""The entries that decide each property, with their bounds (quick; thorough where it differs)."""
COMMON = [
    "The LLVM IR of artefacta, the harness and most dependencies (std's Rust parts, futures, walkdir, tar, url, md5, bipatch, tempfile, hashbrown, petgraph ...) is executed; what is below it is modelled: POSIX file-system calls, time, environment, allocation, memory functions (engine/src/posix.rs).",
    "Stand-ins with the same interface replace C libraries and the network: zstd (real frame format with raw and run-length blocks, no entropy coding), bidiff (a valid but simple difference), git2, rusoto (an S3 server in the process). Their real counterparts are trusted.",
    "Optimised IR (rustc -O, one code-generation unit) of the same sources that the release build compiles; cfg(test) code is not part of it.",
    "A crash means that the process dies and what it has written is kept by the kernel; power failures that lose unsynced data are outside.",
    "Solver answers are trusted; sampled and violating paths are replayed natively on the real file system as an unprivileged user.",
]
def R(entry, bound, arg=0, **k): return dict(entry="vp_main_" + entry, bound=bound, arg=arg, **k)
FAULTS = "every crash before a mutating operation, every crash half-way through a write, every failing operation, every short write, a disk that is full or read-only from there on"
JOBS = ["fresh install", "install over an older build", "upgrade along two patches", "upgrade with a patch that is nonsense", "create-patch between a local and a remote build", "create-patch where the patch is in the remote store", "add", "add over an existing build", "add with upload and patch", "add-package over an existing build", "add-package with upload and patch", "sync of two builds and two patches", "auto-patch from two tags", "upgrade along two patches from S3", "sync to S3", "add with upload and patch, S3"]
def jobs(entry, reach): return [R(entry, "%s; symbolic contents (fixed for S3); %s at a symbolic position, twice in a row (both the first command and its repetition)" % (JOBS[k], FAULTS), 16 + k, reach=reach) for k in range(16)]
LARGE = ["create-patch", "add with upload", "upgrade by a patch", "add-package with upload"]
def large(entry, reach): return [R(entry, "%s; fixed contents of 9000 bytes and more, more than one buffer; %s at a symbolic position" % (LARGE[k], FAULTS), 32 + k, reach=reach) for k in range(4)]
PAIRS = ["the same fresh install twice", "installs of two versions", "the same upgrade by patch twice", "the same create-patch twice", "the same add twice", "sync twice", "add with upload beside sync", "install beside create-patch", "add with upload beside install", "two create-patch in opposite directions"]
PROPS = {
 "C01": dict(runs=[R("c01", "builds 1..3, each in neither, the remote or the local store, one of them in both; patches 1-2, 2-3, 1-3 present remotely or not; installed: none, any local build (absolute or relative link), a build that is gone, a build of the same name elsewhere, a plain file; target: any of them or unknown; 40 symbolic content bytes. Thorough: both stores at once, patches in either store, a backward patch, three sets of names", 0, targ=7, reach=["installed", "unknown"])]),
 "C02": dict(runs=[
   R("c02_damaged", "chain of 1 or 2 run-length patches; one damaged: cut at any byte, any byte changed to any other value, any bit of a header or length flipped, replaced by up to 5 arbitrary bytes; 24 symbolic content bytes; full builds available", 0, targ=2, reach=["fallback"]),
   R("c02_damaged", "the same with patches of raw blocks and two records", 1, targ=3, reach=["fallback"]),
   R("c02_missing", "chain of 1 or 2 patches on S3 of which one is cut, has one bit flipped or is replaced, or none; full builds listed but unusable (wrong checksum, broken transfer, no body, no size); fixed contents", 0, reach=["failed", "patched"]),
   R("c02_exact", "chains of 1 or 2 patches between symbolic contents of 0 to 3 (thorough 5) bytes each, one or two records", 3, targ=5)]),
 "C03": dict(runs=[R("c03", "3 builds (thorough also backward patches), every presence of patches between them, every 61-bit size of every file, four sets of names in different orders", 0, targ=2, reach=["full", "patches", "chain"]), R("c03_local", "chain of 3 patches, every mix of local and remote builds and patches on the way; fixed contents, big full builds", 0, targ=1, reach=["target is local", "from a later build", "whole chain"]), R("c03", "4 builds, all forward patches present, every 61-bit size", 5, thorough=True, reach=["full", "patches", "chain"])]),
 "C04": dict(runs=jobs("c04", ["interrupted", "complete"]) + large("c04", ["interrupted", "complete"])),
 "C05": dict(runs=[R("c05", "%s; 12 symbolic content bytes; crash before each mutating operation, half-way through each write, and every failing operation" % t, i, reach=["interrupted", "complete"]) for i, t in enumerate(["fresh install", "install over an older build", "upgrade by patch", "switch to a build that is local", "install where the installed build is gone", "upgrade along two patches"])]),
 "C06": dict(runs=jobs("c06", ["interrupted", "complete", "failed"]) + large("c06", ["interrupted", "complete", "failed"])),
 "C07": dict(runs=[
   R("c07_dirs", "4 artefacts, each in no store, one, both, or both with different bytes; one file that is no artefact; symbolic contents", 2), 
   R("c07_dirs", "3 artefacts with more foreign files (thorough: 4)", 5, targ=0x26),
   R("c07_many", "2 to 7 (thorough 11) builds with 0 to 7 (thorough 11) patches between them, directory or S3; none, some or all but one already in the remote store; fixed contents", 0, targ=4),
   R("c07_s3", "S3: 2 uploads, each left pending up to 2 times before it is answered, in every combination; any one failing in three ways, or none", 0, reach=["complete", "failed"]),
   R("c07_s3", "S3: 3 (thorough 4) artefacts, each already there or not, every pending pattern of one round", 13, targ=14, reach=["complete", "failed"]),
   R("c07_s3", "S3: 4 (thorough 5) uploads", 2, targ=3, reach=["complete", "failed"])]),
 "C08": dict(runs=[
   R("c08_build", "build names: every UTF-8 text up to 4 (thorough 6) bytes", 4, targ=6, reach=["build"]),
   R("c08_build_ends", "every UTF-8 text up to 1 (thorough 2) bytes followed by one of 12 endings like .tar, .patch.zst", 1, targ=2, reach=["build"]),
   R("c08_patch", "patches between every two UTF-8 names of up to 1 byte, beside a third (thorough: up to 2 bytes)", 0x111, targ=0x112, opts=["--hash-const"], reach=["patch"]),
   R("c08_patch_words", "patches between every two names of up to 4 characters of `-.v1`, beside a third of up to 1 (thorough: 5, 5, 2)", 0x144, targ=0x255, opts=["--hash-const"], reach=["patch"]),
   R("c08_patch_ends", "patches between every two names of up to 2 (thorough 3) characters of `-.v`, one followed by one of 12 endings", 2, targ=3, opts=["--hash-const"], reach=["patch"]),
   R("c08_long", "a 39-byte name followed by up to 2 (thorough 3) characters of `-.t1`, as build and on either side of a patch", 2, targ=3, opts=["--hash-const"], reach=["patch"])],
   assumptions=["Where noted the hash maps use a constant hash, so that lookups compare keys one by one."]),
 "C09": dict(runs=[
   R("c09_accept", "every UTF-8 name up to 4 bytes", 4, targ=5, reach=["accepted", "rejected"]),
   R("c09_contained", "5 commands with 13 names such as `..`, `../x`, `/abs`, `a/../../x`; local store with links that lead outside under those names; every mutating call outside local store, remote store and temporary directory is recorded", 0, targ=1, reach=["succeeds", "fails"])]),
 "C10": dict(runs=[
   R("c10_builds", "1 (thorough 2) build names, each a file, empty file, link, dangling link, directory, link to a directory or absent in both stores; symbolic contents", 0, targ=1, reach=["unknown", "fetched", "blocked"]),
   R("c10_builds", "1 build name (thorough 2), with one of 16 foreign things beside it in either store", 2, targ=3, reach=["unknown", "fetched", "blocked"]),
   R("c10_patches", "a patch between two builds, each in either store or none, the patch any of those kinds in both stores", 0, targ=1, reach=["unknown", "fetched", "blocked"]),
   R("c10_names", "a file whose name is up to 3 (thorough 4) arbitrary bytes, with or without an artefact's ending, beside two builds and a patch, in either store", 3, targ=4, opts=["--hash-const"])],
   assumptions=["c10_names: hash maps use a constant hash."]),
 "C11": dict(runs=[
   R("c11", "8 trees of up to 5 files (nested, hidden, long and non-ASCII names), 3 (thorough 7) symbolic bytes, 5 modes, symbolic times and owners, every enumeration order of up to 4 entries, packed twice in different places with things that are not packaged", 3, targ=7),
   R("c11_modes", "every permission mode that lets the owner read, contents of up to 2 (thorough 5) symbolic bytes, file given directly or in a directory", 2, targ=5),
   R("c11_names", "two files named by any byte, or by two (thorough three) of `-.0Aa` and DEL", 2, targ=3)]),
 "C12": dict(runs=[
   R("c12_one", "current version and one tag, each every text of up to 3 (thorough 4) characters of `012aA.-+`", 0x33, targ=0x44, reach=["end", "chosen"]),
   R("c12_three", "2 (thorough 3) tags for one of 4 current versions, each with up to 2 more characters of `-.1209b`, in every order", 0x02, targ=0x12, reach=["end", "chosen"]),
   R("c12_odd", "2 (thorough 3) tags with up to 2 characters of `01a.` including superfluous zeros, in every order", 0x02, targ=0x12),
   R("c12_long", "current version and one (thorough two) tags with numbers of 3, 10, 15 and 20 digits (last two symbolic), with and without zeros in front and further components", 0, targ=1, reach=["end", "chosen"]),
   R("c12_levels", "current version of 4 to 5 (thorough 7) and one tag of 3 to 5 (thorough 7) components, each any of `0`, `1`, `2`, `9`", 0x15, targ=0x17, reach=["end", "chosen"]),
   R("c12_extreme", "very long numbers, odd texts")]),
 "C13": dict(runs=[R("c13", "a tag of up to 2 (thorough 3) and two builds of up to 2 characters each, and every hash seed (by the order of the map)", 0x222, targ=0x322, opts=["--hash-const"], seeds=40, reach=["none", "exact", "found"])],
   assumptions=["Hash maps use a constant hash; a symbolic choice decides in which order they were filled, which stands for every iteration order of the colliding keys."]),
 "C14": dict(runs=[
   R("c14", "builds and patches of 1, 5, 64 and 119 bytes; checksum: any ASCII text up to 3 (thorough 6), the right one with any one (thorough two adjacent) characters changed, cut at any place, with any character added, of another file; plain, quoted or weak", 3, targ=14, reach=["accepted", "refused"]),
   R("c14_responses", "6 (thorough 12) bytes in chunks of every size; missing checksum, size or body; body broken off or ending at every byte, any bit flipped, longer, shorter, swapped; failing requests", 3, targ=9, reach=["accepted", "refused"])],
   assumptions=["Bodies are concrete: MD5 of symbolic bytes is out of the solver's reach. MD5 collisions are outside.", "Checksums of several parts (with `-`) cannot be checked by the client and are accepted by design."]),
 "C15": dict(runs=[
   R("c15", "location paths of up to 3 characters of `/p` (thorough `/pq`); 12 keys of foreign objects; pages of 1 to 3 objects; upload by sync, then seen from a second machine with other slashes", 3, targ=11, reach=["inside", "outside"]),
   R("c15_keys", "location paths of up to 2 (thorough 3) arbitrary ASCII characters", 2, targ=3, reach=["plain", "odd", "end"]),
   R("c15_pages", "5 (thorough 8) objects in pages of every size, any one listing request failing, a listing that cannot be continued", 2, targ=5, reach=["seen", "failed"])]),
 "C16": dict(runs=[
   R("c16_any", "every UTF-8 location up to 3 (thorough 4) bytes, in a directory with a file and directories, one of them named `s3:`", 3, targ=4, reach=["path", "error"]),
   R("c16_s3", "`s3://` followed by up to 5 (thorough 7) characters of `ab./`", 5, targ=7, reach=["s3", "error"]),
   R("c16_s3", "`s3://` followed by up to 4 (thorough 6) characters of `a./:?#@9-`", 0x14, targ=0x16, reach=["s3", "error", "odd error"]),
   R("c16_scheme", "up to 3 (thorough 4) characters of `s3ht:/ ` in front of a location", 3, targ=4, reach=["error"])]),
 "C17": dict(runs=[
   R("c17", "builds of 0 to 3 (thorough 5) symbolic bytes each, in the local store, the remote one, both or none; patch absent, local or remote; three pairs of names; equal versions", 3, targ=5, reach=["rejected", "kept", "made"]),
   R("c17_other", "patch made while adding a build, or automatically from tags; sources absent, local or remote", 0, reach=["added", "tags"]),
   R("c17_other", "the same with other sizes", 1, reach=["added", "tags"])]),
 "C18": dict(runs=[
   R("c18", "up to 2 (thorough 3) writes of 0 to 2 symbolic bytes, by write, write_all or with flush; target absent, file, link or directory; 3 names; finished or dropped; any one operation failing", 2, targ=3, reach=["dropped", "failed", "finished"]),
   R("c18", "the same with a first write around the 8192-byte buffer", 18, targ=19, reach=["dropped", "failed", "finished"]),
   R("c18", "crashes before and half-way through every operation, short writes", 34, targ=35, reach=["crash", "dropped", "finished"]),
   R("c18", "the same with a first write around the 8192-byte buffer", 50, reach=["crash", "dropped", "finished"])]),
 "C19": dict(runs=[
   R("c19_add", "7 file names, source a file of symbolic bytes, empty, missing, a link or a directory; version absent, in either store, or an empty file; with and without upload", 5, targ=9, reach=["added", "uploaded", "refused", "link"]),
   R("c19_package", "6 versions; source a file, a tree, an empty directory or missing; version absent or in either store; with and without upload and patch", 3, targ=5, reach=["added", "uploaded", "refused", "patched"])]),
 "C20": dict(runs=[
   R("c20_level", "every value of the variable up to 3 (thorough 4) bytes, 3 symbolic content bytes", 3, targ=4),
   R("c20_ends", "14 values at the ends of ranges, and none; 0 to 4 symbolic content bytes"),
   R("c20_damaged", "frames of 5 bytes cut at every byte; up to 6 (thorough 10) arbitrary bytes that are no frame; any byte of a frame changed to any value", 5, targ=9, reach=["truncated", "foreign", "refused", "harmless"])]),
 "C21": dict(runs=[
   R("c21", "three layouts; one (thorough two) earlier commands out of install 1..3, two create-patch, sync; then any of them twice", 1, targ=2),
   R("c21_s3", "S3: one earlier command, then any of install 1..3, create-patch, sync twice", 0),
   R("c21_s3", "the same with a build only in the local store", 1)]),
 "C22": dict(runs=[R("c22", "%s; either first; every placement of 2 (thorough 3) switches between file-system operations" % t, 16 + i, targ=32 + i) for i, t in enumerate(PAIRS)],
   assumptions=["Both processes run in the same second with different process numbers; each file-system call is atomic."]),
 "C23": dict(runs=[
   R("c23", "18 command lines (all subcommands, with and without their options), stores given by option, `--option=`, variable or option beside a variable that names other stores, 5 ways to set the verbosity, in every combination; symbolic contents; compared with the library operation on twin stores", 3, reach=["done", "failed"]),
   R("c23_refused", "19 faulty command lines with 4 texts that are no versions", 1, reach=["refused"]),
   R("c23_versions", "5 subcommands with every UTF-8 text of up to 2 (thorough 3) bytes as version", 2, targ=3, opts=["--hash-const"], reach=["done", "failed", "refused"]),
   R("c23_faults", "10 commands; a disk that is full from a symbolic point on, or one operation that fails or writes less", 1, reach=["done", "failed"])],
   assumptions=["`#[tokio::main]` polls the main future in one thread instead of starting a runtime."]),
 "C24": dict(runs=[R("c24", "%s; symbolic contents (fixed for S3); every failing operation, every short write and every point at which the disk gets full; then the command again" % JOBS[k], k, reach=["succeeds", "fails"]) for k in range(16)] + large("c24", ["succeeds", "fails"]) + [
   R("c24_bad", "22 faulty commands: unknown, missing or empty sources, `current` or artefact names taken by directories, damaged builds and patches, failing and corrupt transfers from and to S3")]),
 "C25": dict(runs=[
   R("c25", "every subset of 5 tags at two or three version levels in two (thorough all rotated) orders, with branches, other tags and one that is no UTF-8 beside; per tag a build of its name, of another spelling, without the prefix, or none, local or remote; an unreadable build; a patch that is there already; two prefixes (thorough three), two (thorough three) current versions; symbolic contents", 4, targ=7, reach=["made", "all", "not all"]),
   R("c25_unusable", "no repository, unreadable references, prefixes that make no version name, an unknown current version", reach=["refused"])]),
 "C26": dict(runs=[
   R("c26", "2 machines and a directory they share: none or the first of 3 versions published and installed, then every sequence of 2 (thorough 3) commands of 11 on either machine (install, add with and without patch and upload, create-patch, sync), then a third machine installs what is published; builds bigger or smaller than their patches; symbolic contents", 16 + 2, targ=16 + 4, reach=["published", "nothing published", "made by patches"]),
   R("c26", "3 commands of 6 on either machine, directory; thorough: three sets of names", 4, targ=12, reach=["published", "made by patches"]),
   R("c26", "3 commands of 6 (thorough 2 of 11, three sets of names) on either machine, S3; fixed contents", 1 + 4, targ=16 + 8 + 2 + 1, reach=["published"]),
   R("c26_large", "publish, install, publish with patch, upgrade, directory; first contents of 14 sizes around buffer and block sizes (0 to 131073 bytes), second 0, 1, 8191 (thorough also 8192, 40000) bytes longer at the end or the beginning; two block sizes; 3 symbolic bytes", 0, targ=2),
   R("c26_large", "the same on S3, fixed contents", 1, targ=3)]),
 "C27": dict(runs=[
   R("c27", "7 commands; both stores and the sources below directories of 3 (thorough 5) names; each store's path written in 9 ways (absolute, relative, with `.`, `..` and needless slashes, through links, with `..` behind a link) from 4 working directories, sources in 4 (thorough 9) ways; symbolic contents", 0, targ=3, reach=["installed", "end"]),
   R("c27_same", "6 commands on one directory given as both stores, also through a link; with and without a patch there and a build installed; symbolic contents")]),
}
