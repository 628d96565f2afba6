import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","A package holds exactly the files of its source, bit for bit",
"For every source directory or single file, a successful packaging command publishes, under the requested version, a compressed tar archive that standard tools can read and that has exactly one member per regular file of the source, with that file's relative path, content and permission bits, and no other member: directories, symbolic links and special files are left out. If any part of the source cannot be read completely the command fails and publishes nothing. This holds for every file name, path length, file size, permission and compression-level setting.",
["inputs","configurations"],"every source tree and single file: any nesting, any byte string as a name, names beyond the tar header limit, empty and large files, all permission bits, links, special files, read errors at any file; every value of the compression-level setting",
"The unit tests package four fixed trees and a proptest over short alphanumeric names with 1 KB files; none compares contents or modes of a whole tree, and none reaches odd names, size edges, links, read failures or compression levels.",
["src/packaging.rs","src/lib.rs","src/compression.rs"],[("walk the source and append each regular file","src/packaging.rs package/add_file"),("package to a temporary directory, then add","src/lib.rs add_package"),("zstd level from the environment","src/compression.rs")],["archive members of <local>/<version>.tar.zst","exit status of add-package"])

p("C02","Packaging is deterministic",
"Packaging two sources with the same relative paths, contents and permission bits at the same compression setting yields byte-identical builds, whatever the sources' location, the order in which their files were created, their timestamps, owners, link counts and inode numbers, and whatever the time of day, time zone, locale, umask, working directory, requested version, extra command-line options or concurrently running processes.",
["inputs","configurations","schedules"],"every source tree, and every pair of environments that differ only in the listed irrelevant respects",
"The one determinism test copies a tree with cp and compares in the same process within the same second; owners, creation order, clock, umask, locale and links never vary.",
["src/packaging.rs"],[("sorted walk","src/packaging.rs package"),("header built from size and mode only","src/packaging.rs add_file")],["bytes of <local>/<version>.tar.zst"])

p("C03","A created patch turns the old build into exactly the new one",
"For every pair of builds with non-empty content, a successful request to create a patch between them (on its own, or together with adding a build) leaves a patch file named for exactly that pair which, decoded by an independent implementation of the patch format against the old build's content, reproduces the new build's content byte for byte. A patch of the same two versions that is already there is kept. Both builds are left unchanged, and asking for a patch from a version to itself is refused without creating anything.",
["inputs"],"every pair of build contents (equal, disjoint, shifted, repetitive, incompressible, tiny, more than the 100 MB partition size), wherever each build is stored, through both commands",
"The tests check that a patch file exists and round-trip one pair of independent 1 KB random blobs through the library's own reader; contents with structure, sizes across the chunk limit and the content reached through the command line are never compared.",
["src/index.rs","src/apply_patch.rs","src/lib.rs","src/cli.rs","src/index/patch.rs"],[("binary diff of decompressed builds","src/index.rs calculate_patch"),("patch naming","src/index/patch.rs Display"),("same-version guard","src/lib.rs create_patch")],["<local>/<from>-<to>.patch.zst"])

p("C04","Installing a version always yields that version's published content",
"After a successful install of a version, the local build of that version holds exactly the content that was published under that version, and so does every other build in the local store. This holds for every collection of builds and correct patches spread over the local and the remote store, every currently installed version, every choice of upgrade route and every history of earlier commands.",
["histories","inputs","configurations"],"all graphs of versions and correct patches (chains, shortcuts, cycles, several equally long routes, version names in any order), all placements of the files over the two stores, all installed versions, sequences of installs; directory and S3 remotes",
"Tests install over at most one patch between two versions and check only where the symlink points, never the content; no test has a chain of two patches, mixed placement or a history.",
["src/index.rs","src/index/graph.rs","src/apply_patch.rs","src/lib.rs"],[("shortest path over patches","src/index/graph.rs patches_needed"),("apply patches in route order","src/index.rs upgrade_to_build/add_build_from_patch"),("fetch of a whole build","src/index.rs get_build")],["decompressed content of every <local>/*.tar.zst after each command"])

p("C05","Upgrades transfer the cheapest route and nothing already present",
"When an installed version is upgraded, the files fetched from the remote are exactly the missing ones of a cheapest route: if a chain of available patches starting at the installed version is smaller in total than the target build, the patches of a chain of smallest total size are fetched and no build is; otherwise the target build is fetched and no patch is. Patches and builds already in the local store are never fetched again, patches leading up to a build of the chain that is already local are not fetched, and nothing is fetched when the target build is already local; a patch counts as available if it and both its builds are known in either store.",
["inputs","configurations"],"all graphs of versions with arbitrary patch and build sizes, all placements over the two stores, all installed and target versions; directory and S3 remotes",
"Two unit tests cover a three-version chain in which the names sort in route order, at the level of the returned route; no test observes what is transferred or mixes local and remote pieces.",
["src/index/graph.rs","src/index.rs"],[("A* over patch sizes, compared with the build size","src/index/graph.rs find_upgrade_path"),("reuse of local builds along the route","src/index.rs upgrade_to_build"),("graph built from both listings","src/index.rs Index::new")],["files opened below the remote directory / GET requests at the S3 endpoint"])

p("C06","Missing or unusable patches never break or taint an upgrade",
"If any patch on the chosen route is missing, unreadable, truncated at any byte, not compressed data, or compressed data that is not a patch, the upgrade still succeeds by taking the full target build as long as that is available, with exactly the published content. If no full build is obtainable the command fails, leaves the installed version as it was, and in neither case does a build with wrong or incomplete content remain in the local store.",
["inputs","fault_sequences"],"every damage of the stated kinds, at every patch of every route, in either store, including patches that vanish or fail to transfer after having been listed",
"One test replaces one patch by compressed noise and checks only the symlink; truncation at each length, multi-step routes, local copies and transfer failures are not reached, nor is the content compared.",
["src/index.rs","src/apply_patch.rs","src/partial_file.rs"],[("fall back to the direct build","src/index.rs upgrade_to_build"),("temporary file while patching","src/index.rs add_build_from_patch"),("decode errors of patch and build","src/apply_patch.rs")],["exit status","decompressed local builds","`current`"])

p("C07","`current` always tells the truth",
"After a successful install of a version, `current` in the local store is a symbolic link that leads to the complete local build of exactly that version, whatever `current` was before: absent, another version, a link to a build that has meanwhile disappeared, or a relative link. An install that fails leaves `current` as it was, no other command changes it, and while an upgrade runs `current` never disappears or leads to anything but the previous or the new build.",
["histories","inputs","crash_points"],"all previous states of `current`, all install targets (known, unknown, unobtainable, empty), all command histories, every moment during an install",
"Tests look at the link after success from two starting states; dangling or relative links, failures, other commands and intermediate moments are never examined.",
["src/lib.rs","src/storage/mod.rs"],[("read the link, then switch it","src/lib.rs install"),("symlinks excluded from the listing","src/storage/mod.rs list_files")],["readlink <local>/current after each command and at each file-system event of an install"])

p("C08","A crash at any point leaves no half-written artefact",
"If a command is killed at any point, every file that has the name of a build or patch in the local or a directory remote store is complete and correct, files that were there before are unchanged, and `current` leads to the build installed before or to the new one. The next run of the same command succeeds, without manual clean-up, and reaches the state an uninterrupted run would have reached.",
["crash_points"],"every point between two file-system changes, and inside every write, of every command that writes (add, add-package, add with patch or upload, create-patch, auto-patch, install with and without patches, sync)",
"No test interrupts a command; the two unit tests of the temporary file cover finishing and dropping it in a live process.",
["src/partial_file.rs","src/storage/mod.rs","src/index.rs","src/lib.rs"],[("write to a hidden temporary file, then rename","src/partial_file.rs"),("copy into a store","src/storage/mod.rs add_file"),("switch of `current`","src/lib.rs install")],["both stores after SIGKILL at each event, and after the re-run"])

p("C09","I/O failures are reported and leave the stores consistent",
"If any file-system call of a command on a store, a source or a temporary file fails or transfers less than asked, the command either ends successfully with exactly the result of an undisturbed run or ends with a failure status. In both cases no file under a build's or patch's name is incomplete or wrong, existing artefacts and `current` are intact, no temporary file is left in a store, and repeating the command without the fault succeeds.",
["fault_sequences"],"a failure (disk full, I/O error) injected at every single opening, reading, writing, renaming or linking call of every command, persistent failures from any call on, and arbitrary short reads and writes",
"No test injects any fault, so no error path of the copying, packaging, patching or linking code is executed.",
["src/partial_file.rs","src/storage/mod.rs","src/index.rs","src/lib.rs","src/packaging.rs"],[("error propagation and clean-up on drop","src/partial_file.rs"),("finish/flush of writers","src/index.rs calculate_patch/add_build_from_patch, src/lib.rs add_package")],["exit status and both stores after each injected fault"])

p("C10","Sync makes the remote complete and alters nothing there",
"After a successful sync or add with upload, the remote holds a byte-identical copy, under the same name, of every build in the local store, and of every local patch whose two builds are known, that it lacked before. Builds on the remote, and patches there whose two builds are known, are never overwritten or removed, and nothing else is uploaded (not temporary files, empty files, links or unrelated files), so a second sync transfers nothing. If any upload fails the command fails, and a later sync completes the rest.",
["histories","inputs","fault_sequences"],"all contents of the two stores, any number of files, same name with different content on both sides, other files in the stores, failures of any upload; directory and S3 remotes",
"Tests upload one or two files to an empty directory and check existence; existing remote content, larger sets, foreign files, failures and S3 are not covered (the S3 test is ignored).",
["src/index.rs","src/index/graph.rs","src/storage/mod.rs"],[("upload what only the local store has","src/index.rs push"),("local-only builds and patches","src/index/graph.rs"),("S3 put / directory copy","src/storage/mod.rs add_file")],["remote directory / recorded PUT requests"])

p("C11","Artefacts are copied bit for bit between places",
"Adding a build file to the local store, fetching a build or patch from the remote and uploading one to it leave at the destination, under the artefact's own name, exactly the bytes of the source, for every size and content and for directory and S3 remotes, and leave the source unchanged; the copy is a file of its own, which later changes of the original do not reach, and has the access permissions of the file it was copied from. An add of a missing, unreadable or empty file fails and leaves no new artefact.",
["inputs","configurations"],"all file sizes (0, 1, block edges, several MB) and contents, all sources (inside and outside the stores, via links), directory and S3 remotes, both directions",
"Tests copy 1 KB files and check that a file with the right name exists; contents are not compared, edge sizes and S3 are not reached.",
["src/storage/mod.rs","src/index.rs","src/cli.rs"],[("copy into a directory store, put/get at S3","src/storage/mod.rs add_file/get_file"),("size check after adding","src/index.rs add_build")],["bytes at source and destination"])

p("C12","Corruption between artefacta and S3 is detected in both directions",
"If the bytes received for an object differ from the MD5 checksum that the S3 server states for it, or the transfer ends early or with an error, the object is not stored or used and the command fails unless another route yields the right content. Every upload carries the MD5 of exactly the bytes sent, so that the server can verify it, and if the server rejects an upload or reports any error the command fails.",
["inputs","fault_sequences"],"all objects and all single and multiple corruptions of a transfer (flipped, missing or additional bytes, another object's body, early end), all HTTP error answers, for builds and patches, downloads and uploads",
"The only S3 test is ignored because it needs credentials and a network, so no checksum code runs in the test suite.",
["src/storage/s3.rs","src/storage/mod.rs"],[("compare ETag with MD5 of the body","src/storage/s3.rs validate_checksum"),("Content-MD5 on put, error mapping","src/storage/mod.rs add_file")],["requests recorded and answers injected by a fake S3 server","local store, exit status"])

p("C13","An S3 store sees exactly its own objects",
"With an S3 remote, the builds and patches known are exactly those stored directly under the configured prefix, however many there are: listings that the server splits over several pages are followed to the end (one that cannot be read to its end makes the command fail), and objects under other prefixes, including ones whose name merely starts with the configured prefix and ones nested deeper, are neither used, nor counted as present, nor modified. Uploads go to exactly the key made of the prefix and the file name, and what one machine uploads another one can list and install through the same URL.",
["inputs","configurations"],"any number of objects and page size, any prefix (none, nested, with and without trailing slash), any neighbouring objects, any version names including ones that need escaping",
"No test ever lists a bucket; more than 1000 objects, neighbouring prefixes and key escaping are unreachable for the directory remotes used in tests.",
["src/storage/mod.rs","src/storage/s3.rs"],[("list with prefix","src/storage/mod.rs list_files"),("key construction","src/storage/s3.rs key_for")],["requests at the fake S3 server","installability of each version"])

p("C14","A version name identifies one build and survives every round trip",
"For every legal version name, a build added or packaged under that name is listed, found, patched, synced and installed under exactly that name, on the same and on another machine, and distinct names never refer to the same build or patch file. A name that cannot be kept apart or would lead outside the store (containing three dashes in a row or a path separator) is refused, with a failure status and without any change to either store or to any other place.",
["inputs"],"all version names: any Unicode text, dots, dashes, leading or trailing dots and dashes, names ending in or containing .tar, .zst or .patch, very similar names, separators, long names; as from and to version of patches",
"Tests use about ten plain names; the parsing tests cover two well-formed patch names. Names with suffix-like endings or separators never occur.",
["src/index/version.rs","src/index/patch.rs","src/paths.rs","src/lib.rs","src/cli.rs"],[("version validation","src/index/version.rs FromStr"),("file name to version","src/paths.rs file_name"),("patch file naming and parsing","src/index/patch.rs")],["names in both stores","outcome and content of installs by name"])

p("C15","Automatic patches come from the right predecessors",
"Automatic patching to a version creates a patch from exactly these builds: for each numeric component of the version, the newest tagged version of the series that agrees with it before that component and has that component one smaller, comparing components numerically and treating `.` and `-` alike and case as irrelevant. With a prefix, the builds are looked up under prefix plus tag, preferring the build whose name matches the tag exactly. If a predecessor has no build or its patch cannot be made, the other patches are still created and the command fails.",
["inputs"],"all sets of tags (numeric, mixed separators and case, non-numeric components, different lengths, annotated and lightweight, foreign tags), all current versions and prefixes, all subsets of available builds in either store",
"Unit tests cover eight hand-written tag lists, and the end-to-end tests two linear histories with all builds present; mixed spellings, missing builds and failures are not covered.",
["src/git.rs","src/lib.rs","src/index.rs"],[("tag selection","src/git.rs find_tags_to_patch/tag_to_slice"),("build lookup for a tag","src/index.rs get_build_for_tag"),("continue after a failure","src/lib.rs auto_patch")],["patch files created","exit status"])

p("C16","Foreign and leftover files in a store do not matter",
"Anything in a store that is not a complete build or patch of its own (temporary files of interrupted runs, empty files, other extensions, sub-directories, symbolic links including broken ones, names that are not valid versions or not valid text, patches of versions that no store knows and no command names) neither makes any command fail nor changes any command's result. Such files are never used, uploaded, renamed, modified or removed; the one exception is a file, link or directory that occupies exactly the name of an artefact a command has to create: it may be replaced, or make that command fail.",
["inputs"],"all sets of such files in the local store, the remote directory or the S3 prefix, combined with every command",
"Test stores contain only well-formed artefacts.",
["src/storage/mod.rs","src/index/graph.rs","src/paths.rs"],[("filters on the listing","src/storage/mod.rs list_files, src/index/graph.rs update_from_file_list")],["differential run of every command with and without the foreign files"])

p("C17","Concurrent processes do not corrupt shared stores",
"When several artefacta processes run at the same time on the same local or the same remote store, every build and patch file that is visible at any moment is complete and correct for its name, `current` always leads to a complete build, and once all have ended the stores hold exactly what the successful commands produced. Commands that only repeat or complement each other's work all succeed.",
["schedules"],"any number of concurrent processes with any mix of commands on the same or different versions, every interleaving of their file-system operations",
"Every test runs one process at a time.",
["src/partial_file.rs","src/storage/mod.rs","src/lib.rs","src/index.rs"],[("unique temporary file, atomic rename","src/partial_file.rs"),("copy into a store","src/storage/mod.rs add_file"),("switch of `current`","src/lib.rs install")],["observer polling the stores during the run, merged event log, final states"])

p("C18","Commands change nothing but what they are asked to",
"Only sync and an add with upload ever write to the remote; installing, creating patches, automatic patching and printing the index leave it untouched. No command modifies or removes an artefact that already exists in either store (except that adding a version again replaces its local build), or changes the sources, build files or git repository it was given. Apart from the local store, and the remote where allowed, nothing is created or left behind, not even in the temporary directory, whether the command succeeds or fails.",
["histories","inputs"],"all commands, successful and failing, over all store contents, sources and histories",
"Tests check for the presence of expected files only; no test compares the rest of the file system before and after.",
["src/index.rs","src/lib.rs","src/storage/mod.rs","src/cli.rs"],[("writes confined to the local store","src/index.rs add_build/add_patch/calculate_patch"),("upload only on request","src/cli.rs add_to, src/lib.rs sync"),("temporary directory closed","src/lib.rs add_package")],["snapshots (content, mode, mtime) of all directories, and the recorded file-system calls"])

p("C19","Hostile inputs never crash artefacta or corrupt its memory",
"Whatever the bytes of builds, patches, S3 answers, arguments, environment settings and git repositories, and whatever else lies in the stores and sources, every command ends by itself with success or an ordinary error status: it never panics, is never killed by a signal, and never reads or writes memory out of bounds.",
["inputs"],"all file contents under build and patch names (noise, truncated and bit-flipped builds and patches, compressed noise, patches with forged lengths and offsets), malformed S3 listings and answers, malformed arguments and environment variables, damaged git repositories, odd file names and file types",
"Tests feed one noise patch; no test uses a damaged build, a forged patch or a malformed server answer, and none runs under a memory-error detector although the decompressor and the git library are native code.",
["src/apply_patch.rs","src/index.rs","src/compression.rs","src/storage/mod.rs","src/git.rs"],[("error returns from the decoders","src/apply_patch.rs, src/compression.rs"),("parsing of listings","src/storage/mod.rs, src/index/graph.rs")],["exit status and stderr, with a normal and an AddressSanitizer build"])
p("C20","Commands succeed exactly when they can, and do exactly their job",
"After every history of commands on one or several machines, and of files being deleted, copied or replaced by hand in between, the outcome of the next command follows from what the stores contain. Installing succeeds for every version that either store has, adds to the local store nothing but the pieces of a cheapest route (nothing if the build is there), and switches `current` to it. Creating a patch succeeds for any two different known versions and leaves that patch and both builds in the local store. Adding a build file or a package under a legal name succeeds and adds it, together with the patch and its old build if one is asked for and, if asked to upload, with everything the remote lacks. Sync uploads exactly what the remote lacks. Unknown or identical versions, illegal names and missing or empty files make a command fail, leaving `current`, existing files and the remote as they were. Other machines are never affected, and a command that succeeded also succeeds when repeated.",
["histories","inputs"],"all sequences of commands (possible and impossible ones), all store contents that can arise from them and from manual deletions and copies, one to three machines, directory and S3 remotes",
"The end-to-end tests run two or three commands from empty stores and check that a file exists; the decision whether a command may succeed, and everything it must not do besides, is never compared with a model, and no test has failing commands inside a history or several machines.",
["src/lib.rs","src/cli.rs","src/index.rs","src/index/graph.rs","src/storage/mod.rs"],[("command dispatch","src/lib.rs, src/cli.rs"),("knowledge of the two stores","src/index/graph.rs, src/index.rs Index::new"),("upload of what is missing","src/index.rs push")],["exit status, both stores, other machines and `current` after each command, compared with the prediction of a reference model"])
p("C21","How stores and settings are named does not matter",
"The outcome of every command (status, both stores, `current`, what is fetched and uploaded) depends only on which stores, sources and versions it is given, not on how they are named or on unrelated settings: absolute or relative paths with `.`, `..`, doubled or trailing slashes or symbolic links, an option or its environment variable, an S3 URL with or without a redundant trailing slash, the working directory, verbosity, logging, colours, locale, temporary directory, home, umask or the state of the standard streams. An option wins over the environment variable of the same setting. Whatever one naming has stored, later commands find and install under any other.",
["configurations","inputs"],"every command in every situation, all spellings of local store, remote store, sources, build files and repository, all combinations with irrelevant settings",
"Every test passes absolute paths as options in the same environment; environment variables, relative paths, links, other directories and closed streams are never used.",
["src/storage/mod.rs","src/cli.rs","src/paths.rs","src/main.rs","src/lib.rs"],[("options and environment variables","src/cli.rs, src/main.rs"),("parsing of store locations","src/storage/mod.rs Storage::from_str"),("absolute link to the build","src/lib.rs install")],["exit status, both stores, `current` and transfers, compared with a run in a plain environment"])
p("C22","S3 requests are confined, authentic and keep the secret",
"With an S3 remote every request goes over TLS, verified for the configured host, to the configured bucket and prefix and to no other host; it carries a valid AWS version 4 signature made with the configured credentials, over the exact bytes and names sent, for all keys, prefixes, version names and contents, and grants nobody access to an uploaded object. A server that cannot prove to be the endpoint (wrong, expired or self-signed certificate, no TLS) is sent no request, a redirection elsewhere is not followed, and the command then fails without changing a store. The secret key appears in no request, output or file, and with directory remotes no network connection is made.",
["inputs","configurations","fault_sequences"],"all commands, credentials, prefixes, version names and contents; servers with every kind of invalid certificate, plain-text servers, redirections, error answers and paged listings",
"No test talks to an S3 endpoint at all, so neither the requests nor the reaction to an impostor are ever observed.",
["src/storage/s3.rs","src/storage/mod.rs"],[("client and region from the URL","src/storage/s3.rs"),("list, get and put requests","src/storage/s3.rs, src/storage/mod.rs")],["raw requests, TLS server names, host look-ups and connections of each command; all output and files"])
p("C23","The compression setting changes size and time, never content",
"The compression-level setting decides only how small packages, patches and builds rebuilt from patches become: with every value the command succeeds and the result decodes to the same content, and its size is the one zstd reaches at the chosen level. Values beyond zstd's limits act like the limit, values that are no integer exactly like an unset variable. Files that are only copied (adding a build file, fetching, sync) keep their bytes whatever the setting, and artefacts made under different settings, on different machines, can be installed, patched and upgraded together.",
["configurations","inputs"],"every value of the environment variable (all levels, values beyond the limits, unset, empty, not a number, not valid text), all contents, all commands that compress, all mixtures of settings over several commands and machines",
"The tests are compiled with another default level and never set the variable; no test compares results between levels.",
["src/compression.rs","src/lib.rs","src/index.rs"],[("level from the environment","src/compression.rs compression_level"),("compression of packages","src/lib.rs add_package"),("compression of patches and rebuilt builds","src/index.rs calculate_patch/add_build_from_patch")],["bytes of builds and patches made under different values"])
p("C24","Commands end by themselves and stay frugal, however much there is",
"Every command ends by itself: it neither waits for nor reads its standard input or a terminal, and nothing that it started outlives it. However many files a source or the stores hold, however deep the directories, however long or dense the graph of patches and however ramified the git history, it succeeds with few open files (24 suffice with directory stores), in short processor time even when the number of possible routes is exponential, and with file-system calls and requests that grow no faster than the number of files. Packaging, adding, fetching and uploading files between directories takes an amount of memory that does not depend on their size.",
["inputs","configurations"],"all sources, stores, version graphs and repositories of any size and shape; all kinds of standard streams; directory and S3 remotes",
"The tests use at most a handful of small files and three versions, with inherited streams and without limits; neither time, memory, descriptors nor left-over processes are looked at.",
["src/index/graph.rs","src/packaging.rs","src/storage/mod.rs","src/storage/local.rs","src/index.rs","src/git.rs"],[("route search","src/index/graph.rs find_upgrade_path"),("streaming of files into the archive","src/packaging.rs add_file"),("copying between stores","src/storage/mod.rs add_file, src/index.rs get_build"),("search among tags","src/git.rs find_tags_to_patch")],["exit status under resource limits, peak memory, processor time, numbers of file-system calls and requests, inherited pipe"])
p("C25","The printed index, messages and exit codes can be relied upon",
"`debug` succeeds, changes and fetches nothing, and prints for each store exactly the builds with content that it holds and the patches with content between builds that are known in either store, and nothing else. A command that fails ends with status 1, prints nothing on standard output and an error on standard error that names the unknown version, the missing or unusable file or store, or the reason that the system or the S3 server gave; a command that succeeds prints no error. Help and version in all forms end with status 0 and text on standard output, wrong usage with an error on standard error and a failure status, both without touching any store.",
["inputs","fault_sequences"],"all store contents including foreign files, all impossible and malformed commands, failures of every file-system call and request, all forms of help and wrong usage",
"No test runs debug, help or wrong usage, and failing commands are only checked for their status.",
["src/main.rs","src/cli.rs","src/lib.rs","src/index.rs","src/index/graph.rs"],[("printing of the index","src/main.rs Command::Debug"),("filters on the listing","src/index/graph.rs update_from_file_list"),("error context","src/lib.rs, src/cli.rs, src/index.rs, src/storage/mod.rs")],["standard output, standard error and exit status of each command"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80,x["id"]
print(len(P))
