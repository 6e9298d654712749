#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b) for a, b in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=hook)))

p("P01", "A synced package reopens exactly as it was written",
  "After a package is begun or appended to, filled and synced, opening the written file yields exactly the entries the writer had: the same names in the same order, each with the same tags (identifiers, order and value bytes), the same package information, the same entry count, data size and single/split mode. This holds for the empty package, for a package with information but no files, and after any number of further append, modify and sync rounds; syncing again without changes does not alter what is read back.",
  ["histories", "inputs"], "all sequences of begin / put / set, rename, alias, delete, set-info / sync / append / reopen, single-file and split, over all tag contents",
  "The tests write a handful of fixed packages and compare a few tags; they never look at entry order, at empty packages, at information without files, or at re-sync.",
  ["wpk.go", "writer.go", "tagset.go", "util/seqmap.go", "util/uintio.go"],
  [("table serialisation", "FTT.WriteTo / FTT.Parse / FTT.ReadFrom in wpk.go"), ("header", "Header.WriteTo / Parse / ReadFrom in wpk.go"), ("finalisation", "FTT.Begin / Append / Sync in writer.go")],
  [("tags table", "ordered name -> tag list map held in memory"), ("header", "the 64 byte record naming table and data extents")],
  ["FTT.OpenFile / OpenStream", "Package.Enum", "Package.GetInfo", "FTT.TagsetNum", "FTT.DataSize", "FTT.IsSplitted"])
p("P02", "Every packed file reads back byte for byte through every access mode",
  "For every entry of a synced package, opening it through the whole-in-memory, memory-mapped and file-section access modes gives exactly the bytes that were packed, through whole reads, sequential reads of any size, positioned reads and seeks, including empty files and files touching page boundaries. No read returns a byte outside the entry's own data, and reads past its end report end of file exactly as a regular file of that content would. The size reported for the entry equals the packed length, and an entry whose data is not fully present in the package file is reported as an error, never as made-up bytes or a crash.",
  ["inputs", "histories"], "all contents and lengths, all placements relative to page boundaries, all sequences of read / read-at / seek calls, all three access modes, truncated data files",
  "Tests read five small images whole, in order; no zero-length file, no page-boundary placement, no seek or positioned read, no truncated data.",
  ["bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go", "wpk.go", "tagset.go"],
  [("slice window", "bulk.NewSliceFile"), ("page alignment", "mmap.NewMappedFile"), ("section window", "fsys.NewChunkFile"), ("whole read", "Package.ReadFile"), ("extent decoding", "TagsetRaw.Pos")],
  [("offset and size tags", "extent of the entry's data in the package")],
  ["Package.Open", "Package.ReadFile", "Package.OpenTagset", "RFile.Read/ReadAt/Seek/Stat"])
p("P03", "Packing more files never disturbs what is already packed",
  "Packing further files, whether in the same session, after a sync or in a later append session, never changes the bytes, size or tags of any entry already in the package, nor what a file opened earlier from it returns. Data of files packed by different calls never overlap and lie wholly inside the package's data area; aliases share the data of their source. A packing call that is refused or fails leaves every existing entry as it was.",
  ["histories", "inputs"], "all multi-session histories of packing, aliasing, renaming, deleting, syncing and reopening, with readers opened at any point",
  "Tests append once and only check the final names and contents; no handle is kept open across an append and no extent is examined.",
  ["writer.go", "wpk.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"],
  [("append position", "FTT.Append in writer.go"), ("extent allocation", "Package.PackData in writer.go"), ("data area bounds", "FTT.Sync in writer.go")],
  [("data extents", "disjoint ranges of the data area, one per packed file")],
  ["Package.PackData", "Package.PackFile", "Package.Open"])
p("P04", "A split package survives a stop at any point of packing or syncing",
  "If the program stops at any moment while a split package (separate tags and data files) is being packed, appended to or synced - between any two writes to its files - the package on disk still opens, and shows exactly the table of the last completed sync or, if the stop fell inside a sync, possibly the table that sync was writing. Every entry shown reads back complete. A split package just begun opens as an empty package.",
  ["crash_points", "histories"], "every history of begin / append / pack / modify / sync and every point between two writes (and inside the data writes) at which the process may stop",
  "Tests never stop a writer half way; they only open finished packages.",
  ["writer.go", "wpk.go"],
  [("write order of sync", "FTT.Sync in writer.go"), ("header write", "Header.WriteTo in wpk.go"), ("readiness rule", "Header.IsReady in wpk.go")],
  [("header record", "points to the live table"), ("live table", "must stay intact until the header points elsewhere")],
  ["writes seen by the io.WriteSeeker arguments", "FTT.OpenStream on the file images"])
p("P05", "A single-file package is never readable half written",
  "While a single-file package is being created or appended to, opening it reports that it is not ready, from the completion of the begin or append call until the sync completes; from then on it opens with everything that was packed. At no stop point - between any two writes - does it open with a table other than that of a completed sync.",
  ["crash_points", "histories"], "every history of begin / append / pack / sync and every point between two writes",
  "Tests only open single-file packages after a completed sync.",
  ["writer.go", "wpk.go"],
  [("prebuild signature", "FTT.Begin / FTT.Append in writer.go"), ("signature check", "Header.IsReady in wpk.go"), ("header write", "FTT.Sync, Header.WriteTo")],
  [("signature", "ready / in building / foreign")],
  ["writes seen by the io.WriteSeeker argument", "FTT.OpenStream", "GetPackageInfo"])
p("P06", "A split package can be opened and read while it is being packed",
  "A reader that opens a split package at any time while a writer is packing into it or syncing it, at most one sync overlapping the opening, succeeds and sees exactly the table of a sync completed before the opening ended and not before it began being replaced. All entries it sees read back complete, also after the writer goes on packing and syncing.",
  ["schedules", "histories"], "all interleavings of a reader's steps (header read, table read, data reads) with a writer's individual writes",
  "Tests never open a package that is being written.",
  ["writer.go", "wpk.go"],
  [("table placement", "FTT.Sync in writer.go"), ("header-then-table reading", "FTT.OpenStream in wpk.go")],
  [("header record", "switches atomically from one complete table to the next")],
  ["FTT.OpenStream over a stream whose content evolves", "Package.ReadFile"])
p("P07", "Opening arbitrary bytes gives a valid table or an error",
  "Opening any byte sequence as a package ends with either an error or a table in which every entry has a name, an offset and a size, names are unique, and every extent lies inside the data area the header declares; it never panics, hangs, or reserves memory out of proportion to the input. A table is returned only if it is exactly what the bytes encode, and a well-formed package is never refused. The outcome does not depend on how the input stream splits its data into reads.",
  ["inputs", "fault_sequences"], "all byte sequences: truncations, corrupted headers, tables and tags of well-formed packages, and all ways of splitting the reads",
  "Tests open only packages they have just written, through regular files.",
  ["wpk.go", "tagset.go", "util/uintio.go"],
  [("header parsing", "Header.Parse / ReadFrom / IsReady"), ("table parsing", "FTT.Parse / FTT.ReadFrom"), ("entry validation", "FTT.CheckTagset"), ("tag iteration", "TagsetIterator.Next")],
  [("package image", "bytes of header, data and table")],
  ["FTT.OpenStream", "FTT.OpenFile", "FTT.Parse", "FTT.ReadFrom", "Header.ReadFrom"])
p("P08", "Quick package information agrees with a full opening",
  "For every package file, the quick information query succeeds exactly when a full opening gets past the header and the information record, and then reports the same package information, entry count, table size and data size as the full opening. It reports a not-ready or foreign file with the same kind of error, for packages in every stage of building, single and split, empty or not.",
  ["histories", "inputs"], "all packages reachable by building histories, at every stage, and damaged ones",
  "One example prints the information of one finished package.",
  ["wpk.go"],
  [("quick info", "GetPackageInfo in wpk.go"), ("full opening", "FTT.OpenStream in wpk.go")],
  [("information record", "first record of the table")],
  ["GetPackageInfo", "FTT.OpenStream", "FTT.GetInfo"])
p("P09", "A tag set behaves as an ordered list of tags with unique identifiers",
  "Adding, setting, deleting, testing, getting, counting and iterating tags behave as on an ordered list of (identifier, value) pairs: set replaces the value in place or appends, add appends only when absent, delete removes only the named tag, and each reports truthfully what it did; all other tags keep their values and order, for every identifier and every value length up to 65535 bytes. A copied tag set never changes when the original does. On damaged bytes the queries stop with failure instead of panicking or inventing tags.",
  ["inputs", "histories"], "all operation sequences over all identifiers including zero, all value lengths, all spare capacities of the buffer, all damaged byte strings",
  "One test builds one tag set and checks a few fixed operations.",
  ["tagset.go"],
  [("in-place editing", "TagsetRaw.Put / AddOk / SetOk / DelOk"), ("iteration", "TagsetIterator.Next / Failed / Passed"), ("lookup", "TagsetRaw.Has / Get / Num"), ("copy", "CopyTagset")],
  [("tag set bytes", "concatenation of id, length, value records")],
  ["TagsetRaw methods", "TagsetIterator"])
p("P10", "Renaming, aliasing and deleting do exactly what they say to names",
  "Names in a package are unique; rename moves one entry to a free name keeping its tags and data, alias adds a second name for the same data, delete removes only the named entry, and renaming a directory renames exactly the entries below it, reporting how many. An operation on an absent name or onto a taken name is refused with the matching error and changes nothing (a directory rename skips an entry whose new name is taken, or stops there, as asked), and the name stored in an entry's tags always equals the name it is found under. Both slash styles address the same entry, and all of it holds relative to a sub-directory view.",
  ["histories", "inputs"], "all sequences of operations over all name shapes (nested, prefixes of one another, either slash style, longer and shorter names), at the root and in sub views",
  "Tests rename and alias a couple of fixed names once.",
  ["writer.go", "wpk.go", "util/seqmap.go", "tagset.go", "util/strutil.go"],
  [("rename", "Package.Rename / RenameDir"), ("alias", "Package.PutAlias"), ("lookup", "Package.GetTagset / HasTagset / DelTagset / SetTagset"), ("path arithmetic", "Package.FullPath / TrimPath, util.ToSlash / JoinPath")],
  [("tags table", "ordered map from full name to tag list")],
  ["Package methods", "Package.Enum"])
p("P11", "Typed tag values survive encoding and decoding",
  "Every string, boolean, byte, 16/32/64-bit and unsized unsigned number, floating point number and time stored as a tag is read back as the same value by the matching getter, through any of the encodings that can hold it; unsized numbers use the fewest bytes of 1, 2, 4, 8. Getters of a different width refuse the value instead of misreading it. All stored numbers are little-endian, as the file format demands.",
  ["inputs"], "all values of each type, at and around every width boundary, negative and pre-1970 times, all tag lengths",
  "One test encodes one value of some types.",
  ["tagset.go", "util/uintio.go"],
  [("constructors and getters", "XxxTag / TagRaw.TagXxx in tagset.go"), ("number layout", "Get/Set/Read/Write U16..F64 in util/uintio.go")],
  [("tag value bytes", "little-endian encodings")],
  ["TagRaw methods", "TagsetRaw typed getters"])
p("P12", "The file-system view is exactly the tree implied by the file names",
  "Over a package whose names are well-formed paths, none of them at once a file and a directory, Open, Stat, ReadDir, Glob, ReadFile and a walk present exactly the directory tree implied by the stored names: every file and every implied directory once, under the right name and kind, directory listings sorted by name, nothing else found. Reading a directory in portions returns every member exactly once and then end of file. Absent names give a not-exist error.",
  ["inputs", "histories"], "all sets of file names and all queries on them (names, directories, patterns, portion sizes), after any operations",
  "Tests list one fixed tree with sorted expectations and never read in portions, stat a directory or walk.",
  ["wpk.go", "dir.go", "tagset.go"],
  [("listing", "FTT.ReadDirN / PackDirFile.ReadDir"), ("directory lookup", "FTT.OpenDir"), ("queries", "Package.Open / Stat / Glob / ReadDir / ReadFile")],
  [("name set", "full names of all entries")],
  ["fs.FS, fs.StatFS, fs.GlobFS, fs.ReadDirFS, fs.ReadFileFS methods", "fs.WalkDir"])
p("P13", "A sub-directory view shows and changes only its own subtree",
  "The view of a sub-directory shows exactly the entries below that directory, under names relative to it, for all queries, also when nested; a sibling whose name merely begins with the directory's name is never visible. Packing, tagging, renaming or deleting through the view affects exactly the corresponding full names of the package. Taking a view of a directory that does not exist fails.",
  ["inputs", "histories"], "all name sets with nested and prefix-sharing names, all nestings of views, all operations through them",
  "Tests take one sub view of a fixed tree and read one file.",
  ["wpk.go", "writer.go", "dir.go", "union.go"],
  [("view", "Package.Sub / Workspace"), ("path arithmetic", "Package.FullPath / TrimPath / Enum"), ("listing", "FTT.ReadDirN / OpenDir")],
  [("workspace", "directory the view is rooted at")],
  ["Package.Sub", "Union.Sub", "all view methods"])
p("P14", "In a union of packages the first package holding a name wins",
  "A union shows for every name the entry of the first package in its list that has it, consistently for open, stat, whole-file read, listings, glob, key enumeration and sub views; an entry of any package precedes a directory of the same name; names and directories of all packages appear exactly once, listings sorted. Packages later in the list never hide or alter earlier ones, packages viewed at different sub-directories are combined by their relative names, and the raw content of each package taken whole stays reachable by its index. Closing the union closes every package.",
  ["inputs", "configurations"], "all lists of packages with overlapping name sets and differing sub-directory roots, all queries",
  "Tests use two or three fixed packages with little overlap and look at few queries.",
  ["union.go", "wpk.go", "dir.go"],
  [("lookup order", "Union.Open / Stat / ReadFile / AllKeys / Glob"), ("merged listing", "Union.ReadDirN / UnionDir.ReadDir"), ("raw content", "Union.Open of @pack/<n>")],
  [("list", "packages in priority order")],
  ["Union methods"])
p("P15", "Concurrent packing loses nothing, mixes nothing, never duplicates",
  "When several goroutines pack files into one package at the same time, every call that reports success leaves an entry whose data is exactly what that call supplied, every call that reports failure leaves none, and no call disturbs another's data or tags. Of concurrent calls using the same name exactly one succeeds when none was there before. Files deleted, renamed or aliased meanwhile take nothing from it: a renaming never replaces a file packed meanwhile, a deleted file does not come back, and no file is lost. This holds for every schedule, single-file and split.",
  ["schedules"], "all interleavings of concurrent packing calls (data and file flavours), including calls whose source stalls or fails, same and different names, also with deletions, renamings and aliasing",
  "One test packs concurrently with distinct names under one accidental schedule.",
  ["writer.go", "wpk.go", "util/seqmap.go"],
  [("packing critical section", "Package.PackData in writer.go"), ("file packing", "Package.PackFile in writer.go"), ("ordered map", "util.SeqMap")],
  [("write position and data size", "guarded by the writer mutex"), ("tags table", "ordered map")],
  ["Package.PackData / PackFile with gated readers and writers"])
p("P16", "Syncing beside packers writes a complete, consistent package",
  "A sync that runs while other goroutines pack files writes a package that opens without error and contains every file whose packing had returned before the sync began and that was not deleted (a file being renamed under one of its names), only files fully written before it ended, a header count equal to the number of table entries, and no entry reaching past the recorded data area. The later syncs and the packers continue undisturbed.",
  ["schedules"], "all interleavings of packing calls and syncs on a split package, of deletions, renamings and aliasing beside a sync, and of packing calls before a single-file sync",
  "One test syncs while packing under one accidental schedule and only checks that it does not fail.",
  ["writer.go", "wpk.go", "util/seqmap.go"],
  [("writer mutex", "FTT.Sync and Package.PackData in writer.go"), ("table snapshot", "FTT.WriteTo, SeqMap.Range")],
  [("header count / data size", "must match the written table")],
  ["FTT.Sync with gated writers", "FTT.OpenStream on the image after each sync"])
p("P17", "The ordered map is a linearizable insertion-ordered map",
  "Used by any number of goroutines, the ordered map behaves as if each operation took place at one instant: values are found under their keys, replacing keeps the position, deleting closes the gap, popping takes the last, pushing refuses a present key without altering it, iterating visits a snapshot in insertion order, and the length is exact. No schedule loses or duplicates an entry or crashes.",
  ["schedules", "histories"], "all operation sequences, and all interleavings of concurrent operations",
  "The map has no test of its own; package tests use it mostly from one goroutine.",
  ["util/seqmap.go"],
  [("locking", "SeqMap methods"), ("index maintenance", "SeqMap.Delete / Pop / Poke / Push")],
  [("sequence and index", "ordered pairs plus key positions")],
  ["SeqMap methods"])
p("P18", "A failed pack or sync reports the error and spoils nothing",
  "If a source stream fails, or a write or seek on the package's files fails at any point, the packing, begin, append or sync call returns an error, no entry appears for the failed file, and all entries packed before stay intact. After a failed packing call or a failed sync, packing may continue and a later successful sync yields a complete package with all successfully packed files. No call reports success when some of its bytes were not written.",
  ["fault_sequences", "histories"], "every single fault (and pairs) at every read, write and seek of a packing history, single-file and split",
  "No test injects a fault.",
  ["writer.go", "wpk.go"],
  [("error propagation", "Begin / Append / Sync / PackData / PackFile in writer.go, WriteTo in wpk.go")],
  [("write position", "may be advanced by a failed call"), ("recorded data size", "counts only what was accepted")],
  ["returned errors with fault-injecting streams", "FTT.OpenStream on the result"])
p("P19", "Packages and files beyond 4 GiB keep exact offsets and sizes",
  "Offsets, sizes, the recorded data size and the table position stay exact when files lie beyond 4 GiB or are themselves larger than 2 or 4 GiB; such packages reopen and such entries read back the right bytes at the right positions. Further packing into such packages goes to the true end.",
  ["inputs", "histories"], "all placements and lengths around and beyond the 2 GiB and 4 GiB boundaries, single-file and split",
  "Tests use packages of a few hundred kilobytes.",
  ["wpk.go", "writer.go", "tagset.go", "fsys/fsys.go", "mmap/mmap.go", "util/uintio.go"],
  [("64-bit positions", "UintTag / TagUint / Pos, Header fields, Sync"), ("windows", "NewChunkFile / NewMappedFile")],
  [("offset, size, header fields", "64-bit numbers")],
  ["PackData on sparse files", "OpenFile", "RFile.ReadAt"])
p("P20", "The scripting API enforces the package session protocol",
  "From a script a package is written only between begin or append and finalize: begin, append and load on an open package, and packing, flush or finalize on a closed one, fail with an error and change nothing; flush needs a split package. After finalize the files on disk open with exactly what the script packed, in every order of begin, load, append, flush and finalize the protocol allows. The session properties (paths, counts, sizes, label) always describe the current state.",
  ["histories", "programs"], "all sequences of session calls, single-file and split",
  "Tests run a few fixed scripts along the straight path.",
  ["luawpk/luawpk.go", "writer.go"],
  [("session guard", "wpkload / wpkbegin / wpkappend / wpkfinalize / wpkflush / wpkputdata / wpkputfile"), ("properties", "get... functions in luawpk/luawpk.go")],
  [("open writers", "tags and data files of the session")],
  ["Lua scripts run on the API", "package files on disk"])
p("P21", "Script tag operations change exactly the requested tags",
  "Setting, adding, deleting and reading tags from a script, singly or by table, by name or number, affect exactly the named tags of the named file and report truthfully what was done; offset, size and path cannot be changed. Values come back as the value that was set in the tag's declared type. A call with an unknown tag name, an unusable or unstorable value or an absent file raises an error and changes nothing.",
  ["programs", "inputs"], "all tag calls with all tag identifiers, value types and tables, in any order",
  "Test scripts set a handful of tags without checking most of them.",
  ["luawpk/luawpk.go", "luawpk/nametid.go", "tagset.go"],
  [("tag calls", "wpksettag / addtag / deltag / settags / addtags / deltags / gettag / gettags / setupinfo / getinfo"), ("conversions", "ValueToTID / ValueToTag / TagToValue / TableToTagset")],
  [("tag sets", "ordered tag lists of the files and of the package")],
  ["Lua scripts run on the API"])
p("P22", "Automatic tags describe exactly the packed data",
  "When automatic tags are enabled from a script, each file packed gets a file identifier different from every other file's in the package, also across append sessions, the checksum and keyed digests of exactly its data under the current secret, and a MIME type matching its name or content; disabled ones are never added. A file identifier given explicitly by the script is respected when the next ones are chosen. Explicitly given tags take precedence over automatic ones.",
  ["histories", "inputs"], "all combinations of the automatic options and secrets, all contents, across sessions, data and file flavours",
  "Tests check no digest value and no identifier across sessions.",
  ["luawpk/adjusttags.go", "luawpk/luawpk.go", "luawpk/mimeext.go"],
  [("tag computation", "adjusttagset and adjust... in luawpk/adjusttags.go"), ("identifier counter", "LuaPackage.fidcount")],
  [("identifier counter", "next free file identifier")],
  ["tags of the packed files"])
p("P23", "The extract tool reproduces every file and stays in its destination",
  "Extracting a package, single or split, in any of the three access modes, creates under the destination exactly the packed files with exactly their bytes. Whatever names a package contains, nothing outside the destination directory is created or changed. A run over well-formed names without conflicts completes; a file that cannot be extracted (a hostile name, lost data, a file in the way of a directory or the reverse, an absent package or destination) is reported as a failure in the log, and the run does not report completion.",
  ["inputs", "configurations"], "all packages including hostile names, all access modes, split and single, several packages at once",
  "The tool has no tests.",
  ["cmd/extract/extract.go"],
  [("extraction loop", "readpackage in cmd/extract/extract.go"), ("opening", "openpackage")],
  [("destination tree", "files created below the destination")],
  ["files on disk after running the tool", "tool log"])
p("P24", "The pack tool packs every file of the given folders or reports failure",
  "A run of the pack tool that reports completion leaves a package, single or split, that contains every regular file of the given folders under its relative path with its bytes, size and times, and nothing else, with MIME and link tags when asked and only then. If any file cannot be packed, or two folders hold the same relative path, the run does not report completion; otherwise, over readable regular files with different relative paths, it does. A package written into one of its own source folders does not contain itself.",
  ["inputs", "configurations"], "all directory trees and folder lists, all option combinations, unreadable and clashing files",
  "The tool has no tests.",
  ["cmd/pack/pack.go", "writer.go"],
  [("walk", "writepackage in cmd/pack/pack.go"), ("file packing", "Package.PackFile"), ("MIME tag", "content sniffing in writepackage")],
  [("source trees", "folders given by the user")],
  ["package written by the tool", "tool log"])
p("P25", "Path and environment helpers compute exactly their documented result",
  "Environment expansion replaces exactly the $NAME, ${NAME} and %NAME% occurrences of known variables, the given map having precedence over the environment, and leaves every other character as it was, wherever they stand in the string. Joining, slash conversion, case conversion, key normalisation and base-name extraction (the last path element up to its first dot) give the documented result for every string and never alter their argument. The path functions and conversions offered to scripts (clean, dir, base, name, ext, split, join, match, glob, enum, hexadecimal and time conversions) do what their documentation says.",
  ["inputs"], "all strings over the relevant alphabet up to the bound, all environments",
  "Tests check a fixed list of strings.",
  ["util/strutil.go", "luawpk/luapath.go", "luawpk/runlvm.go"],
  [("expansion", "util.Envfmt"), ("path helpers", "ToSlash / ToLower / ToUpper / ToKey / JoinPath / JoinFilePath / PathName")],
  [], ["function results"])
p("P26", "File times survive packing and are reported as stored",
  "A packed disk file carries its modification, access and, where the system has them, change and birth times with nanosecond precision; after reopening the package, all time accessors of the entry report those instants, whichever of the two stored time formats is used, and extraction with original times restores them. Absent times are reported as absent.",
  ["inputs"], "all instants, both stored formats, present and absent time tags, through the interface accessors, the script API and the extract tool",
  "Tests do not compare access, change or birth times.",
  ["tagset.go", "writer.go", "cmd/extract/extract.go"],
  [("time tags", "Package.PackFile in writer.go"), ("accessors", "ModTime / AccessTime / ChangeTime / BirthTime / HasChangeTime / HasBirthTime in tagset.go")],
  [("time tags", "8 byte milliseconds or 12 byte seconds and nanoseconds")],
  ["accessors of the file info", "times of extracted files"])
p("P27", "The build tool runs scripts in order, each afresh, up to the first error",
  "The build tool runs the given scripts one after another, finding them by paths with environment variables expanded; every script starts with a fresh state (no variable, package object or setting of an earlier one) and finds its own directory, the directory of the program and the temporary directory in its global variables, and its log lines come out in order. An error a script does not catch, a damaged or an absent script is reported and ends the run: nothing after it is executed. What a script packed and finalized or flushed is in the package files; a package it left unfinished stays not ready, a split one at the table of its last flush.",
  ["inputs", "histories"], "all sequences of scripts and statements up to the bound, caught and uncaught errors anywhere, several runs over the same package files",
  "The tests run two fixed scripts.",
  ["cmd/build/build.go", "luawpk/runlvm.go", "luawpk/luawpk.go"],
  [("script run", "RunLuaVM in luawpk/runlvm.go"), ("tool", "main in cmd/build/build.go")],
  [("globals", "scrdir, bindir, tmpdir")],
  ["tool log", "package files after the run"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
