"""Single source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None,
         technique="", level="exploration", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, state=list(state), hook=hook,
                  technique=technique, level=level, note=note))

prop("C01", "WAD entries decode to exactly the archived content",
     "For every well-formed WAD archive of a supported format version, opening it reports exactly the archived entries (hash, sizes, storage kind, subchunk location, checksum) in archive order, and reading any entry yields exactly the bytes that were stored, whatever way it is stored: plain, gzip, zstd, or split into individually stored or compressed subchunks. A redirection entry yields no data. An entry has a path if and only if its hash is in the hash list used, and then it is the listed path; a file that is not a WAD, or whose major version is unknown, is refused.",
     ["inputs", "configurations"],
     "all WAD format versions, any number, order, overlap and padding of entries, any content, any subchunk layout (including large subchunk indices), any hash list",
     "No existing test opens a WAD; the quantifier is over a binary format with 4 header layouts, 5 storage kinds and arbitrary content.",
     ["cdtb/wad.py"],
     [("header layouts per version", "cdtb/wad.py Wad.parse_headers"), ("per-kind decoding", "cdtb/wad.py WadFileHeader.read_data"), ("subchunk table", "cdtb/wad.py Wad.load_subchunk_toc"), ("path resolution", "cdtb/wad.py Wad.resolve_paths")],
     ["Wad(...).files", "Wad.read_file_data", "wad-list output"],
     technique="property-based round trip: independent WAD writer, decode and compare",
     note="Independent encoder generates archives of every version and storage kind; compared field by field and byte by byte. Trusts zstd, gzip and xxhash libraries.")

prop("C02", "WAD extraction writes each entry once, under its right name",
     "Extracting a WAD writes exactly one file per selected data entry, with that entry's content, under the output directory: at its known path, or at `unknown/<16-digit hash>[.<detected extension>]` when the path is unknown; nothing else is written, and redirections are skipped. A known path without extension gets a `.cdtb` suffix (followed by the detected extension, if any), and a file name of 250 characters or more is shortened to 250, keeping its extension and inserting the hash, so that distinct entries stay distinct and extracting again gives the same names. With the lazy option an existing file is left untouched; the pattern and unknown options of the command select exactly the matching entries.",
     ["inputs", "configurations"],
     "any archive, any mix of known/unknown/extensionless/overlong paths, any pre-existing files, all values of the command's selection options, repeated extraction",
     "No existing test extracts a WAD; naming rules interact (unknown, extensionless, overlong, guessed extension) and depend on content and hash list.",
     ["cdtb/wad.py", "cdtb/__main__.py"],
     [("path sanitising", "cdtb/wad.py Wad.sanitize_paths"), ("unknown naming", "cdtb/wad.py Wad.set_unknown_paths"), ("extraction", "cdtb/wad.py Wad.extract, WadFileHeader.extract"), ("selection", "cdtb/__main__.py command_wad_extract")],
     ["files on disk after `cdtb wad-extract`"],
     technique="property-based testing against a reference naming model, on-disk comparison",
     note="Reference model of the naming rules; the whole output tree is compared, not only the expected files.")

prop("C03", "Damaged subchunked entries never yield wrong data",
     "When the data of a subchunked entry does not match its subchunk table (altered or truncated data, wrong hash or sizes), reading that entry through the archive yields no data instead of wrong data, extraction writes no file for it, and every other entry is still read and extracted exactly. Without a subchunk table, a subchunked entry is read when it can be decompressed as a whole and skipped otherwise.",
     ["inputs", "fault_sequences"],
     "any archive with subchunked entries and any corruption of one or more of their subchunks or of the table",
     "No existing test covers corrupted archives; corruption position and kind are unbounded.",
     ["cdtb/wad.py"],
     [("per-subchunk hash verification", "cdtb/wad.py WadFileHeader.read_data"), ("error isolation", "cdtb/wad.py Wad.read_file_data, WadFileHeader.extract")],
     ["Wad.read_file_data", "files on disk after extraction"],
     technique="fault-injecting property-based testing (bit flips, truncation, table damage)",
     note="Random corruption of generated archives; oracle: exact original bytes or no data.")

prop("C04", "File type detection is total and depends only on content",
     "For any byte string, detecting the type of an unknown file terminates without error and returns the extension of the first matching known signature, else `json` when the content is a JSON document, else nothing. After detection on an archive, every entry with a known path keeps the extension of that path and every other entry has the extension detected from its own content.",
     ["inputs"],
     "all byte strings, including truncated signatures, deeply nested or numerically huge JSON and invalid text; all archives",
     "No existing test; totality over arbitrary bytes cannot be sampled by examples.",
     ["cdtb/wad.py"],
     [("signature table and JSON fallback", "cdtb/wad.py WadFileHeader.guess_extension"), ("archive pass", "cdtb/wad.py Wad.guess_extensions")],
     ["WadFileHeader.guess_extension", "Wad.guess_extensions"],
     technique="property-based fuzzing with signature-aware generator against a reference table",
     note="Reference signature list is an independent copy of the documented one.")

prop("C05", "BIN files decode to exactly the encoded object tree",
     "For every well-formed BIN or patch-BIN file, decoding yields exactly the encoded file version, linked files, entries, nested typed values and patch entries, for every value type at any nesting, using the type numbering in force for the given game version. Its JSON form and its printed tree carry the same values, with hashes replaced by their known names and shown in braces when unknown.",
     ["inputs", "configurations"],
     "all object trees over all value types and nestings, file versions 1-3, plain and patch files, all game versions around the numbering changes, any hash list",
     "No existing test parses a BIN file; the format is recursive with three type numberings.",
     ["cdtb/binfile.py"],
     [("recursive reader", "cdtb/binfile.py BinReader"), ("type renumbering", "cdtb/binfile.py BinReader.parse_bintype"), ("serialisation", "cdtb/binfile.py to_serializable methods"), ("text dump", "cdtb/binfile.py format_binvalue, BinFile.dump")],
     ["BinFile attributes", "BinFile.to_serializable()", "`cdtb bin-dump [-j]` output"],
     technique="property-based round trip with an independent recursive BIN writer",
     note="Independent encoder and independent JSON model; float values are compared as the 32-bit values stored.")

prop("C06", "BIN names and fields are found by name or by hash alike",
     "Looking up a field of a decoded object by name (in any letter case), by hash, or by another hashed name finds the same field - the first one with that hash - and reports absence consistently through membership, default values and nested lookup. A hashed value equals another one or an integer exactly when the hashes are equal, equals a string exactly when the string is its known name or (if it has none) hashes to it, and equal hashed values have equal hash codes. Assigning a field replaces the existing one or appends it, changing no other.",
     ["inputs", "histories"],
     "all objects, all known/unknown names, all key forms, sequences of lookups and assignments",
     "No existing test; equality and lookup laws quantify over all hashes and names.",
     ["cdtb/binfile.py"],
     [("hash identity", "cdtb/binfile.py BinHashBase"), ("field access", "cdtb/binfile.py BinObjectWithFields"), ("FNV-1a hash", "cdtb/binfile.py compute_binhash")],
     ["field access API", "equality", "compute_binhash"],
     technique="model-based property testing (ordered dictionary model, own FNV-1a/xxhash reference)",
     note="Reference FNV-1a written independently.")

prop("C07", "String tables return every text under its key",
     "For every well-formed string table of a supported version, looking up a key - by text in any letter case, or by its 64-bit hash - returns exactly the encoded text, with the hash algorithm and hash width in force for the table version and game version; keys not in the table are reported absent consistently by lookup, membership and defaults. Binary (encrypted) values are returned base64-encoded, the optional font configuration is returned as is, and invalid text bytes never make the table unreadable.",
     ["inputs", "configurations"],
     "table versions 2-5, game versions around both algorithm and width changes, any texts (shared, overlapping, empty, invalid UTF-8, encrypted), any keys",
     "No existing test reads a string table; four versions times three hash regimes.",
     ["cdtb/rstfile.py"],
     [("parser", "cdtb/rstfile.py RstFile.parse_rst"), ("key hashing", "cdtb/rstfile.py key_to_hash")],
     ["RstFile[...]", "RstFile.get", "in"],
     technique="property-based round trip with an independent string-table writer",
     note="Independent writer; hash width expectations per game version restated from the format history.")

prop("C08", "JSON companions say what the converted file says",
     "The JSON written next to (or in place of) a converted file - string table, BIN, atlas description in both formats, champion skin list - contains exactly the information of the source file: same entries, keys resolved through the hash lists when known and shown in braces otherwise, same values. When the original is also exported, it is byte-identical.",
     ["inputs", "configurations"],
     "all well-formed string tables, BIN files, atlas descriptions (text and hashed) and skin lists, any hash list, any game version",
     "No existing test converts a file.",
     ["cdtb/export.py", "cdtb/rstfile.py", "cdtb/binfile.py", "cdtb/tools.py"],
     [("converters", "cdtb/export.py RstConverter, BinConverter, AtlasInfoConverter, ChampionSkinInfoConverter"), ("JSON writing", "cdtb/tools.py json_dump")],
     ["files written by a converter"],
     technique="property-based differential testing: generated sources, parsed JSON compared to the generating model",
     note="Output is parsed with the standard JSON library and compared to the generating model.")

prop("C09", "Mesh files convert to equivalent OBJ meshes",
     "For every well-formed skinned mesh, each submesh yields an OBJ text with exactly its vertices (positions, texture coordinates, normals, in order) and exactly its triangles, whose vertex references are 1-based, local to the submesh and designate the same vertices as in the source; every face line is valid OBJ. Extraction writes one file per submesh, named after it.",
     ["inputs"],
     "mesh versions 0, 1, 2 and 4, all vertex types, any number and layout of submeshes",
     "No existing test parses a mesh.",
     ["cdtb/sknfile.py", "cdtb/export.py", "cdtb/__main__.py"],
     [("parser", "cdtb/sknfile.py SknFile"), ("OBJ writer", "cdtb/sknfile.py SknFile.to_obj"), ("directory output", "cdtb/export.py SknConverter")],
     ["SknFile.entries", "OBJ text", "`cdtb skn-extract` output"],
     technique="property-based round trip: independent mesh writer and strict OBJ parser",
     note="Strict OBJ parser written for the check; coordinates compared exactly as 32-bit floats.")

prop("C10", "Texture conversion preserves the full-size image",
     "Converting a well-formed texture gives a PNG with the same width, height and pixels as its full-size level, with or without lower mipmap levels, for every supported pixel format; the output is at the source path with a .png extension. A file that is not a supported texture is refused as a conversion error, without leaving an output file.",
     ["inputs"],
     "all sizes (including non multiples of the block size), all supported TEX formats, with and without mipmaps, DDS and TGA sources, malformed headers",
     "No existing test converts an image.",
     ["cdtb/export.py"],
     [("header rewriting and mipmap selection", "cdtb/export.py TexConverter.tex_to_dds"), ("PNG writing", "cdtb/export.py TexConverter.convert, ImageConverter.convert")],
     ["PNG written by the converter"],
     technique="property-based differential testing against independent decoders (BGRA8, BC1, BC3) and an independent DDS wrapper",
     note="Pixel decoding of BC7/BC5 trusts Pillow through an independently built container; BGRA8/BC1/BC3 are decoded independently.")

prop("C11", "A bad asset never spoils an export",
     "When some exported files cannot be converted (truncated, corrupted or of a wrong type), the export still completes: every other file is exported exactly as it would be without them, and the bad file leaves no partially written converted output.",
     ["inputs", "fault_sequences"],
     "any set of assets of every convertible type with any subset replaced by arbitrary or corrupted bytes, from plain files and from archives",
     "No existing test runs the exporter on data; the failure space is all byte strings for each of seven converters.",
     ["cdtb/export.py", "cdtb/tools.py"],
     [("conversion error contract", "cdtb/export.py FileConverter.convert"), ("isolation", "cdtb/export.py Exporter._export_plain_file, _export_wad"), ("removal of partial files", "cdtb/tools.py write_file_or_remove, write_dir_or_remove")],
     ["output directory after export"],
     technique="structure-aware fuzzing (mutated valid assets), differential export with and without the bad assets",
     note="Mutations of valid assets and raw bytes; compared against the export of the good assets alone.")

prop("C12", "Link reduction covers exactly the common files, and no more",
     "Given the new unchanged paths, all the previous paths and the changed paths, the reduced list of links covers each unchanged path exactly once (by itself or through one parent directory), exposes no previous path that is not an unchanged one, never contains or hides a changed path, and uses a directory link wherever a whole directory qualifies. Identical listings reduce to the top-level directories.",
     ["inputs"],
     "all path sets with unchanged a subset of previous and disjoint from changed",
     "Two hand-written examples exist; the guarantee quantifies over all path trees.",
     ["cdtb/export.py"],
     [("tree reduction", "cdtb/export.py reduce_common_paths, reduce_common_trees")],
     ["reduce_common_paths"],
     technique="property-based testing against a set-based reference plus small-scope enumeration",
     note="Reference uses sets of prefixes, not trees; small path universes are enumerated exhaustively.")

prop("C13", "An incremental export shows exactly what a full export shows",
     "After a patch is exported against a previous exported patch with links, reading the output tree (following links) shows the same files with the same contents as a full export of that patch alone, over any chain of patches, including re-exporting into an existing output directory, and repeating an export changes nothing. Exporting a patch never changes what is visible in the previous patches' directories. Without links, the output has exactly the changed files.",
     ["histories", "inputs", "configurations"],
     "any sequence of patches over any evolving sets of plain files and archives (added, removed, changed, renamed, moved, switched between file and directory position), any order of export, re-export, link and lazy options",
     "Existing tests replace the exporter by a mock; the guarantee is over histories of exports on a real file tree.",
     ["cdtb/export.py"],
     [("common file filtering", "cdtb/export.py Exporter.filter_exporter"), ("link creation", "cdtb/export.py CdragonRawPatchExporter._create_symlinks"), ("orchestration", "cdtb/export.py CdragonRawPatchExporter.process")],
     ["output tree as seen through links", "cdragon/files.*.txt"],
     technique="stateful property-based testing: incremental versus full export differential over histories",
     note="Generated patches use a fake storage feeding real WAD files; game data transforms are outside its patch versions (C27/C28 cover them).")

prop("C14", "Output cleaning removes exactly what is no longer exported",
     "Cleaning an output directory removes every file and link that is not to be kept, keeps every kept file, every kept link and everything below a kept directory, and removes the directories it emptied. It never follows links: nothing outside of the output directory is changed or removed. Listing an output directory reports every file and link below it exactly once, with forward slashes, without entering links or skipped directories.",
     ["inputs", "histories"],
     "any directory tree with files, nested directories, links to files, to directories and dangling, any set of kept files, directories and links",
     "No existing test; a wrong deletion shows only for particular tree and keep-set shapes.",
     ["cdtb/export.py"],
     [("clean-up", "cdtb/export.py Exporter.clean_output_dir"), ("walk", "cdtb/export.py Exporter.walk_output_dir")],
     ["directory tree after cleaning"],
     technique="property-based testing on generated directory trees against a reference model",
     note="Runs as an unprivileged user inside a scratch directory with sentinel files outside of the output directory.")

prop("C15", "Each patch file is exported, under the right path, or left out by rule",
     "A full patch export publishes exactly the files the export rules keep: no executables or libraries and no plain description.json; from client archives everything; from game archives only images, skins, data, text, JSON and fonts (data files with `_skins_` excepted), under `game/`, in a language subdirectory for language archives since patch 14.4; unknown files under `unknown` in the directory of the plugin of their archive, in the root for other client archives, and in the directory of its game files for game archives. The published list of exported files is sorted and equals the set of published paths after conversion, and the published list of unknown hashes is sorted and equals the set of unresolved hashes.",
     ["inputs", "configurations"],
     "any set of plain files and archives with any names and languages, any patch version, any hash list",
     "Existing tests mock the exporter away.",
     ["cdtb/export.py"],
     [("selection and routing", "cdtb/export.py CdragonRawPatchExporter._transform_exported_files"), ("published lists", "cdtb/export.py CdragonRawPatchExporter.process"), ("converted paths", "cdtb/export.py FileConverter.converted_paths")],
     ["output tree", "cdragon/files.exported.txt", "cdragon/files.unknown.txt"],
     technique="property-based testing of whole exports against a reference routing model",
     note="Reference model of the routing rules computed from the generated patch.")

prop("C16", "Hash lists survive load and save unchanged",
     "Saving a hash list and loading it again gives the same hashes and texts, including texts with spaces; the saved file has one line per hash, zero-padded to the list's hash size, sorted by text, and saving again gives the same bytes. Loading is cached until forced, and a missing list is reported as such.",
     ["inputs", "histories"],
     "any mapping from hashes to single-line texts, any sequence of load, forced load, external change, update and save",
     "No existing test reads or writes a hash list.",
     ["cdtb/hashes.py"],
     [("load/save", "cdtb/hashes.py HashFile"), ("default lists", "cdtb/hashes.py default_hashfile")],
     ["HashFile.load", "HashFile.save", "file content"],
     technique="stateful property-based testing against a dictionary model",
     note="Texts are single-line printable strings, as every producer in the code base writes.")

prop("C17", "Guessing never records a wrong hash",
     "Whatever sequence of guessing methods is run on whatever archives and hash lists, every hash recorded as known is the hash of its recorded path and was unknown before; no previously known path is changed or lost; the known and unknown sets stay disjoint and together constant (a collection of hashes given by the caller is left as it was); each discovery is reported once, and saving stores exactly the old and new entries. Guessing completes without error on any known paths and any archive content.",
     ["inputs", "histories"],
     "any known list, any unknown set (including hashes of derivable paths), any archive content (valid, malformed, redirected, subchunked), any sequence of guessing methods",
     "No existing test runs a guesser.",
     ["cdtb/hashes.py", "cdtb/__main__.py"],
     [("recording", "cdtb/hashes.py HashGuesser.check, check_iter, is_known"), ("content search", "cdtb/hashes.py grep_wad, grep_file, wad_text_files")],
     ["HashGuesser.known / unknown", "printed discoveries", "saved hash list"],
     technique="stateful property-based testing: random sequences of guessing methods with invariants",
     note="Targets are planted among derivable paths, so discoveries really happen; cost-bounded by small lists.")

prop("C18", "Each substitution method finds every path it promises",
     "Running a substitution method discovers every unknown path that differs from a known path in the way the method describes: another number, word or added word, extension, directory for the same basename, region and language, plugin, character name, skin number, suffix, language, prefix. Character lists, word lists and directory lists contain exactly the items present in the known paths.",
     ["inputs"],
     "any known list and any target derived from it by the described substitution, within the described ranges",
     "No existing test; completeness quantifies over all path shapes.",
     ["cdtb/hashes.py"],
     [("substitutions", "cdtb/hashes.py HashGuesser, LcuHashGuesser, GameHashGuesser substitute_* / add_* / check_* methods")],
     ["discovered paths"],
     technique="metamorphic property-based testing: derive a target, expect it to be discovered",
     note="Targets are derived by an independent description of each substitution.")

prop("C19", "Paths written in archived files are discovered",
     "When the unknown path of an archived file is written in another archived file in one of the forms the client uses - length-prefixed in data files, quoted or prefixed references in client text and JSON files, preload and shader include references, known file families derived from a JSON description - searching the archive discovers it, whatever surrounds the reference and however the containing file is stored.",
     ["inputs"],
     "all embeddings of a path in arbitrary surrounding content, for each reference form, all storage kinds",
     "No existing test searches an archive.",
     ["cdtb/hashes.py"],
     [("game search", "cdtb/hashes.py GameHashGuesser.grep_wad, HashGuesser grep_file"), ("client search", "cdtb/hashes.py LcuHashGuesser.grep_wad")],
     ["discovered paths"],
     technique="metamorphic property-based testing: embed a path, expect it to be discovered",
     note="Each reference form is generated from its description in the code comments.")

prop("C20", "Version order is total and agrees with equality",
     "Versions compare like their number sequences: exactly one of less, equal, greater holds for any two versions of a kind, the order is transitive, sorting is by number not by text, and equal versions have equal hash codes. A version equals its own text and its own tuple; parsing the text of a version gives back an equal one; patch versions keep only their two first numbers, and their integer form is ordered the same way with the special `main` version last and equal only to itself.",
     ["inputs"],
     "all versions of each kind, from text and from tuples, pairwise and in triples",
     "A dozen fixed comparisons are tested; the laws quantify over all pairs and triples.",
     ["cdtb/storage.py", "cdtb/rads.py"],
     [("comparison", "cdtb/storage.py BaseVersion, PatchVersion"), ("RADS versions and entities order", "cdtb/rads.py RadsVersion, RadsSolutionVersion, RadsProjectVersion")],
     ["comparison operators", "hash", "as_int"],
     technique="property-based testing of algebraic laws against integer tuples",
     note="Version texts are canonical decimal numbers, as in every source of versions.")

prop("C21", "Patches are listed latest first, each once, with their latest elements",
     "Listing the patches of a storage gives each patch version once, latest first, made of the latest release of each of its elements; looking up a patch or element by version, by component text (`patch=`, `game=`, `client=`, with a version, a trailing dot or nothing) or as latest returns exactly the corresponding entry of that listing, and nothing when there is none - including for an empty storage, and for the releases stored by a patcher storage, whose client and game may be updated separately. Components that do not follow the format are refused. The `files` and `download` commands work on exactly the elements of the component, with exactly the selected languages.",
     ["inputs", "histories"],
     "any non-increasing sequence of releases of game and client elements, any component text, any language selection",
     "Tests list at most one fixed sequence.",
     ["cdtb/storage.py"],
     [("grouping", "cdtb/storage.py Storage.patches, Storage.patch, Storage.patch_element"), ("component syntax", "cdtb/storage.py parse_storage_component")],
     ["Storage.patches", "Storage.patch", "parse_storage_component"],
     technique="property-based testing against a list model over generated release sequences",
     note="Release sequences are monotone per element, as the code documents.")

prop("C22", "RADS releases list and extract exactly their files",
     "For every RADS release, parsing its manifests gives exactly the listed projects per language and package files, language selection returns exactly the projects of the selected languages, solutions are merged into one patch sequence from the latest, and extraction writes each file of the release with exactly its bytes from its package - decompressed when stored compressed - for any way the download stream is cut into blocks, without rewriting files already extracted.",
     ["inputs", "configurations", "histories"],
     "any solution and package manifests, any file layout in packages, any block boundaries of the download stream, any subset of already extracted files, any language selection given as names, single or list",
     "Tests parse one small manifest; extraction and streaming are untested.",
     ["cdtb/rads.py", "cdtb/storage.py"],
     [("stream reader", "cdtb/storage.py RequestStreamReader"), ("extraction", "cdtb/rads.py RadsProjectVersion.extract"), ("manifests", "cdtb/rads.py RadsSolutionVersion.dependencies, BinPackageFile"), ("merging", "cdtb/rads.py RadsStorage.patch_elements")],
     ["files in storage", "RadsSolutionVersion.projects", "patch_elements order"],
     technique="property-based testing with an in-memory CDN and adversarial stream chunking",
     note="CDN is simulated at the HTTP session; layouts have non-overlapping packages as the format guarantees.")

prop("C23", "Release manifests decode to exactly the described files",
     "For every well-formed release manifest, parsing it (from a path or an open file) gives exactly the described bundles, chunks with their offsets, languages and files with full path, size, link target, languages and chunk sequence. Filtering by language keeps all files, the language-independent ones, or the files tagged with one of the requested languages (given as one name or a list, in any case), and nothing else; files with the same chunks, and only those, share a content digest.",
     ["inputs", "configurations"],
     "any directory nesting, flags, chunk sharing between files and bundles, table layout variation (missing trailing or absent fields), any language selection",
     "No existing test parses a manifest.",
     ["cdtb/patcher.py"],
     [("table parser", "cdtb/patcher.py PatcherManifest"), ("language filter", "cdtb/patcher.py PatcherFile.langs_predicate"), ("digest", "cdtb/patcher.py PatcherFile.hexdigest")],
     ["PatcherManifest.files/bundles/chunks/flags", "filter_files"],
     technique="property-based round trip with an independent manifest writer",
     note="Independent flatbuffer-like writer with layout variations.")

prop("C24", "Downloaded patch files are complete, exact and fetched only once",
     "After downloading a release element, every file of the selected languages exists in the storage with exactly the content given by its chunks, and listing the element's files gives exactly those files with their lowercased relative paths. Only bundles needed by selected files that are not yet extracted are downloaded, never twice; a download interrupted by an error at any point, or a file left incomplete, is completed by running it again, and overwriting restores any file whose content was changed; links versus copies make no visible difference, nor does moving the storage.",
     ["histories", "fault_sequences", "configurations"],
     "any manifests and bundles, language selections, sequences of downloads of several releases sharing files, injected request or write failures at any point, truncated or missing extracted files, both link modes",
     "No existing test downloads or extracts anything from the patcher storage.",
     ["cdtb/patcher.py", "cdtb/storage.py", "cdtb/tools.py"],
     [("extraction and sharing", "cdtb/patcher.py PatcherStorage.extract_file, PatcherReleaseElement.extract"), ("download selection", "cdtb/patcher.py PatcherReleaseElement.bundle_ids, download_bundles"), ("idempotent download", "cdtb/storage.py Storage.download")],
     ["storage tree", "requests made"],
     technique="stateful property-based testing with simulated CDN and fault injection",
     note="CDN simulated at the HTTP session; faults are exceptions and truncated files, not power loss.")

prop("C25", "Release tracking records every new release once, latest first",
     "Checking for updates adds one release exactly when the published game or client release differs from the latest recorded one, never alters or loses recorded releases, and lists them latest first with the elements they have; foreign files in the release directory are ignored. An update that fails, at a request or at a write, reports it, damages nothing, and leaves the next update to record the release. The patch version of an element is the one written in its files, is remembered, and is always `main` on PBE; release URLs are mapped to the same local manifest whatever the host variant, and unexpected ones are refused.",
     ["histories", "configurations", "fault_sequences"],
     "any history of published releases and update checks with an advancing clock, any patchline, any configuration source, any extra files, any failing request or write during an update",
     "No existing test covers the patcher storage.",
     ["cdtb/patcher.py", "cdtb/storage.py"],
     [("update", "cdtb/patcher.py PatcherStorage.fetch_latest_update"), ("listing", "cdtb/patcher.py PatcherStorage.iter_releases, PatcherRelease.elements"), ("version retrieval", "cdtb/patcher.py PatcherReleaseElement.patch_version, cdtb/storage.py get_*_version")],
     ["PatcherStorage.iter_releases / patch_elements", "storage tree"],
     technique="stateful property-based testing against a history model with a controlled clock",
     note="The clock is controlled and strictly increasing between updates.")

prop("C26", "A failed write leaves nothing behind",
     "Whenever writing a file fails at any point and for any reason, including interruption, the error is reported and the file does not exist afterwards; when writing a directory fails, neither the directory nor its content does; in both cases nothing else is touched. A successful write leaves exactly the written content, creating missing parent directories. A failed download leaves no file, so the next attempt downloads it again, and an already downloaded file is not requested again unless forced.",
     ["fault_sequences", "crash_points", "inputs"],
     "any content, any pre-existing state of the target, failure injected before, between and after any write, of any exception kind; sequences of downloads with failures",
     "No existing test injects a failure.",
     ["cdtb/tools.py", "cdtb/storage.py"],
     [("guarded writing", "cdtb/tools.py write_file_or_remove, write_dir_or_remove"), ("download", "cdtb/storage.py Storage.download")],
     ["file system after a failure"],
     technique="fault-injecting property-based testing at every write step",
     note="Failures are exceptions (errors and interruptions) in the writing process; power loss and kill -9 are out of scope, as the code makes no claim there.")

prop("C27", "TFT data is exported faithfully for every language",
     "For any TFT game data and string tables, each language's exported file has the sets, champions, traits and items described by the data - names, costs, statistics, effects, compositions and cross references resolved - with every translatable text replaced by that language's text when it has one and left as its key otherwise. Languages do not influence each other, and only requested languages are written.",
     ["inputs", "configurations"],
     "any collection of sets, traits, champions, items and cross references in any supported data layout and game version, any set of languages and partial translations",
     "No existing test runs the transformer.",
     ["cdtb/tftdata.py", "cdtb/tools.py"],
     [("template building", "cdtb/tftdata.py TftTransformer"), ("translation", "cdtb/tftdata.py TftTransformer.export, load_translations")],
     ["exported JSON files"],
     technique="property-based differential testing against a reference model built from the generating description",
     note="Data files are produced by the independent BIN and string-table writers.")

prop("C28", "Arena data is exported faithfully for every language",
     "For any Arena game data and string tables, each language's exported file lists exactly the enabled augments with their identifiers, rarity, icons, data values and calculations as described by the data, with every translatable text replaced by that language's text when it has one and left as its key otherwise, also when run as part of a patch export for any supported patch version. Languages do not influence each other, and only requested languages are written.",
     ["inputs", "configurations"],
     "any set of augments and spells, any set of languages and partial translations, any supported game version",
     "No existing test runs the transformer.",
     ["cdtb/arenadata.py", "cdtb/export.py", "cdtb/tools.py"],
     [("augment parsing", "cdtb/arenadata.py ArenaTransformer.parse_augments"), ("translation", "cdtb/arenadata.py ArenaTransformer.export"), ("export step", "cdtb/export.py CdragonRawPatchExporter.export_arena_data")],
     ["exported JSON files"],
     technique="property-based differential testing against a reference model built from the generating description",
     note="Data files are produced by the independent BIN and string-table writers.")

prop("C29", "Storage settings select the described storage",
     "A storage given as a configuration file, a directory containing one, a recognisable storage directory, a `type:path` text or a plain path always gives a storage of the described type, at the described path (relative to the configuration file when relative), with the described options; a patchline option applies to patcher storages only, and unknown types, ambiguous options and unrecognisable directories are refused. Hash lists are looked up in the first configured directory in the documented order.",
     ["configurations", "inputs"],
     "all combinations of configuration files, directories, options and environment variables",
     "No existing test covers configuration.",
     ["cdtb/storage.py", "cdtb/__main__.py", "cdtb/rads.py", "cdtb/patcher.py", "cdtb/hashes.py"],
     [("configuration", "cdtb/storage.py load_storage_conf, storage_conf_from_path, Storage.from_conf"), ("options", "cdtb/__main__.py parse_storage_args"), ("hash directory", "cdtb/hashes.py _default_hash_dir")],
     ["Storage.from_path", "command-line --storage/--patchline", "default_hash_dir"],
     technique="property-based testing over generated configurations against a decision-table model",
     note="Environment and file system state are generated per case.")

prop("C30", "The export command picks the right patch and predecessor",
     "Exporting a patch from the command line uses the requested (or latest) patch and, unless overridden, the next older stored patch as the previous one, in an output directory named after the patch. Updating all exported patches handles exactly the patches that have a directory in the output, from the requested first one on, oldest first, each against the next older one of these. A patch that does not exist or has no predecessor, and inconsistent options, are reported as usage errors.",
     ["inputs", "configurations"],
     "any stored patch sequence, any output directory content, all option combinations",
     "Three fixed command lines are tested, on one sequence.",
     ["cdtb/__main__.py", "cdtb/export.py"],
     [("command", "cdtb/__main__.py command_export"), ("batch", "cdtb/export.py CdragonRawPatchExporter.from_directory")],
     ["exports performed", "exit status"],
     technique="property-based testing of command lines against a selection model",
     note="The exporter itself is replaced by a recorder; its behaviour is covered by C13/C15.")

prop("C31", "String tables are found in the newest layout, one per language",
     "Searching extracted files for the string tables of a game finds, for the newest of the known layouts that is present, exactly one table per available language, and reports when there is none. Old text tables and binary tables load to the same key-text mapping as written in them.",
     ["inputs", "configurations"],
     "any combination of layouts, languages and unrelated files present in the directory",
     "No existing test.",
     ["cdtb/tools.py", "cdtb/tftdata.py"],
     [("layout search", "cdtb/tools.py stringtable_paths"), ("translation loading", "cdtb/tftdata.py load_translations")],
     ["stringtable_paths", "load_translations"],
     technique="property-based testing on generated directories against a layout model",
     note="Layouts restated from the format history in the code.")

prop("C32", "Hash list refresh fetches only what is newer and never loses a list",
     "Refreshing hash lists downloads a list exactly when it is missing locally or older than the published one, and then stores exactly the published content; an up-to-date list is neither downloaded nor modified. When the server fails, or the transfer is interrupted before writing, the local list is unchanged and the failure is reported.",
     ["histories", "fault_sequences"],
     "any sequence of publications, refreshes and server failures, any time relations",
     "No existing test.",
     ["cdtb/hashes.py", "cdtb/__main__.py"],
     [("conditional update", "cdtb/hashes.py update_default_hashfile"), ("command", "cdtb/__main__.py command_fetch_hashes")],
     ["hash list files", "requests made"],
     technique="stateful property-based testing with a simulated server",
     note="Server simulated at the HTTP functions; modification times are set explicitly.")

prop("C33", "The guess command runs exactly the requested methods on the requested archives",
     "`hashes-guess` searches the unknown hashes of exactly the given archives and of the archives of the given components (the latest release of each element), with exactly the requested methods - all but `basenames` and `words` by default - each applied to the client archives or to the game archives, or to both, as it is made for: every path one of these methods finds alone is found, and none that they cannot find together. The known lists are updated with all the discoveries (or left as they are with a dry run), and their number is reported. `--list-methods` lists exactly the accepted methods; an unknown method or no archive at all is a usage error which changes nothing.",
     ["inputs", "configurations"],
     "any selection of methods, any archives given by path or component, any lists of known paths, planted paths that are found by some methods and not by others",
     "No existing test runs this command.",
     ["cdtb/__main__.py", "cdtb/hashes.py"],
     [("command", "cdtb/__main__.py command_hashes_guess"), ("archive selection", "cdtb/hashes.py LcuHashGuesser.from_wads, GameHashGuesser.from_wads")],
     ["saved hash lists", "standard output", "exit status"],
     note="The least and the most that are to be found come from single runs and from repeated runs of the same library methods (differential), and from the models of C18.")

prop("C34", "RADS projects, solutions and releases are identified and ordered consistently",
     "RADS projects and solutions are equal exactly when they have the same kind and name, and their releases when they also have the same version; equal ones have equal hashes and texts. Within one kind they are totally ordered, by name, then latest release first - versions as numbers. A component text (`name`, `name=`, `name=version`, with `p:` or `s:` before, or `patch=`) gives exactly the object it denotes, the latest release when the version is left empty, and is refused when it does not follow the format. Listing what is in storage gives exactly the projects, solutions and releases whose directories are there, latest release first, without any request; downloading a project or a solution downloads each of its releases, for the given languages.",
     ["inputs", "configurations"],
     "any names and four-part versions, any component text, any storage tree, any order of the release listings of solutions",
     "Tests compare a few fixed names and versions, and parse no component.",
     ["cdtb/rads.py"],
     [("identity and order", "cdtb/rads.py RadsSolution, RadsSolutionVersion, RadsProject, RadsProjectVersion"), ("components", "cdtb/rads.py parse_rads_component"), ("storage listing", "cdtb/rads.py RadsStorage.list_projects, list_solutions, RadsSolution.versions")],
     ["comparison results", "parse_rads_component", "RadsStorage listings"])

prop("C35", "Interrupts show progress and lose nothing; two in a row stop",
     "While a guessing method runs on a terminal, an interrupt only makes the progress be shown once, before the next step: every step is still done, in order, and the result is that of an uninterrupted run. Two interrupts less than half a second apart stop it with KeyboardInterrupt, leaving only right entries recorded. The previous interrupt handler is restored in all cases - completion, early exit, error or interruption - and is not replaced at all when the error output is not a terminal.",
     ["schedules", "inputs"],
     "any interrupt at any executed line, any spacing of interrupts, any sequence, any early exit, any guessing method",
     "No existing test sends a signal.",
     ["cdtb/hashes.py"],
     [("progress", "cdtb/hashes.py progress_iterate, progress_iterator"), ("signal handler", "cdtb/hashes.py sigint_callback")],
     ["elements iterated over", "standard output", "signal.getsignal(SIGINT)", "HashGuesser.known / unknown"],
     note="Signals are raised at chosen lines (sys.monitoring) under a fake clock, so schedules are reproducible.")

prop("C36", "A wrong command line is refused and changes nothing",
     "A command line with an unknown command or option, a missing or extra argument, an input file that is not there, an output directory that is a file, a component or patch that is malformed or not found, an unknown method, a patchline for a storage that has none, or contradictory export options exits with status 2 and a usage error telling the refused value, prints nothing on the standard output, and creates, changes, requests and downloads nothing - including for the valid components given next to a wrong one.",
     ["inputs", "configurations"],
     "any combination of commands, options, files and directories in place, and patches listed or stored",
     "Existing tests run a handful of valid commands.",
     ["cdtb/__main__.py"],
     [("argument checks", "cdtb/__main__.py command_*, parse_component_arg, parse_storage_args"), ("parser", "cdtb/__main__.py create_parser")],
     ["exit status", "standard error", "file tree", "requests"])

prop("C37", "Results depend on the inputs alone",
     "What the commands print and write is a function of their arguments and of the files they are given: run with another hash randomization, time zone, working directory, spelling of the same paths (relative or absolute), order of directory listings, terminal width, verbosity of the messages, or in a process that has run other commands before, `export`, `wad-extract`, `wad-list`, `bin-dump`, `skn-extract`, `files`, `versions` and `hashes-guess` write byte-identical files and links, print the same output and end with the same status.",
     ["configurations", "histories"],
     "any storage of two or three patches (RMAN, RADS), archives, object files, meshes and hash lists; two environments differing in all these respects",
     "Tests run in one process, in one environment.",
     ["cdtb/__main__.py", "cdtb/export.py", "cdtb/wad.py", "cdtb/hashes.py", "cdtb/patcher.py", "cdtb/storage.py"],
     [("export lists and links", "cdtb/export.py Exporter, CdragonRawPatchExporter"), ("release listing", "cdtb/patcher.py PatcherStorage.iter_releases"), ("commands", "cdtb/__main__.py")],
     ["standard output", "written files and links", "exit status"],
     technique="metamorphic property-based testing: the same generated commands run by separate processes in two different environments")

prop("C38", "Hash lists are those of the directory given by the environment",
     "The hash lists read by `wad-list`, `bin-dump`, string table conversion and `hashes-guess`, updated by `hashes-guess` and fetched by `fetch-hashes`, are those of one directory: `CDTB_HASHES_DIR`; else `hashes/lol` in `CDRAGON_DATA`; else `cdragon/data/hashes/lol` in `XDG_DATA_HOME` (ignored if relative), else in `LOCALAPPDATA`, else in `~/.local/share` - an empty variable counts as unset. Each kind of hash is named from its own list only: game archives, client archives, entries, types, fields, values and paths of object files, string table keys before and from version 14.15. A list given on the command line is used instead. A missing list is an error, never replaced by one of another directory; no list elsewhere is changed.",
     ["configurations", "inputs"],
     "any combination of set, unset, empty, relative and absolute variables, lists in all or some of the directories, any missing lists, hashes known to every list under a different name",
     "No existing test sets these variables.",
     ["cdtb/hashes.py", "cdtb/binfile.py", "cdtb/rstfile.py", "cdtb/__main__.py"],
     [("directory", "cdtb/hashes.py _default_hash_dir"), ("lists", "cdtb/hashes.py default_hashfile, hashfile_*; cdtb/binfile.py hashfile_*; cdtb/rstfile.py get_hashfile"), ("command options", "cdtb/__main__.py -H")],
     ["standard output", "converted string tables", "hash list files"],
     technique="property-based testing of fresh processes with generated environments against a lookup model")

prop("C39", "Text is UTF-8, whatever the platform's default encoding",
     "Text is read and written as UTF-8 independently of the default encoding of the platform: hash lists, the lists written by an export (`files.exported.txt`, `files.links.txt`, `files.unknown.txt`), converted object files, meshes, string tables and other texts, storage configurations, client configurations, release files, package manifests, version files and the text files searched for hashes. The same operations run with any default encoding give the same results and byte-identical files, and names and texts with any characters survive them.",
     ["configurations", "inputs"],
     "any default encoding (ASCII, one-byte, multi-byte, UTF-16), names and texts with any characters, ASCII or not",
     "Tests run with the default encoding of one platform, on ASCII names.",
     ["cdtb/hashes.py", "cdtb/export.py", "cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py", "cdtb/tools.py"],
     [("hash lists", "cdtb/hashes.py HashFile.load, HashFile.save"), ("export lists", "cdtb/export.py CdragonRawPatchExporter.process"), ("configurations and version files", "cdtb/storage.py load_storage_config, get_system_yaml_version; cdtb/patcher.py; cdtb/rads.py"), ("text output", "cdtb/tools.py write_file_or_remove")],
     ["written files", "loaded lists", "results of the library calls"],
     technique="metamorphic property-based testing: the same generated operations under two default encodings, and round trips")

prop("C40", "A run that failed or was interrupted is completed by the next one",
     "When a command fails (disk full while opening, writing or closing a file, a change of the file system refused, a request refused, answered by an error or cut) or is interrupted by the user, at any point, the failure is reported - by an error or a non-zero status - unless the results are complete all the same; and running the same command again, once the cause is gone, ends with the same output, files and links as if nothing had happened, for `versions`, `files`, `download`, `export` (full, against a previous patch, with links, lazy), `wad-extract` (lazy or not), `skn-extract`, `fetch-hashes` and `hashes-guess`. In particular no partial file is later taken for a complete one, no patch is forgotten and no known hash is lost.",
     ["crash points", "histories"],
     "two successive generated patches served by simulated servers and local archives, meshes and hash lists; one to four failures or interruptions at any write, change of the file system, request or executed line, several of them possibly in successive runs of the same command",
     "Existing tests make no operation fail.",
     ["cdtb/tools.py", "cdtb/patcher.py", "cdtb/storage.py", "cdtb/export.py", "cdtb/wad.py", "cdtb/hashes.py", "cdtb/__main__.py"],
     [("partial files", "cdtb/tools.py write_file_or_remove, write_dir_or_remove"), ("downloads and extraction", "cdtb/storage.py Storage.download; cdtb/patcher.py PatcherStorage.extract_file, PatcherReleaseElement.is_extracted_file, patch_version"), ("conversions", "cdtb/export.py FileConverter subclasses, Exporter.export"), ("hash lists", "cdtb/hashes.py HashFile.save, update_default_hashfile")],
     ["exit status and errors", "standard output", "file tree"],
     technique="fault injection at generated points of generated command histories, compared with the uninterrupted history")
