"""Hand-written parts of DESIGN.md (assembled by tools/design.py)."""

HEAD = """
# Deciding CDTB's properties by property-based testing

CDTB reads Riot's archives (WAD), object files (BIN), string tables (RST), meshes, textures, release manifests
(RADS and patcher), exports patches incrementally with symbolic links, and maintains the lists of known hashes.
Its test suite covers version operators, RADS listings, a few path helpers and the command line of `export`; nothing opens
a real archive.  `properties.jsonl` states what its users rely on; this file says how each property is decided.

## How a check works

`python3 run.py Cnn` (parent, root) creates a scratch directory in /dev/shm and starts `vp/worker.py` with
`/opt/venv/bin/python` as an unprivileged user (uid 61234) inside it, with resource limits and a minimal environment. Only
the worker imports `cdtb`, from /repo's working tree (`VP_REPO` points to another tree when planting bugs), without reading or
writing byte code.  Whatever the code under test does to files - and planted bugs do delete what they should not - stays
in the scratch directory, which the parent removes.  Nothing reaches the network: the HTTP layer is replaced by
`vp/cdn.py`, an in-memory CDN at the level of `requests`' transport adapter, with fault injection.

Each check has one or more *sub-checks*: a Hypothesis strategy that draws a plain-data description of a case (a literal:
the replay file is that literal), and a function which builds the files from the description with an *independent writer*
(`vp/*gen.py` - written for the checks, they import nothing from cdtb), runs the real code on them and compares the result
with what the description says (`vp/ref.py`, reference models), with another run of the code (differential and metamorphic
relations), or with an invariant.  Hypothesis runs with a seed derived from `VERIF_SEED`, in several processes (shards);
a failure is shrunk and saved as `replays/<id>-<sub>-<hash>.json`; `python3 run.py --replay FILE` runs it again without the
generator.  Small universes are enumerated (sub-checks marked so) in addition to being sampled.

Results: exit 0 and a summary; exit 1 and `VIOLATION property=<id> replay=<path>`; exit 2 when the check itself failed
(worker killed, generator error, too many skipped cases): never mistaken for a violation.  An unexpected exception from the
code under test on an input of the domain is a violation; an exception in the check's own code is a check error.
`evidence/<id>.json` reports, per sub-check, how many cases ran, how many distinct non-trivial ones by the stated rule, the
labels of what happened in them (storage kinds, outcomes, ...), and samples.

The checks use the public surface: classes, functions and commands that the README, the command line or other modules use;
they avoid private helpers, exact log or error texts and exception types unless the property names them.  So moving code
around does not alarm them; planted behaviour-preserving edits were tried (comments, no-op statements, renamed locals,
extracted helpers, rewritten loops).

What this technique does not give: a proof.  Every `held` is about the explored cases.  Thorough commands run 20 to 40 times
more cases and deeper ones, same oracles.

No hooks were needed in /repo.
"""

DETAIL = {
    'C01': {'how': 'Archives of every version (1.x–3.4) are built byte by byte by `vp/wadgen.py` from a list of contents, with every storage kind (raw, gzip, link, zstd in one or several frames, subchunked with raw and compressed chunks), table positions, entry orders and junk between entries. The oracle is the list of contents the archive was built from.', 'limits': 'fields that the reader ignores (signatures, checksums of the table) are random but never wrong in a way a stricter reader might refuse'},
    'C02': {'how': 'The real `wad-extract`/`wad-list` commands run on generated archives and hash lists, into fresh or half-filled directories; the expected tree is computed from the contents and the naming rules written independently in `vp/ref.py` (`file_name_of`).'},
    'C03': {'how': 'Damage is applied to known byte ranges of the archive after it was built, so the model knows which entries are hit; a damage that leaves the bytes equal, or that is not covered by the subchunk hashes, is classified before the code runs.', 'limits': 'what is read for entries without a subchunk table and damaged data is out of scope'},
    'C04': {'how': 'Totality is fuzzed with random and signature-prefixed data; the table of signatures is an independent transcription, checked first on each signature alone, then on prefixes, extensions and near misses of signatures.', 'limits': 'the extension cache is per entry hash: one archive never gives two contents to the same hash'},
    'C05': {'how': '`vp/bingen.py` generates object trees over all value types of all three type tables, encodes them, and compares the decoded tree and its JSON with the tree itself.', 'limits': 'floats are compared by bits'},
    'C06': {'how': 'A dictionary keyed by hash is the model; names are looked up by text, by hash and in other letter cases.'},
    'C07': {'how': 'Tables of all four versions with both hash functions are built from key/text pairs with shared and overlapping texts.'},
    'C08': {'how': 'The source structure of the file is the oracle of the JSON; every converter runs on the same generated data through `Exporter.export` and alone.'},
    'C09': {'how': 'Expected vertices and triangles come from the mesh the file was built from; OBJ texts are parsed by an independent parser (`vp/skngen.py`).'},
    'C10': {'how': 'Textures are encoded by `vp/texgen.py` (DXT1/DXT5 blocks and raw pixels, mipmaps in the stored order) and the PNG is compared pixel by pixel with the decoded full-size image.'},
    'C11': {'how': 'Storages are generated with damaged assets among healthy ones; the export must equal, for the others, the export of the same storage without the damaged ones (metamorphic), and damaged ones must leave either nothing or their raw form by rule.', 'limits': 'archives themselves are well-formed but for data of subchunked entries; two sources with the same converted path are excluded'},
    'C12': {'how': 'Reference: set semantics of covered files by brute force over all paths; small-scope enumeration of all trees up to a size, then random larger ones.'},
    'C13': {'how': 'Histories of exports of 2–4 patches over evolving file sets; after each export, the tree seen through links must equal a full export of the same patch into a fresh directory, and earlier patches must be unchanged.', 'limits': 'no directory of an existing output becomes a file on re-export; `nolinks` exports only go to fresh directories or follow the same mode'},
    'C14': {'how': 'Random trees with links in all directions, run as an unprivileged user; the model decides for each path whether it is kept.'},
    'C15': {'how': 'The expected path, and whether a file is left out, comes from an independent decision table over archive name, path, language and patch version.', 'limits': 'no mesh named `*.bin.skn`; no two sources to the same path; unknown files of game archives go to `game/[lang/]unknown/`'},
    'C16': {'how': 'Round trips over generated lists, loading twice, saving in place, all fixed widths.'},
    'C17': {'how': 'Whatever method, data or region list is given, each recorded path is hashed again by an independent call; the recorded hash must be an unknown one, and unknown and known stay disjoint.', 'limits': 'archives well-formed but for data of subchunked entries'},
    'C18': {'how': 'For each method, planted paths are generated by applying its documented substitution to known paths (`vp/guessref.py`); all of them must be found.', 'limits': 'see the restrictions on character names and numbers in the check: they exclude texts where the documented substitution itself is ambiguous'},
    'C19': {'how': 'Paths are written into generated files in each recognised form and must be found; files are both given alone and inside archives.', 'limits': 'quoted names start with a letter or digit; references are delimited'},
    'C20': {'how': 'All triples of generated versions are compared against tuples of integers.', 'limits': 'canonical decimals; `as_int` for seasons ≤ 98 and patches ≤ 99; `main` is only compared for equality'},
    'C21': {'how': 'Stored releases of the two kinds of storage against a merge model over the list of releases.', 'limits': 'releases are ordered consistently overall; both elements of one stored release have one version'},
    'C22': {'how': 'A simulated CDN (`vp/cdn.py`) serves generated solutions, projects, packages, at block granularity and with errors; the model keeps the set of files that must be on disk after each operation. The working directory is sometimes another, similar storage.', 'limits': 'languages are those of the solution; packages do not overlap'},
    'C23': {'how': 'Manifests are encoded by `vp/rmangen.py` with varying field tables and orders; the description is the oracle.', 'limits': 'paths are unique; sizes, names and chunks are present'},
    'C24': {'how': 'Stateful: downloads, extractions, interrupted transfers, damaged or missing files, repeated runs; a model gives the files, the bundles and which requests are allowed.', 'limits': 'link mode is constant per storage; bundles are undamaged; a damage that keeps the size is repaired only with overwrite; link mode itself is not changed by overwriting'},
    'C25': {'how': 'Stateful against a list model, with a simulated clock and server.', 'limits': 'the clock increases; foreign files do not look like releases'},
    'C26': {'how': 'A failure is injected at any write, at any byte, in any writing operation; directory trees are compared before and after.', 'limits': 'the target is not a link'},
    'C27': {'how': "`vp/tftgen.py` generates the TFT data and its model; each language's JSON is compared in full with the model. Half of the cases run with ASCII as default encoding.", 'limits': 'see the assumptions of the check: game data is complete'},
    'C28': {'how': 'As C27 for Arena, alone and as a part of a patch export.'},
    'C29': {'how': 'Decision-table model over configuration files, directories and texts.', 'limits': 'no symbolic links; texts are not empty'},
    'C30': {'how': 'A model of the documented choice of the patch and its predecessor over generated stored and listed releases, through the real command.', 'limits': 'releases are ordered; PBE and live have separate directories; `-L` with `--full` is only required to be refused'},
    'C31': {'how': 'Layouts are generated over each other; the newest one present must be chosen, each language once.', 'limits': 'text tables are UTF-8, without `=` or quotes in keys'},
    'C32': {'how': 'A simulated HTTP server with publication times; the model decides what is fetched.', 'limits': 'whole-second publication times; fractions of local times ≥ 1 ms'},
    'C33': {'how': 'Differential: the least and the most that may be found are computed from single library runs and from repeated runs of the selected methods.'},
    'C34': {'how': 'Comparison and hash laws on generated pairs and triples, a regular-expression-free parser model for component texts, and a directory model for listings.', 'limits': 'any exception counts as a refusal for malformed library calls'},
    'C35': {'how': 'SIGINT is raised at chosen executed lines (`sys.monitoring`) under a fake clock.', 'limits': 'an interruption while the handler itself is being replaced is excluded'},
    'C36': {'how': 'A decision model says for each generated command line whether it is wrong; the file tree, the output and the requests are then compared with what they were.', 'limits': 'files that are given have the right content; storage types are known'},
    'C37': {'how': 'The same generated commands run in two fresh processes with different environments; outputs and trees must be byte-identical.', 'limits': 'the order of printed discoveries is not compared; the locale is varied in C39 only'},
    'C38': {'how': 'Fresh processes with generated environments; the lookup model is the documented order.', 'limits': 'the home directory exists; given data directories exist unless they are fetched to'},
    'C39': {'how': 'All text openings are given another default encoding (`vp/core.py` `default_encoding`), and results and files compared with those of UTF-8; hash lists also round-trip.', 'limits': 'file names are always UTF-8; what is printed follows the terminal'},
    'C40': {'how': 'Each command of a generated history runs once without failures, which records its events (writes, changes of the file system, requests, executed lines of the main thread); in a second directory the same command runs with a failure or a KeyboardInterrupt at a chosen event, one or several times (`vp/faults.py`), then once without. Output, files and links must be those of the first directory; a run that reports success must have the complete results.', 'limits': 'failures that the process can handle: no kill, no power loss; interruptions are between two executed lines of the main thread or inside a change of the file system, and not while another failure is being handled; empty directories and `latest.timestamp` (unused) are not compared'},
}

TAIL = """
## Planted bugs

`tools/plant.py` builds `seeded/<id>/` from a batch description, confirms each bug in a scratch copy of /repo (applies,
compiles, the 30 tests pass, the demonstration passes without and fails with the patch, the changed lines belong to the
original repository) and runs the property's check on the copy (`VP_REPO`).  The lists above name which bug is caught by
its property's check (last `plant.py --check` run).  Each miss led to a stronger generator or oracle.

## Finding what the checks do not see

Two tools look for blind spots without anyone writing a bug: `tools/coverage.py` lists the lines of `cdtb/` no check runs,
and `tools/mutate.py` makes one small syntactic change at a time (comparison, constant, operator, removed statement, negated
condition, ...) in a scratch copy, keeps the mutants the test suite accepts, and runs the checks which reach the changed
line until one reports it.  Survivors are read by hand: they are either equivalent (no behaviour a property speaks about
changes: logging, caching, progress output) or a reason to extend a generator or an oracle.
"""
