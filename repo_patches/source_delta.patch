From d54c07a46ff15eaf38f319648d4dd3d43a10d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 01/56] fix: treat invalid subchunk tables as malformed
 subchunk data

A truncated table, or sizes that don't match the subchunk data, raised
unexpected errors (or returned still compressed data) instead of being
handled like any other subchunk mismatch.
---
 cdtb/wad.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 4c49e78..85d8b26 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -109,7 +109,10 @@ class WadFileHeader:
                 chunks_data = []
                 offset = 0
                 for index in range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count):
-                    compressed_size, uncompressed_size, subchunk_hash = struct.unpack('<IIQ', subchunk_toc[16*index:16*(index+1)])
+                    toc_entry = subchunk_toc[16*index:16*(index+1)]
+                    if len(toc_entry) != 16:
+                        raise MalformedSubchunkError(data)
+                    compressed_size, uncompressed_size, subchunk_hash = struct.unpack('<IIQ', toc_entry)
                     # ensure wad data matches with the subchunktoc data
                     subchunk_data = data[offset:offset+compressed_size]
                     if len(data) < offset + compressed_size or xxh3_64_intdigest(subchunk_data) != subchunk_hash:
@@ -118,9 +121,15 @@ class WadFileHeader:
                         # assume data is uncompressed
                         chunks_data.append(subchunk_data)
                     else:
-                        chunks_data.append(zstd_decompress(subchunk_data))
+                        try:
+                            chunks_data.append(zstd_decompress(subchunk_data))
+                        except Exception:
+                            raise MalformedSubchunkError(data)
                     offset += compressed_size
-                return b"".join(chunks_data)
+                uncompressed_data = b"".join(chunks_data)
+                if len(uncompressed_data) != self.size:
+                    raise MalformedSubchunkError(data)
+                return uncompressed_data
             else:
                 # No subchunk TOC, try to decompress
                 try:
-- 
2.43.0


From 075fb069e266acc79ea81287c83e7f7157971ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 02/56] fix: don't fail on unusual JSON when guessing
 extensions

json.loads() also raises a plain ValueError for very large integers, and
RecursionError for deeply nested data.
---
 cdtb/wad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/wad.py b/cdtb/wad.py
index 85d8b26..728ea3e 100644
--- a/cdtb/wad.py
+++ b/cdtb/wad.py
@@ -179,7 +179,8 @@ class WadFileHeader:
         try:
             json.loads(data)
             return 'json'
-        except (json.JSONDecodeError, UnicodeDecodeError):
+        except (ValueError, RecursionError):
+            # besides decode errors: too large integers, too many nested values
             pass
 
         # Unknown
-- 
2.43.0


From d5e4ebcc59960ac9fbd22752170c36c6290c4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 03/56] fix: remove stray slash in OBJ faces

The second vertex of each face had a trailing slash, which is not valid OBJ.
---
 cdtb/sknfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 18b9f4f..793f6c1 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -80,6 +80,6 @@ class SknFile:
 
         for i in range(0, len(entry["indices"]), 3):
             a, b, c = entry["indices"][i : i + 3]
-            content += "f {0}/{0}/{0} {1}/{1}/{1}/ {2}/{2}/{2}\n".format(a, b, c)
+            content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\n".format(a, b, c)
 
         return content
-- 
2.43.0


From eb71647078d03f18bd232b51fe9f57c49cc4c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 04/56] fix: report malformed assets as conversion errors

---
 cdtb/export.py | 59 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index e8422f0..aff5664 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -618,8 +618,9 @@ class ImageConverter(FileConverter):
             try:
                 im = Image.open(fin)
                 im.save(fout)
-            except (OSError, NotImplementedError):
+            except Exception:
                 # "OSError: cannot identify image file" happen for some files with a wrong extension
+                # PIL raises various other exceptions on invalid data
                 raise FileConversionError("cannot convert image to PNG")
 
 class TexConverter(FileConverter):
@@ -634,12 +635,12 @@ class TexConverter(FileConverter):
 
     def convert(self, fin, output, path):
         output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')
-        fdds = BytesIO(self.tex_to_dds(fin.read()))
         with write_file_or_remove(output_path) as fout:
+            fdds = BytesIO(self.tex_to_dds(fin.read()))
             try:
                 im = Image.open(fdds)
                 im.save(fout)
-            except (OSError, NotImplementedError):
+            except Exception:
                 raise FileConversionError("cannot convert image to PNG")
 
     @staticmethod
@@ -725,9 +726,10 @@ class BinConverter(FileConverter):
         with write_file_or_remove(output_path + '.json') as fout:
             try:
                 binfile = BinFile(output_path, btype_version=self.btype_version)
-            except ValueError as e:
+                bin_json = json_dumps(binfile.to_serializable()).encode('ascii')
+            except Exception as e:
                 raise FileConversionError(f"failed to parse bin file: {e}")
-            fout.write(json_dumps(binfile.to_serializable()).encode('ascii'))
+            fout.write(bin_json)
 
 class SknConverter(FileConverter):
     def __init__(self):
@@ -747,11 +749,14 @@ class SknConverter(FileConverter):
         obj_output_path = os.path.join(output, os.path.splitext(path)[0])
         shutil.rmtree(obj_output_path, ignore_errors=True)
         with write_dir_or_remove(obj_output_path):
-            sknfile = SknFile(output_path)
-            for entry in sknfile.entries:
-                name = os.path.join(obj_output_path, entry["name"] + ".obj")
-                with open(name, "w") as f:
-                    f.write(sknfile.to_obj(entry))
+            try:
+                sknfile = SknFile(output_path)
+                objs = [(entry["name"], sknfile.to_obj(entry)) for entry in sknfile.entries]
+            except Exception as e:
+                raise FileConversionError(f"failed to parse skn file: {e}")
+            for name, obj in objs:
+                with open(os.path.join(obj_output_path, name + ".obj"), "w") as f:
+                    f.write(obj)
 
 class RstConverter(FileConverter):
     def __init__(self, regex, game_version=1502):
@@ -771,17 +776,19 @@ class RstConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             shutil.copyfileobj(fin, fout)
 
-        rstfile = RstFile(output_path, self.game_version)
-        hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
-        rst_json = {"entries": {}, "version": rstfile.version}
-        for key, value in rstfile.entries.items():
-            if key in hashes:
-                key = hashes[key]
-            else:
-                key = f"{{{key:010x}}}"
-            rst_json["entries"][key] = value
-
         with write_file_or_remove(output_path + '.json', False) as fout:
+            try:
+                rstfile = RstFile(output_path, self.game_version)
+            except Exception as e:
+                raise FileConversionError(f"failed to parse string table: {e}")
+            hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
+            rst_json = {"entries": {}, "version": rstfile.version}
+            for key, value in rstfile.entries.items():
+                if key in hashes:
+                    key = hashes[key]
+                else:
+                    key = f"{{{key:010x}}}"
+                rst_json["entries"][key] = value
             json_dump(rst_json, fout, ensure_ascii=False)
 
 class AtlasInfoConverter(FileConverter):
@@ -798,7 +805,11 @@ class AtlasInfoConverter(FileConverter):
         output_path = os.path.join(output, path)
 
         with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_atlasinfo(fin), fout, ensure_ascii=False)
+            try:
+                atlas_info = self.parse_atlasinfo(fin)
+            except Exception as e:
+                raise FileConversionError(f"failed to parse atlas info: {e}")
+            json_dump(atlas_info, fout, ensure_ascii=False)
 
     @staticmethod
     def parse_atlasinfo(f):
@@ -843,7 +854,11 @@ class ChampionSkinInfoConverter(FileConverter):
         output_path = os.path.join(output, path)
 
         with write_file_or_remove(output_path + ".json", False) as fout:
-            json_dump(self.parse_championskininfo(fin), fout, ensure_ascii=False)
+            try:
+                skin_info = self.parse_championskininfo(fin)
+            except Exception as e:
+                raise FileConversionError(f"failed to parse champion skins: {e}")
+            json_dump(skin_info, fout, ensure_ascii=False)
 
     @staticmethod
     def parse_championskininfo(f):
-- 
2.43.0


From 5ddf042fc345ad4bc847c6c1e3aef8ba3912a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 05/56] fix: refuse submesh names with path separators

---
 cdtb/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index aff5664..a9a5678 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -755,6 +755,8 @@ class SknConverter(FileConverter):
             except Exception as e:
                 raise FileConversionError(f"failed to parse skn file: {e}")
             for name, obj in objs:
+                if '/' in name:
+                    raise FileConversionError(f"invalid submesh name: {name!r}")
                 with open(os.path.join(obj_output_path, name + ".obj"), "w") as f:
                     f.write(obj)
 
-- 
2.43.0


From 90934e879637e1676b33e718c84685443f26e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 06/56] fix: don't list the cdragon directory as an exported
 file

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index a9a5678..0b8eddf 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -342,7 +342,7 @@ class CdragonRawPatchExporter:
         # collect list of paths to extract (new ones, previous ones)
         new_paths = set(exporter.all_converted_exported_paths())
         symlinked_paths = None
-        changed_paths = new_paths  # default: use all new paths
+        changed_paths = set(new_paths)  # default: use all new paths
         if self.prev_patch:
             prev_paths = set(prev_exporter.all_converted_exported_paths())
             # filter out files from previous patch
-- 
2.43.0


From 72665104f8869406cbe0f6c62ae888057334e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 07/56] fix: don't assume files without checksum are identical
 when filtering WADs

---
 cdtb/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 0b8eddf..0a474d3 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -201,7 +201,8 @@ class Exporter:
                 logger.debug(f"filter modified WAD file: {path}")
                 other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
                 # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]
+                # note: first WAD versions have no checksum, files are assumed to be different
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]
                 if not self_wad.files:
                     del self.wads[path]
 
-- 
2.43.0


From 94830f1299f8eb6fc871713f79944fa01a88ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 08/56] fix: don't link files whose export path changed

---
 cdtb/export.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 0a474d3..5851306 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -191,7 +191,10 @@ class Exporter:
             self_wad = self.wads.get(path)
             if self_wad is None:
                 continue  # not exported
-            if self_wad.path == other_wad.path:
+            # files may be exported to another path, even if not modified
+            other_paths = {wf.path_hash: wf.path for wf in other_wad.files}
+            same_path = lambda wf: wf.path == other_paths.get(wf.path_hash)
+            if self_wad.path == other_wad.path and all(same_path(wf) for wf in self_wad.files):
                 # same path: WADs are identical
                 logger.debug(f"filter identical WAD file: {path}")
                 del self.wads[path]
@@ -202,7 +205,7 @@ class Exporter:
                 other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
                 # change the files from the wad so it only extract these
                 # note: first WAD versions have no checksum, files are assumed to be different
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash) or not same_path(wf)]
                 if not self_wad.files:
                     del self.wads[path]
 
-- 
2.43.0


From 17b050123736037c37b90e7c7f425d0946b4d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 09/56] fix: replace remaining empty directories by links

---
 cdtb/export.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index 5851306..2aabe37 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -486,6 +486,13 @@ class CdragonRawPatchExporter:
         logger.info(f"creating symlinks for patch {self.patch.version}")
         for link in symlinks:
             dst = os.path.join(dst_output, link)
+            if os.path.isdir(dst) and not os.path.islink(dst):
+                # empty directories may remain, for instance after a failed conversion
+                for path, _, _ in os.walk(dst, topdown=False):
+                    try:
+                        os.rmdir(path)
+                    except OSError:
+                        pass
             if os.path.lexists(dst):
                 if not os.path.islink(dst):
                     raise RuntimeError(f"symlink target already exists: {dst}")
-- 
2.43.0


From 602e9c8f071ad59b7553c172dd3a9052aa2bba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 10/56] fix: update links when files of the previous patch
 moved

---
 cdtb/export.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 2aabe37..c4e01be 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -493,13 +493,15 @@ class CdragonRawPatchExporter:
                         os.rmdir(path)
                     except OSError:
                         pass
+            dst_dir = os.path.dirname(dst)
+            src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
             if os.path.lexists(dst):
                 if not os.path.islink(dst):
                     raise RuntimeError(f"symlink target already exists: {dst}")
-                continue  # already set
-            dst_dir = os.path.dirname(dst)
+                if os.readlink(dst) == src:
+                    continue  # already set
+                os.remove(dst)  # outdated: the previous patch has been updated
             os.makedirs(dst_dir, exist_ok=True)
-            src = os.path.relpath(os.path.realpath(os.path.join(src_output, link)), os.path.realpath(dst_dir))
             logger.info(f"create symlink {dst}")
             try:
                 os.symlink(src, dst)
-- 
2.43.0


From b5817ab0703f01863c5c7203f5fe58c8e81b1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 11/56] fix: don't remove parents of the output directory when
 cleaning it

---
 cdtb/export.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index c4e01be..89e9963 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -257,10 +257,13 @@ class Exporter:
             dirs_to_remove.add(os.path.dirname(path))
 
         for path in dirs_to_remove:
-            try:
-                os.removedirs(path)
-            except OSError:
-                pass
+            # similar to os.removedirs(), but don't go above the output directory
+            while path != self.output:
+                try:
+                    os.rmdir(path)
+                except OSError:
+                    break
+                path = os.path.dirname(path)
 
 
     def _get_converter(self, path):
-- 
2.43.0


From 98dd282ca254ba94ff9bd1305034e45b83af4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 12/56] fix: support percent signs in known paths when guessing
 hashes

---
 cdtb/hashes.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 7619e1f..0ce4009 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -125,6 +125,11 @@ def build_wordlist(paths):
     return sorted(words)
 
 
+def escape_format(s):
+    """Escape a string to be used as a literal in a %-format"""
+    return s.replace('%', '%%')
+
+
 @contextmanager
 def sigint_callback(callback):
     """Context to display progress of long operations on SIGINT"""
@@ -289,7 +294,7 @@ class HashGuesser:
         for path in paths:
             for m in re_extract.finditer(path):
                 match = m.group(1) + m.group(2)
-                temp_formats.add(format_part % (path[:m.start()], path[m.span()[0]+len(match):]))
+                temp_formats.add(format_part % (escape_format(path[:m.start()]), escape_format(path[m.span()[0]+len(match):])))
 
         formats = {fmt.replace("{sep}", sep) for fmt in temp_formats for sep in "-_"}
 
@@ -306,8 +311,8 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.update('%s%%s%s%s' % (path[:m.start()], sep, path[m.start():]) for sep in "-_")
-                formats.update('%s%s%%s%s' % (path[:m.end()], sep, path[m.end():]) for sep in "-_")
+                formats.update('%s%%s%s%s' % (escape_format(path[:m.start()]), sep, escape_format(path[m.start():])) for sep in "-_")
+                formats.update('%s%s%%s%s' % (escape_format(path[:m.end()]), sep, escape_format(path[m.end():])) for sep in "-_")
 
         logger.debug(f"add basename word: {len(formats)} formats, {len(words)} words")
         for fmt in progress_iterator(sorted(formats)):
@@ -329,7 +334,7 @@ class HashGuesser:
         formats = set()
         for path in paths:
             for m in re_extract.finditer(path):
-                formats.add('%s%s%s' % (path[:m.start()], fmt, path[m.end():]))
+                formats.add('%s%s%s' % (escape_format(path[:m.start()]), fmt, escape_format(path[m.end():])))
 
         nrange = range(nmax)
         logger.debug(f"substitute numbers: {len(formats)} formats, nmax = {nmax}")
@@ -432,7 +437,7 @@ class LcuHashGuesser(HashGuesser):
 
         all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
         plugins = {p.split('/', 2)[1] for p in all_paths}
-        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', p) for p in all_paths}
+        formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', escape_format(p)) for p in all_paths}
 
         logger.debug(f"substitute plugin: {len(formats)} formats, {len(plugins)} plugins")
         for fmt in progress_iterator(sorted(formats)):
@@ -653,7 +658,7 @@ class GameHashGuesser(HashGuesser):
                 continue
             c = characters.setdefault(char, (set(), set()))
             c[0].add(skin)
-            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', p))
+            c[1].add(re.subn(r'(?:base|skin\d+)', '%s', escape_format(p)))
 
         # generate all combinations
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
@@ -674,7 +679,7 @@ class GameHashGuesser(HashGuesser):
             prefix, suffix, ext = m.groups()
             if suffix:
                 suffixes.add(suffix)
-            formats.add(f"{prefix}%s{ext}")
+            formats.add(f"{escape_format(prefix)}%s{escape_format(ext)}")
 
         # generate all combinations
         logger.debug(f"substitute suffixes: {len(formats)} formats, {len(suffixes)} suffixes")
@@ -857,8 +862,7 @@ class GameHashGuesser(HashGuesser):
                         elif path.endswith('.troy'):
                             self.check('data/shared/particles/'+ path[:-5] + '.troybin')
                         elif wadfile.path:
-                            fmt = os.path.dirname(wadfile.path) + '/%s.preload'
-                            self.check(fmt % path)
+                            self.check(f"{os.path.dirname(wadfile.path)}/{path}.preload")
 
                 elif wadfile.ext in ('hls', 'ps_2_0', 'ps_3_0', 'vs_2_0', 'vs_3_0'):
                     # shader: search for includes
-- 
2.43.0


From 69bfcd4e24b008b86e3b0431947213eb0ff5b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 13/56] fix: skip files without readable data when searching
 LCU hashes

---
 cdtb/hashes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 0ce4009..db791f1 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -364,8 +364,11 @@ class HashGuesser:
                 # skip non-text files as soon as possible
                 if wadfile.ext in ('png', 'jpg', 'ttf', 'webm', 'ogg', 'dds', 'tga'):
                     continue
+                data = wad.read_file_data(f, wadfile)
+                if data is None:
+                    continue  # softlink or malformed data
                 try:
-                    data = wadfile.read_data(f).decode('utf-8-sig')
+                    data = data.decode('utf-8-sig')
                 except UnicodeDecodeError:
                     continue
                 if data:
-- 
2.43.0


From f017c049cdecddb084c36fecbc6e521743b9195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 14/56] fix: support game and client components in hashes-guess
 command

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index b35c851..1f38a35 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -200,7 +200,7 @@ def command_hashes_guess(parser, args):
         if isinstance(component, Patch):
             elements = component.elements
         else:
-            elements = [component.elements]
+            elements = [component]
         for elem in elements:
             wads.extend(Wad(p) for p in elem.fspaths() if p.endswith('.wad') or p.endswith('.wad.client'))
 
-- 
2.43.0


From fc5c85143bce16457b354d6c96153b64c4b833d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 15/56] fix: ignore files outside plugins when guessing plugin
 names

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index db791f1..f330eb7 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -438,7 +438,7 @@ class LcuHashGuesser(HashGuesser):
     def substitute_plugin(self):
         """Guess hashes by changing plugin name"""
 
-        all_paths = [p for p in self.known.values() if p.startswith('plugins/')]
+        all_paths = [p for p in self.known.values() if re.match(r'plugins/[^/]+/', p)]
         plugins = {p.split('/', 2)[1] for p in all_paths}
         formats = {re.sub(r'^plugins/([^/]+)/', r'plugins/%s/', escape_format(p)) for p in all_paths}
 
-- 
2.43.0


From 55649ff3a4277427c4e0dc126f6bb11baf180114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 16/56] fix: don't fail on JSON files with an unexpected
 structure when searching hashes

---
 cdtb/hashes.py | 53 ++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index f330eb7..d7bce12 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -459,34 +459,37 @@ class LcuHashGuesser(HashGuesser):
                 # parse specific information from known json files
                 try:
                     jdata = json.loads(data)
-                except (json.JSONDecodeError, UnicodeDecodeError):
+                except (json.JSONDecodeError, UnicodeDecodeError, RecursionError):
                     pass
 
             if jdata is not None:
-                if wadfile.path == 'plugins/rcp-fe-lol-loot/global/default/trans.json':
-                    # names of hextech items, keys are also image names
-                    self.check_iter(f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in jdata)
-                    continue  # no more data to parse
-                elif 'pluginDependencies' in jdata and 'name' in jdata:
-                    # retrieve plugin name from description.json
-                    # guess some common paths
-                    name = jdata['name']
-                    subpaths = ['index.html', 'init.js', 'init.js.map', 'bundle.js', 'trans.json', 'css/main.css', 'license.json']
-                    self.check_iter(f"plugins/{name}/global/default/{subpath}" for subpath in subpaths)
-                elif 'musicVolume' in jdata and 'files' in jdata:
-                    # splash config
-                    # try to guess subdirectory name (names should only contain one element)
-                    names = {s.lower() for path in jdata['files'].values() for s in re.findall(r'-splash-([^.]+)', path)}
-                    self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/config.json" for name in names)
-                    self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/{path.lower()}" for name in names for path in jdata['files'].values())
-                    continue  # no more data to parse
-                elif wadfile.path == 'plugins/rcp-be-lol-game-data/global/default/v1/champion-summary.json':
-                    champion_ids = [v['id'] for v in jdata]
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
-                elif 'recommendedItemDefaults' in jdata:
-                    # plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json
-                    self.check_iter(f'plugins/rcp-be-lol-game-data/global/default{p.lower()}' for p in jdata['recommendedItemDefaults'])
+                try:
+                    if wadfile.path == 'plugins/rcp-fe-lol-loot/global/default/trans.json':
+                        # names of hextech items, keys are also image names
+                        self.check_iter(f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in jdata)
+                        continue  # no more data to parse
+                    elif 'pluginDependencies' in jdata and 'name' in jdata:
+                        # retrieve plugin name from description.json
+                        # guess some common paths
+                        name = jdata['name']
+                        subpaths = ['index.html', 'init.js', 'init.js.map', 'bundle.js', 'trans.json', 'css/main.css', 'license.json']
+                        self.check_iter(f"plugins/{name}/global/default/{subpath}" for subpath in subpaths)
+                    elif 'musicVolume' in jdata and 'files' in jdata:
+                        # splash config
+                        # try to guess subdirectory name (names should only contain one element)
+                        names = {s.lower() for path in jdata['files'].values() for s in re.findall(r'-splash-([^.]+)', path)}
+                        self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/config.json" for name in names)
+                        self.check_iter(f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{name}/{path.lower()}" for name in names for path in jdata['files'].values())
+                        continue  # no more data to parse
+                    elif wadfile.path == 'plugins/rcp-be-lol-game-data/global/default/v1/champion-summary.json':
+                        champion_ids = [v['id'] for v in jdata]
+                        self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json' for cid in champion_ids)
+                        self.check_iter(f'plugins/rcp-be-lol-game-data/global/default/v1/champion-splashes/{cid}/metadata.json' for cid in champion_ids)
+                    elif 'recommendedItemDefaults' in jdata:
+                        # plugins/rcp-be-lol-game-data/global/default/v1/champions/{cid}.json
+                        self.check_iter(f'plugins/rcp-be-lol-game-data/global/default{p.lower()}' for p in jdata['recommendedItemDefaults'])
+                except (AttributeError, KeyError, TypeError, UnicodeEncodeError):
+                    pass  # not the expected structure
 
             # search for known paths formats
             # /fe/{plugin}/{subpath} -> plugins/rcp-fe-{plugin}/global/default/{subpath}
-- 
2.43.0


From 1893a2244522556bb7e4286b4329486cb00c2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 17/56] fix: don't change known hashes while iterating on them

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index d7bce12..c6c9988 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -560,7 +560,7 @@ class LcuHashGuesser(HashGuesser):
         self.check_iter(f'plugins/rcp-be-sanitizer/global/default/{p}' for p in paths)
 
         # plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/{name}.png -> {name}_splash.png
-        for p in self.known.values():
+        for p in list(self.known.values()):
             if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'):
                 self.check(p.replace('.png', '_splash.png'))
 
-- 
2.43.0


From 027feff110cdaf967e87bb57a2d7d73fed1e1a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 18/56] fix: resolve relative paths when searching LCU hashes

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index c6c9988..82856db 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -503,7 +503,7 @@ class LcuHashGuesser(HashGuesser):
                             for m in re.finditer(r'\blol-game-data/assets/([a-zA-Z0-9/_.@-]+)', data))
 
             # relative path starting with ./ or ../ (e.g. require() use)
-            relpaths |= {m.group(1) for m in re.finditer(r'[^a-zA-Z0-9/_.\\-]((?:\.|\.\.)/[a-zA-Z0-9/_.-]+)', data)}
+            relpaths |= {m.group(1) for m in re.finditer(r'[^a-zA-Z0-9/_.\\-](?:\.{1,2}/)+([a-zA-Z0-9/_.-]+)', data)}
             # basename or subpath (check for an extension)
             relpaths |= {m.group(1) for m in re.finditer(r'''["']([a-zA-Z0-9][a-zA-Z0-9/_.@-]*\.(?:js|json|webm|html|[a-z]{3}))\b''', data)}
             # template ID to template path
-- 
2.43.0


From 4d1cc8a0e64e490a7c72f4fb4d65d6de51d1be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 19/56] fix: skip non-ASCII references when searching game
 hashes

---
 cdtb/hashes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 82856db..ba7c632 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -860,7 +860,10 @@ class GameHashGuesser(HashGuesser):
                 elif wadfile.ext == 'preload':
                     # preload files
                     for m in re.finditer(br'Name="([^"]+)"', data):
-                        path = m.group(1).lower().decode('ascii')
+                        try:
+                            path = m.group(1).lower().decode('ascii')
+                        except UnicodeDecodeError:
+                            continue
                         if path.endswith('.lua'):
                             self.check(path)
                             self.check(path[:-4] + '.luabin')
@@ -875,7 +878,10 @@ class GameHashGuesser(HashGuesser):
                     if wadfile.path:
                         dirname = os.path.dirname(wadfile.path)
                         for m in re.finditer(br'#include "([^"]+)"', data):
-                            subpath = m.group(1).lower().decode('ascii')
+                            try:
+                                subpath = m.group(1).lower().decode('ascii')
+                            except UnicodeDecodeError:
+                                continue
                             self.check(os.path.normpath(f"{dirname}/{subpath}").replace('\\', '/'))
 
                 elif wadfile.ext == 'atlas':
-- 
2.43.0


From 3d7c1b9563b2824d53f31aa342b343a9c6585919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:04 +0000
Subject: [PATCH 20/56] fix: return no patch when looking for the latest one in
 an empty storage

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 15506ff..ced0e2a 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -313,7 +313,7 @@ class Storage(metaclass=StorageRegister):
 
         it = self.patches(stored=stored)
         if version is None:
-            return next(it)
+            return next(it, None)
         for p in it:
             if p.version == version:
                 return p
-- 
2.43.0


From a126acc599a694d734cec78d77cecd4f8f4196e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 21/56] fix: extract empty RADS files sharing the offset of
 another file

---
 cdtb/rads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 3cdce6d..9a45183 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -512,7 +512,8 @@ class RadsProjectVersion:
         for package, files in files_by_package.items():
             with self.project.storage.stream(f"{package_files_path}/{package}") as reader:
                 # sort files by offset to extract while streaming the bin file
-                for pkgfile in sorted(files, key=lambda f: f.offset):
+                # (empty files can share the offset of another file)
+                for pkgfile in sorted(files, key=lambda f: (f.offset, f.size)):
                     logger.debug(f"extracting {pkgfile.path}")
                     reader.skip_to(pkgfile.offset)
                     fspath = self.project.storage.fspath(pkgfile.extract_path)
-- 
2.43.0


From a425bd99fba310b395caef1831990b1ce1609acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 22/56] fix: accept language names when selecting RADS projects

---
 cdtb/rads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 9a45183..36c533c 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -289,10 +289,10 @@ class RadsSolutionVersion:
             return dependencies[None]
         elif langs is True:
             return list({pv for pvs in dependencies.values() for pv in pvs})
-        elif isinstance(langs, Language):
-            return dependencies[langs]
+        elif isinstance(langs, (str, Language)):
+            return dependencies[Language(langs)]
         else:
-            return list({pv for lang in langs for pv in dependencies[lang]})
+            return list({pv for lang in langs for pv in dependencies[Language(lang)]})
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From e74f1eee78d7d8c8085ba12c290733a7794c5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 23/56] fix: support file objects when parsing manifests

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24e3fc4..beeaac4 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -85,7 +85,7 @@ class PatcherManifest:
                 with open(path_or_f, "rb") as f:
                     self.parse_rman(f)
             else:
-                self.parse_rman(f)
+                self.parse_rman(path_or_f)
 
     def filter_files(self, langs=True) -> List[PatcherFile]:
         """Filter files from the manifest with provided filters"""
-- 
2.43.0


From a33528afb5d5a4f8a178fbd21bfc86ad49e0342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 24/56] fix: support lists of languages when filtering manifest
 files

---
 cdtb/patcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index beeaac4..a0562eb 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -69,8 +69,10 @@ class PatcherFile:
         elif langs is True:
             return lambda f: True
         else:
-            lang = langs.lower()  # compare lowercased
-            return lambda f: f.flags is not None and any(f.lower() == lang for f in f.flags)
+            if isinstance(langs, str):
+                langs = [langs]
+            langs = {lang.lower() for lang in langs}  # compare lowercased
+            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)
 
 
 class PatcherManifest:
-- 
2.43.0


From 1e4d05eeb3a83be98c213edbe8ec71dff7653774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 25/56] fix: don't list links as files of patcher elements

---
 cdtb/patcher.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index a0562eb..8683cb0 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -649,12 +649,16 @@ class PatcherPatchElement(PatchElement):
         self.elem.download_bundles(langs=langs)
         self.elem.extract(langs=langs)
 
+    def _files(self, langs):
+        # links are not extracted
+        return (f for f in self.elem.manif.filter_files(langs=langs) if not f.link)
+
     def fspaths(self, langs=True):
-        return (self.elem.extract_path(f) for f in self.elem.manif.filter_files(langs=langs))
+        return (self.elem.extract_path(f) for f in self._files(langs))
 
     def relpaths(self, langs=True):
-        return (f.name.lower() for f in self.elem.manif.filter_files(langs=langs))
+        return (f.name.lower() for f in self._files(langs))
 
     def paths(self, langs=True):
-        for f in self.elem.manif.filter_files(langs=langs):
+        for f in self._files(langs):
             yield (self.elem.extract_path(f), f.name.lower())
-- 
2.43.0


From c73e1a0a66ae1edc44aaa35daf66f9516ad9be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 26/56] fix: extract again incomplete files and files to
 overwrite

---
 cdtb/patcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 8683cb0..4824258 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -445,7 +445,7 @@ class PatcherStorage(Storage):
             # assume chunk is compressed
             return zstd_decompress(f.read(chunk.size))
 
-    def extract_file(self, file: PatcherFile, output):
+    def extract_file(self, file: PatcherFile, output, overwrite=False):
         """Extract a file from its chunks, which must be available"""
 
         if self.use_extract_symlinks:
@@ -453,7 +453,7 @@ class PatcherStorage(Storage):
         else:
             real_output = output
 
-        if not os.path.isfile(real_output):
+        if overwrite or not os.path.isfile(real_output) or os.path.getsize(real_output) != file.size:
             logger.debug(f"extract {file.name} to {real_output}")
             with write_file_or_remove(real_output) as f:
                 for chunk in file.chunks:
@@ -582,7 +582,7 @@ class PatcherReleaseElement:
         if not overwrite and self.is_extracted_file(file):
             logger.debug(f"skip {file.name}: already extracted")
         else:
-            self.release.storage.extract_file(file, self.extract_path(file))
+            self.release.storage.extract_file(file, self.extract_path(file), overwrite=overwrite)
 
     def patch_version(self) -> Optional[PatchVersion]:
         """Return patch version or None if there is none
-- 
2.43.0


From fa0490d534ee6a91727eb99b5b702e9bff9e46a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 27/56] fix: support writing files in the current directory

---
 cdtb/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index c45fdad..197d967 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -26,7 +26,7 @@ def write_file_or_remove(path, binary=True):
     If the writing fails, the file is removed.
     """
     try:
-        os.makedirs(os.path.dirname(path), exist_ok=True)
+        os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
         with open(path, 'wb' if binary else 'w') as f:
             yield f
     except:
-- 
2.43.0


From 016fcac6f1ac8d010af5206040a4e344723f57eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:17 +0000
Subject: [PATCH 28/56] fix: parse TFT and Arena data with the types of the
 exported version

---
 cdtb/arenadata.py | 2 +-
 cdtb/tftdata.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index 9538546..b159cf3 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -15,7 +15,7 @@ class ArenaTransformer:
         """Parse bin data into template data"""
         map30_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map30", "map30.bin")
 
-        map30 = BinFile(map30_file)
+        map30 = BinFile(map30_file, btype_version=self.game_version)
 
         augments = self.parse_augments(map30)
 
diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index d47d604..cbfac73 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -41,7 +41,7 @@ class TftTransformer:
         """Parse bin data into template data"""
         map22_file = os.path.join(self.input_dir, "data", "maps", "shipping", "map22", "map22.bin")
 
-        map22 = BinFile(map22_file)
+        map22 = BinFile(map22_file, btype_version=self.game_version)
 
         character_names = self.parse_character_names(map22)
         traits = self.parse_traits(map22)
@@ -262,7 +262,7 @@ class TftTransformer:
             if not os.path.exists(self_path):
                 continue
 
-            tft_bin = BinFile(self_path)
+            tft_bin = BinFile(self_path, btype_version=self.game_version)
             record = next((x for x in tft_bin.entries if x.type == "TFTCharacterRecord"), {})
             if "spells" in record:
                 spell_ref = next((s for s in record.getv("spells") if s.h != 0), None)
-- 
2.43.0


From b73d1738b2ab962f7ac695ed005617cb408b6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:39 +0000
Subject: [PATCH 29/56] fix: support TFT data without sets

---
 cdtb/tftdata.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index cbfac73..60a12aa 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -140,13 +140,11 @@ class TftTransformer:
 
         if not set_collection:
             # backward compatibility
-            longest_character_list = max(character_lists.values(), key=lambda v: len(v.fields[0].value))
-            longest_trait_list = max(trait_lists.values(), key=lambda v: len(v.fields[0].value))
-            champion_list = longest_character_list.fields[0].value
-            trait_list = longest_trait_list.fields[0].value
-            set_characters = [character_names.get(char) for char in champion_list]
-            set_traits = [traits.get(trait) for trait in trait_list]
-            return [(1, "Base", set_characters, set_traits)]
+            champion_list = max((v.fields[0].value.values for v in character_lists.values()), key=len)
+            trait_list = max((v.fields[0].value.values for v in trait_lists.values()), key=len)
+            set_characters = [character_names[char] for char in champion_list if char in character_names]
+            set_traits = [traits[trait] for trait in trait_list if trait in traits]
+            return [(1, None, "Base", set_characters, set_traits, [], [])]
 
         sets = []
         for item in set_collection:
-- 
2.43.0


From a5bdc10d975e3b735083bd317918d5dfbd72dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 30/56] fix: use icons of older TFT data when there are no
 hashed paths

---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 60a12aa..ae58e26 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -309,7 +309,7 @@ class TftTransformer:
                 "characterName": record.getv("mCharacterName"),
                 "name": champ.getv("mDisplayNameTra"),
                 "cost": cost,
-                "icon": str(champ.getv("PcSplashPath")) or champ.getv("mIconPath"),
+                "icon": str(champ.getv("PcSplashPath", "")) or champ.getv("mIconPath"),
                 "tileIcon": str(champ.getv("TeamPlannerPortraitPath")),
                 "squareIcon": str(champ.getv("SquareSplashPath")),
                 "traits": [traits[h]["name"] for h in champ_traits if h in traits],
@@ -329,7 +329,7 @@ class TftTransformer:
                 "ability": {
                     "name": champ.getv("mAbilityNameTra") or spell_key_name,
                     "desc": champ.getv("mDescriptionTra") or spell_key_tooltip,
-                    "icon": str(champ.getv("AbilityIconPath")) or champ.getv("mPortraitIconPath"),
+                    "icon": str(champ.getv("AbilityIconPath", "")) or champ.getv("mPortraitIconPath"),
                     "variables": ability_variables,
                 },
             }, champ_traits)
-- 
2.43.0


From b6060fe1f4aaef94b63a66b05c116fcc39eaa8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 31/56] fix: don't translate TFT texts several times

---
 cdtb/tftdata.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index ae58e26..2085b73 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -82,10 +82,20 @@ class TftTransformer:
             def replace_list(l):
                 l[:] = [replacements.get(v, v) for v in l]
 
+            replaced = set()  # traits and champions are shared by sets, don't translate them several times
+            def is_replaced(entry):
+                if id(entry) in replaced:
+                    return True
+                replaced.add(id(entry))
+                return False
+
             def replace_set_data(entry):
                 for trait_data in entry["traits"]:
-                    replace_in_data(trait_data)
+                    if not is_replaced(trait_data):
+                        replace_in_data(trait_data)
                 for champ_data in entry["champions"]:
+                    if is_replaced(champ_data):
+                        continue
                     replace_in_data(champ_data)
                     replace_list(champ_data["traits"])
                     if "ability" in champ_data:
-- 
2.43.0


From 61d0d2341fe173257ce58785e576af7e55d37ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 32/56] fix: support Arena augments with a null spell

---
 cdtb/arenadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/arenadata.py b/cdtb/arenadata.py
index b159cf3..3987fe1 100644
--- a/cdtb/arenadata.py
+++ b/cdtb/arenadata.py
@@ -65,7 +65,7 @@ class ArenaTransformer:
             augment_datavalues = {}
             augment_calculations = {}
             augment_spellobject = augment.getv("RootSpell")
-            if augment_spellobject:
+            if augment_spellobject is not None and augment_spellobject.h != 0:
                 augment_spell = spellobject_entries[augment_spellobject].getv('mSpell')
                 for datavalue in augment_spell.getv("DataValues", augment_spell.getv('mDataValues', [])):
                     augment_datavalues[datavalue.getv("name", datavalue.getv("mName"))] = datavalue.getv("values", datavalue.getv("mValues", [0])[0])
-- 
2.43.0


From b9f54a67c5ac42cfb54869114e020dfad408bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 33/56] fix: export Arena data with the version of the patch

---
 cdtb/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 89e9963..597ea00 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -405,8 +405,9 @@ class CdragonRawPatchExporter:
         if self.patch.version != 'main' and self.patch.version < PatchVersion('13.14'):
             return  # no supported Arena data before 13.14
         # don't import in module to be able to execute arenadata module
+        game_version = self.patch.version.as_int()
         from .arenadata import ArenaTransformer
-        transformer = ArenaTransformer(os.path.join(self.output, "game"))
+        transformer = ArenaTransformer(os.path.join(self.output, "game"), game_version)
         transformer.export(os.path.join(self.output, "cdragon/arena"), langs=None)
 
     def _create_exporter(self, patch):
-- 
2.43.0


From 53a684815b3ad1dfa863ff1200cf25ff92851931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 34/56] fix: find string tables in directories with special
 characters

---
 cdtb/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdtb/tools.py b/cdtb/tools.py
index 197d967..3e47101 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -94,6 +94,7 @@ def stringtable_paths(base_dir, game):
     # - <lang>/data/menu/en_us/<game>.stringtable
     #   (game is either `lol` or `tft`)
 
+    base_dir = glob.escape(base_dir)
     # Find the current format in order from newest to oldest
     lang_dict = {re.search(rf"(.._..)/data/menu/en_us/{game}\.stringtable$", path.replace('\\', '/')).group(1): path for path in glob.glob(os.path.join(base_dir, f"??_??/data/menu/en_us/{game}.stringtable"))}
     if not lang_dict:
-- 
2.43.0


From bea65f5d4957560bcafd01528b2dbd0788cf6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 35/56] fix: read text tables without final or with Windows
 line ends

---
 cdtb/tftdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 2085b73..1d716b4 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -15,10 +15,10 @@ def load_translations(path, game_version=1502):
             translations = {}
             for line in f:
                 if line.startswith(b'tr "'):
-                    line = line.decode()
+                    line = line.decode().rstrip("\r\n")
                     key, val = line.split("=", 1)
                     key = key[4:-2]
-                    val = val[2:-2]
+                    val = val[2:-1]
                     translations[key] = val
             return translations
 
-- 
2.43.0


From f09acc0ade4e86912331a78ab7e11db2ad85e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 36/56] fix: honor --patchline when no storage path is given

---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 1f38a35..2290fd0 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -62,11 +62,11 @@ def parse_storage_args(parser, args) -> Storage:
         conf = storage_conf_from_path(path)
         if conf is None:
             parser.error(f"cannot retrieve storage configuration from '{path}'")
-        if args.patchline is not None:
-            if conf['type'] == 'patcher':
-                conf['patchline'] = args.patchline
-            else:
-                parser.error("--patchline is only supported for 'patcher' storage")
+    if args.patchline is not None:
+        if conf['type'] == 'patcher':
+            conf['patchline'] = args.patchline
+        else:
+            parser.error("--patchline is only supported for 'patcher' storage")
     return Storage.from_conf(conf)
 
 
-- 
2.43.0


From f57c12f6a45a2a44c18731fb5549e948f4f04051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 37/56] fix: report a usage error when exporting the oldest
 patch without previous one

---
 cdtb/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 2290fd0..05156f9 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -293,9 +293,11 @@ def command_export(parser, args):
             it = storage.patches(stored=True)
             for v in it:
                 if v.version == patch.version:
-                    previous_patch = next(it)
+                    previous_patch = next(it, None)
                     break
             else:
+                previous_patch = None
+            if previous_patch is None:
                 parser.error("cannot guess previous patch")
 
         exporter = CdragonRawPatchExporter(os.path.join(args.output, str(patch.version)), patch, previous_patch, symlinks=symlinks)
-- 
2.43.0


From d5fc158f052eb5a136512f22863461b27ed0f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 38/56] fix: export of multiple patches requires --from instead
 of refusing it

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 05156f9..4cf590a 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -270,7 +270,7 @@ def command_export(parser, args):
         # multiple patches (update only)
         if args.previous:
             parser.error("patch version required with --previous or --full")
-        if args.first:
+        if not args.first:
             parser.error("--from is required when no patch is provided")
         exporters = CdragonRawPatchExporter.from_directory(storage, args.output, PatchVersion(args.first), symlinks=symlinks)
         for exporter in exporters:
-- 
2.43.0


From 0d843f88d80c5d48e3947b82a5809efc58401d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 39/56] fix: ignore directories which are not patch versions
 when exporting multiple patches

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 597ea00..a6633fd 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -533,7 +533,7 @@ class CdragonRawPatchExporter:
                 continue
             try:
                 version = PatchVersion(path)
-            except (ValueError, TypeError):
+            except (ValueError, TypeError, AssertionError):
                 continue
             versions.add(version)
 
-- 
2.43.0


From 9a2bd516d4db78c18346108375e9e1c11a916d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 40/56] fix: report exactly the requested versions that are not
 stored when exporting multiple patches

---
 cdtb/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index a6633fd..975173b 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -535,6 +535,8 @@ class CdragonRawPatchExporter:
                 version = PatchVersion(path)
             except (ValueError, TypeError, AssertionError):
                 continue
+            if first and version < first:
+                continue
             versions.add(version)
 
         if not versions:
@@ -543,8 +545,6 @@ class CdragonRawPatchExporter:
         # get patches from versions (latest to oldest)
         patches = []
         for patch in storage.patches(stored=True):
-            if first and patch.version < first:
-                break
             if patch.version in versions:
                 patches.append(patch)
                 versions.remove(patch.version)
-- 
2.43.0


From 41bc3a329e53a20bc1dae7758f03d480c6f5acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 41/56] fix: don't record a release twice when writing
 latest.timestamp failed

---
 cdtb/patcher.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 4824258..95d18d7 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -365,11 +365,8 @@ class PatcherStorage(Storage):
             'game_patch_url': self.get_latest_game_manifest(),
         }
 
-        latest_timestamp = self.latest_timestamp()
-        if latest_timestamp is None:
-            latest_release = None
-        else:
-            latest_release = PatcherRelease(self, latest_timestamp)
+        # don't rely on `latest.timestamp`, missing if its writing failed
+        latest_release = next(self.iter_releases(), None)
         if latest_release and release_info == latest_release.data:
             return  # already up to date
 
-- 
2.43.0


From e6ec116d6f4dc2824b5b36b4562f5d3db874b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 42/56] fix: don't ignore the first line of text translation
 tables

---
 cdtb/tftdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdtb/tftdata.py b/cdtb/tftdata.py
index 1d716b4..7aa3e08 100644
--- a/cdtb/tftdata.py
+++ b/cdtb/tftdata.py
@@ -8,10 +8,13 @@ from .tools import json_dump, stringtable_paths
 
 def load_translations(path, game_version=1502):
     with open(path, "rb") as f:
-        if f.read(3) == b"RST":
+        magic = f.read(3)
+        if magic == b"RST":
             f.seek(0)
             return RstFile(f, game_version)
         else:
+            if magic != b"\xef\xbb\xbf":
+                f.seek(0)  # no BOM to skip
             translations = {}
             for line in f:
                 if line.startswith(b'tr "'):
-- 
2.43.0


From 9ea67fd0aa7a6d1a22cc5e8f7ca2f8cefbf6838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 43/56] fix: ignore symlinks in directories with an invalid
 path when exporting a patch

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 975173b..1ca9b5c 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -505,9 +505,9 @@ class CdragonRawPatchExporter:
                 if os.readlink(dst) == src:
                     continue  # already set
                 os.remove(dst)  # outdated: the previous patch has been updated
-            os.makedirs(dst_dir, exist_ok=True)
             logger.info(f"create symlink {dst}")
             try:
+                os.makedirs(dst_dir, exist_ok=True)
                 os.symlink(src, dst)
             except OSError as e:
                 # Path components longer than 255 are not supported, ignore such files
-- 
2.43.0


From 7db9bff6225cb1367b878f633ab8db738fd0c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 44/56] fix: tell which component is not found

---
 cdtb/__main__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index 4cf590a..aaa2c20 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -32,16 +32,16 @@ from cdtb.tools import json_dump
 def parse_component_arg(parser, storage: Storage, component: str):
     """Wrapper around parse_storage_component() to parse CLI arguments into patch elements"""
     try:
-        component = parse_storage_component(storage, component)
+        parsed = parse_storage_component(storage, component)
     except ValueError:
         parser.error(f"invalid component: {component}")
-    if component is None:
+    if parsed is None:
         parser.error(f"component not found: {component}")
 
-    if isinstance(component, Patch):
-        return list(component.elements)
+    if isinstance(parsed, Patch):
+        return list(parsed.elements)
     else:
-        return [component]
+        return [parsed]
 
 def parse_component_args(parser, storage: Storage, components):
     return [e for c in components for e in parse_component_arg(parser, storage, c)]
-- 
2.43.0


From df19c335f264a5d5838f1b466a8c5dc54732423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 45/56] fix: tell which previous patch is not found

---
 cdtb/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index aaa2c20..c07608d 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -288,7 +288,7 @@ def command_export(parser, args):
         elif args.previous:
             previous_patch = storage.patch(args.previous, stored=True)
             if previous_patch is None:
-                parser.error(f"previous patch not found: {patch.version}")
+                parser.error(f"previous patch not found: {args.previous}")
         else:
             it = storage.patches(stored=True)
             for v in it:
-- 
2.43.0


From 4671f8769e9157b26b6acc84e0131d17fef768e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 46/56] fix: look for version files in the storage directory,
 not in the current one

---
 cdtb/rads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 36c533c..c0ec76d 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -379,7 +379,7 @@ class RadsSolutionVersion:
         for path in filepaths:
             if path.endswith(path_suffix):
                 fspath = self.solution.storage.fspath(path)
-                if not os.path.isfile(path):
+                if not os.path.isfile(fspath):
                     pv.extract([path])
                 break
         else:
-- 
2.43.0


From 4fa6b3a84aba2d73605b11b1761045df4c2c64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 47/56] fix: read and write text as UTF-8 whatever the default
 encoding

---
 cdtb/__main__.py |  2 +-
 cdtb/export.py   |  8 ++++----
 cdtb/hashes.py   |  8 ++++----
 cdtb/patcher.py  | 10 +++++-----
 cdtb/rads.py     |  8 ++++----
 cdtb/storage.py  |  6 +++---
 cdtb/tools.py    |  2 +-
 7 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/cdtb/__main__.py b/cdtb/__main__.py
index c07608d..c0687d8 100644
--- a/cdtb/__main__.py
+++ b/cdtb/__main__.py
@@ -314,7 +314,7 @@ def command_skn_extract(parser, args):
     os.makedirs(args.output, exist_ok=True)
     for entry in sknfile.entries:
         name = os.path.join(args.output, entry["name"] + ".obj")
-        with open(name, "w") as f:
+        with open(name, "w", encoding='utf-8') as f:
             f.write(sknfile.to_obj(entry))
 
 
diff --git a/cdtb/export.py b/cdtb/export.py
index 1ca9b5c..097d911 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -375,15 +375,15 @@ class CdragonRawPatchExporter:
         os.makedirs(os.path.join(self.output, "cdragon"), exist_ok=True)
 
         if symlinked_paths:
-            with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n') as f:
+            with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n', encoding='utf-8') as f:
                 for link in sorted(symlinked_paths):
                     print(link, file=f)
 
-        with open(os.path.join(self.output, "cdragon/files.unknown.txt"), 'w', newline='\n') as f:
+        with open(os.path.join(self.output, "cdragon/files.unknown.txt"), 'w', newline='\n', encoding='utf-8') as f:
             for h in unknown_hashes:
                 print(f"{h:016x}", file=f)
 
-        with open(os.path.join(self.output, "cdragon/files.exported.txt"), 'w', newline='\n') as f:
+        with open(os.path.join(self.output, "cdragon/files.exported.txt"), 'w', newline='\n', encoding='utf-8') as f:
             for path in sorted(new_paths):
                 print(path, file=f)
 
@@ -774,7 +774,7 @@ class SknConverter(FileConverter):
             for name, obj in objs:
                 if '/' in name:
                     raise FileConversionError(f"invalid submesh name: {name!r}")
-                with open(os.path.join(obj_output_path, name + ".obj"), "w") as f:
+                with open(os.path.join(obj_output_path, name + ".obj"), "w", encoding='utf-8') as f:
                     f.write(obj)
 
 class RstConverter(FileConverter):
diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index ba7c632..31031f1 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -61,7 +61,7 @@ class HashFile:
     def load(self, force=False) -> Dict[int, str]:
         if force or self.hashes is None:
             try:
-                with open(self.filename) as f:
+                with open(self.filename, encoding='utf-8') as f:
                     hashes = (l.split(' ', 1) for l in f)
                     self.hashes = {int(h, 16): s.rstrip('\n') for h, s in hashes}
             except FileNotFoundError:
@@ -69,7 +69,7 @@ class HashFile:
         return self.hashes
 
     def save(self):
-        with open(self.filename, 'w', newline='') as f:
+        with open(self.filename, 'w', newline='', encoding='utf-8') as f:
             for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
                 print(self.line_format.format(h, s), file=f)
 
@@ -203,7 +203,7 @@ class HashGuesser:
 
         unknown = set()
         for p in glob.glob(f"{path}/*.unknown.txt"):
-            with open(p) as f:
+            with open(p, encoding='utf-8') as f:
                 unknown |= {int(h, 16) for h in f}
         return unknown
 
@@ -248,7 +248,7 @@ class HashGuesser:
         self.check_iter(s for s in text.split() if s)
 
     def check_xdbg_hashes(self, path):
-        with open(path) as f:
+        with open(path, encoding='utf-8') as f:
             self.check_iter(l.split('"')[1] for l in f if l.startswith('hash: '))
 
     def check_basenames(self, names):
diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 95d18d7..1dedbdf 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -381,7 +381,7 @@ class PatcherStorage(Storage):
     def get_latest_client_manifest(self):
         url_or_path = self.clientconfig_data
         if url_or_path and not url_or_path.startswith('http://') and not url_or_path.startswith('https://') and os.path.exists(url_or_path):
-            with open(url_or_path) as f:
+            with open(url_or_path, encoding='utf-8') as f:
                 data = json.load(f)
         else:
             url = url_or_path or "https://clientconfig.rpg.riotgames.com/api/v1/config/public?namespace=keystone.products.league_of_legends.patchlines"
@@ -406,7 +406,7 @@ class PatcherStorage(Storage):
         path = f"{self.base_release_path()}/latest.timestamp"
         if not os.path.exists(path):
             return None
-        with open(path) as f:
+        with open(path, encoding='utf-8') as f:
             return int(f.read().strip())
 
     def download_manifest(self, id_or_url):
@@ -476,7 +476,7 @@ class PatcherRelease:
         self.storage = storage
         self.version = version
         self.storage_dir = f"{storage.base_release_path()}/{version}"
-        with open(f"{self.storage_dir}/release.json") as f:
+        with open(f"{self.storage_dir}/release.json", encoding='utf-8') as f:
             self.data = json.load(f)
 
     def __str__(self):
@@ -594,7 +594,7 @@ class PatcherReleaseElement:
         cache = f"{self.release.storage_dir}/patch_version.{self.name}"
         if os.path.isfile(cache):
             logger.debug(f"retrieving patch version for {self} from cache")
-            with open(cache) as f:
+            with open(cache, encoding='utf-8') as f:
                 version = f.read().strip()
                 version = PatchVersion(version) if version else None
         else:
@@ -602,7 +602,7 @@ class PatcherReleaseElement:
             if version is None:
                 logger.warning(f"failed to retrieve patch version of {self}")
             else:
-                with open(cache, 'w') as f:
+                with open(cache, 'w', encoding='utf-8') as f:
                     f.write(f"{version}\n")
         return version
 
diff --git a/cdtb/rads.py b/cdtb/rads.py
index c0ec76d..f8df0fe 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -249,7 +249,7 @@ class RadsSolutionVersion:
 
         path = f"{self.path}/solutionmanifest"
         self.solution.storage.download(path, path)
-        with open(self.solution.storage.fspath(path)) as f:
+        with open(self.solution.storage.fspath(path), encoding='utf-8') as f:
             lines = f.read().splitlines()
         assert lines[0] == "RADS Solution Manifest", "unexpected solutionmanifest magic line"
         assert lines[1] == "1.0.0.0", "unexpected solutionmanifest version"
@@ -319,7 +319,7 @@ class RadsSolutionVersion:
         cache = self.solution.storage.fspath(f"{self.path}/_patch_version")
         if os.path.isfile(cache):
             logger.debug(f"retrieving patch version for {self} from cache")
-            with open(cache) as f:
+            with open(cache, encoding='utf-8') as f:
                 version = f.read().strip()
                 version = PatchVersion(version) if version else None
         else:
@@ -327,7 +327,7 @@ class RadsSolutionVersion:
             if version is None:
                 logger.warning(f"failed to retrieve patch version for {self}")
             else:
-                with open(cache, 'w') as f:
+                with open(cache, 'w', encoding='utf-8') as f:
                     f.write(f"{version}\n")
         return version
 
@@ -590,7 +590,7 @@ class BinPackageFile:
 
     @classmethod
     def from_package_manifest(cls, path) -> Generator['BinPackageFile', None, None]:
-        with open(path) as f:
+        with open(path, encoding='utf-8') as f:
             line = f.readline()
             assert line.startswith('PKG1'), "unexpected packagemanifest magic line"
             for line in f:
diff --git a/cdtb/storage.py b/cdtb/storage.py
index ced0e2a..6337bdd 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -133,7 +133,7 @@ class RequestStreamReader:
 _storage_registry = {}
 
 def load_storage_conf(path):
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         conf = json.load(f)
     if 'type' not in conf:
         raise ValueError("storage configuration file must define its 'type'")
@@ -426,7 +426,7 @@ class Patch:
 
 
 def get_system_yaml_version(path) -> str:
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         for line in f:
             # TODO do proper yaml parsing
             # formats: Release/X.Y or 'X.Y'
@@ -446,7 +446,7 @@ def get_exe_version(path) -> str:
 
 def get_content_metadata_version(path) -> str:
     """Return branch version from content-metadata.json file"""
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         data = json.load(f)
         m = re.match(r"^(\d+\.\d+)\.", data['version'])
         if m:
diff --git a/cdtb/tools.py b/cdtb/tools.py
index 3e47101..300b5b5 100644
--- a/cdtb/tools.py
+++ b/cdtb/tools.py
@@ -27,7 +27,7 @@ def write_file_or_remove(path, binary=True):
     """
     try:
         os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
-        with open(path, 'wb' if binary else 'w') as f:
+        with open(path, 'wb' if binary else 'w', encoding=None if binary else 'utf-8') as f:
             yield f
     except:
         # remove partially written file
-- 
2.43.0


From 20c25994a84d52d9f3f5f39a77c215c5d49e98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 48/56] fix: don't keep a partially written patch version cache

---
 cdtb/patcher.py | 2 +-
 cdtb/rads.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 1dedbdf..f9d277a 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -602,7 +602,7 @@ class PatcherReleaseElement:
             if version is None:
                 logger.warning(f"failed to retrieve patch version of {self}")
             else:
-                with open(cache, 'w', encoding='utf-8') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
diff --git a/cdtb/rads.py b/cdtb/rads.py
index f8df0fe..950672f 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -327,7 +327,7 @@ class RadsSolutionVersion:
             if version is None:
                 logger.warning(f"failed to retrieve patch version for {self}")
             else:
-                with open(cache, 'w', encoding='utf-8') as f:
+                with write_file_or_remove(cache, binary=False) as f:
                     f.write(f"{version}\n")
         return version
 
-- 
2.43.0


From f6f5a9228155e23d2969c8f2d464aafa0c2051a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 49/56] fix: don't lose known hashes when the hash list cannot
 be saved

---
 cdtb/hashes.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 31031f1..09e06bb 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -69,9 +69,20 @@ class HashFile:
         return self.hashes
 
     def save(self):
-        with open(self.filename, 'w', newline='', encoding='utf-8') as f:
-            for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
-                print(self.line_format.format(h, s), file=f)
+        # don't lose known hashes if the writing fails
+        path = os.path.realpath(self.filename)
+        tmp = f"{path}.tmp"
+        try:
+            with open(tmp, 'w', newline='', encoding='utf-8') as f:
+                for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
+                    print(self.line_format.format(h, s), file=f)
+            os.replace(tmp, path)
+        except:
+            try:
+                os.remove(tmp)
+            except OSError:
+                pass
+            raise
 
 hashfile_lcu = HashFile(default_hash_dir / "hashes.lcu.txt")
 hashfile_game = HashFile(default_hash_dir / "hashes.game.txt")
-- 
2.43.0


From d625b0d829e3dd2dbc899b1a4f3db3de6ea1b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 50/56] fix: report write errors of converted images

---
 cdtb/export.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index 097d911..14be315 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -634,11 +634,14 @@ class ImageConverter(FileConverter):
         with write_file_or_remove(output_path) as fout:
             try:
                 im = Image.open(fin)
-                im.save(fout)
+                fpng = BytesIO()
+                im.save(fpng, 'PNG')
             except Exception:
                 # "OSError: cannot identify image file" happen for some files with a wrong extension
                 # PIL raises various other exceptions on invalid data
                 raise FileConversionError("cannot convert image to PNG")
+            # not a conversion error if the file cannot be written
+            fout.write(fpng.getvalue())
 
 class TexConverter(FileConverter):
     def __init__(self):
@@ -656,9 +659,12 @@ class TexConverter(FileConverter):
             fdds = BytesIO(self.tex_to_dds(fin.read()))
             try:
                 im = Image.open(fdds)
-                im.save(fout)
+                fpng = BytesIO()
+                im.save(fpng, 'PNG')
             except Exception:
                 raise FileConversionError("cannot convert image to PNG")
+            # not a conversion error if the file cannot be written
+            fout.write(fpng.getvalue())
 
     @staticmethod
     def tex_to_dds(data):
-- 
2.43.0


From 90d4acbcefa2a28c0d3b3c2dafd17c0d6741f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 51/56] fix: don't order RADS projects by hash randomization

---
 cdtb/rads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 950672f..f7d9122 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -288,11 +288,11 @@ class RadsSolutionVersion:
         if langs is False:
             return dependencies[None]
         elif langs is True:
-            return list({pv for pvs in dependencies.values() for pv in pvs})
+            return list(dict.fromkeys(pv for pvs in dependencies.values() for pv in pvs))
         elif isinstance(langs, (str, Language)):
             return dependencies[Language(langs)]
         else:
-            return list({pv for lang in langs for pv in dependencies[Language(lang)]})
+            return list(dict.fromkeys(pv for lang in langs for pv in dependencies[Language(lang)]))
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From 0ee1fafff76ce7fe0eefe646d7827c0e2e1fd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 52/56] fix: keep the last relative index of SKN submeshes
 valid

Indices are 1-based at this point: an index equal to start_vertex is
before the submesh's vertices, so it is relative, and became 0.
---
 cdtb/sknfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/sknfile.py b/cdtb/sknfile.py
index 793f6c1..4f6ed91 100644
--- a/cdtb/sknfile.py
+++ b/cdtb/sknfile.py
@@ -41,7 +41,7 @@ class SknFile:
         for entry in self.entries:
             entry["vertices"] = vertices[entry["start_vertex"] : entry["start_vertex"] + entry["vertex_count"]]
             entry["indices"] = [
-                x - (0 if x < entry["start_vertex"] else entry["start_vertex"])
+                x - (0 if x <= entry["start_vertex"] else entry["start_vertex"])
                 for x in indices[entry["start_index"] : entry["start_index"] + entry["index_count"]]
             ]
 
-- 
2.43.0


From 743e1fc2d966c339c3b52c5d927a1ab97b16d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 53/56] fix: list patches once when client and game are updated
 separately

---
 cdtb/patcher.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index f9d277a..10a0ec2 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -3,6 +3,7 @@ import re
 import io
 import json
 import time
+import heapq
 import hashlib
 import logging
 from typing import List, Optional, Generator
@@ -353,9 +354,17 @@ class PatcherStorage(Storage):
             # add latest release to the storage, if any
             self.fetch_latest_update()
 
-        for release in self.iter_releases():
-            for elem in release.elements():
-                yield PatcherPatchElement(elem)
+        def gen_elements(name):
+            for release in self.iter_releases():
+                elem = release.element(name)
+                if elem is not None:
+                    elem = PatcherPatchElement(elem)
+                    if elem.version is not None:
+                        yield elem
+
+        # client and game are not always updated together: in a release, their versions may differ
+        elements = [gen_elements(name) for name in PatchElement.names]
+        yield from heapq.merge(*elements, key=lambda e: (e.version, e.elem.release.version), reverse=True)
 
     def fetch_latest_update(self):
         """Fetch the latest release from the CDN"""
-- 
2.43.0


From 4b360ccbf346f935508d0f33a53f83c1ec5955f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:15 +0000
Subject: [PATCH 54/56] fix: remove the list of links of a previous export when
 there are no links

---
 cdtb/export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdtb/export.py b/cdtb/export.py
index 14be315..2fc333d 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -378,6 +378,9 @@ class CdragonRawPatchExporter:
             with open(os.path.join(self.output, "cdragon/files.links.txt"), 'w', newline='\n', encoding='utf-8') as f:
                 for link in sorted(symlinked_paths):
                     print(link, file=f)
+        elif os.path.exists(os.path.join(self.output, "cdragon/files.links.txt")):
+            # from a previous export with links
+            os.remove(os.path.join(self.output, "cdragon/files.links.txt"))
 
         with open(os.path.join(self.output, "cdragon/files.unknown.txt"), 'w', newline='\n', encoding='utf-8') as f:
             for h in unknown_hashes:
-- 
2.43.0


From 1aae27c07b79638f4dfb7a695c4ee8299773d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 55/56] fix: substitute skin numbers in a fixed order

---
 cdtb/hashes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index 09e06bb..e33ca33 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -681,7 +681,7 @@ class GameHashGuesser(HashGuesser):
         logger.debug(f"substitute skin numbers: {len(characters)} characters")
         for char, (skins, formats) in progress_iterator(characters.items(), lambda v: v[0]):
             for fmt, nocc in formats:
-                self.check_iter(fmt % p for p in itertools.combinations(skins, nocc))
+                self.check_iter(fmt % p for p in itertools.combinations(sorted(skins), nocc))
 
     def substitute_suffixes(self):
         """Replace `.suffix.ext` using all known suffixes"""
-- 
2.43.0


From cfc72d9d31336436b885d83ddca386a9d8346347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 56/56] fix: substitute skin numbers when a path has the same
 one several times

---
 cdtb/hashes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdtb/hashes.py b/cdtb/hashes.py
index e33ca33..7fb86d2 100644
--- a/cdtb/hashes.py
+++ b/cdtb/hashes.py
@@ -682,6 +682,8 @@ class GameHashGuesser(HashGuesser):
         for char, (skins, formats) in progress_iterator(characters.items(), lambda v: v[0]):
             for fmt, nocc in formats:
                 self.check_iter(fmt % p for p in itertools.combinations(sorted(skins), nocc))
+                # usually, it is the same number everywhere
+                self.check_iter(fmt % ((skin,) * nocc) for skin in skins)
 
     def substitute_suffixes(self):
         """Replace `.suffix.ext` using all known suffixes"""
-- 
2.43.0

