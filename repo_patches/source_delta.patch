From c0b1a21a6daafc5c3586a5177929bd4114fc524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 01/78] fix: order dev, pre, post and local version parts as
 PEP 440 does

Development releases were compared before pre- and post-releases (1.0.post1.dev1 sorted
before 1.0, 1.0rc1.dev1 before 1.0a1), and numeric local segments were never ordered.
---
 pkm/src/pkm/api/versions/version.py | 46 ++++++++++++++++-------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 74b6711..7479a1c 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -288,31 +288,29 @@ def _less(v1: Version, v2: Version) -> bool:
             continue
         return s < o
 
-    if v1.dev_release != v2.dev_release:
-        if (v1.dev_release is None) ^ (v2.dev_release is None):
-            return v2.dev_release is None
-
-        if v1.dev_release != v2.dev_release:
-            return v1.dev_release < v2.dev_release
-
-    if v1.pre_release != v2.pre_release:
-        if (v1.pre_release is None) ^ (v2.pre_release is None):
-            return v2.pre_release is None
-
-        for s, o in zip(v1.pre_release, v2.pre_release):
-            if s == o: continue  # noqa
-            return s < o
+    # an unset pre-release comes after any pre-release, unless this is a development release of the final version
+    # (e.g., 1.0.dev1 < 1.0a1 < 1.0), which comes before all of them
+    v1_pre, v2_pre = _pre_release_key(v1), _pre_release_key(v2)
+    if v1_pre != v2_pre:
+        return v1_pre < v2_pre
 
     if v1.post_release != v2.post_release:
         if (v1.post_release is None) ^ (v2.post_release is None):
             return v1.post_release is None
 
-        s, o = v1.post_release, v2.post_release
-        if s != o:
-            return s < o
+        return v1.post_release < v2.post_release
+
+    if v1.dev_release != v2.dev_release:
+        if (v1.dev_release is None) ^ (v2.dev_release is None):
+            return v2.dev_release is None
+
+        return v1.dev_release < v2.dev_release
 
-    my_local_segments = (v1.local_label or "").split('.')
-    other_local_segments = (v2.local_label or "").split('.')
+    if v1.local_label is None or v2.local_label is None:
+        return v1.local_label is None and v2.local_label is not None
+
+    my_local_segments = v1.local_label.split('.')
+    other_local_segments = v2.local_label.split('.')
 
     for m, o in zip(my_local_segments, other_local_segments):
         if m == o:
@@ -320,10 +318,18 @@ def _less(v1: Version, v2: Version) -> bool:
 
         m_num, o_num = m.isnumeric(), o.isnumeric()
         if m_num and o_num:
-            return int(m_num) < int(o_num)
+            return int(m) < int(o)
         if m_num or o_num:
             return o_num
 
         return m < o
 
     return len(my_local_segments) < len(other_local_segments)
+
+
+def _pre_release_key(version: StandardVersion) -> Tuple:
+    if version.pre_release is not None:
+        return 1, *version.pre_release
+    if version.post_release is None and version.dev_release is not None:
+        return 0,
+    return 2,
-- 
2.43.0


From e94af2fc8aacd2f7a7d8167bc62ce4bed3eece67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 02/78] fix: read every PEP 440 version spelling, reject text
 that is not a version, keep the case of urls

---
 pkm/src/pkm/api/versions/version.py        | 11 +++-
 pkm/src/pkm/api/versions/version_parser.py | 72 ++++++++++++++--------
 2 files changed, 55 insertions(+), 28 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 7479a1c..e45538e 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -74,9 +74,10 @@ class UrlVersion(Version):
 
     @classmethod
     def parse(cls, txt: str) -> UrlVersion:
-        match = VERSION_URL_RX.match(txt.lower())
+        match = VERSION_URL_RX.match(txt)
         parsed_url = Url.parse(match.group('url'))
-        return cls(match.group('url'), match.group('repo'), parsed_url.scheme)
+        protocol = match.group('repo')
+        return cls(match.group('url'), protocol and protocol.lower(), parsed_url.scheme)
 
 
 @dataclass(frozen=True)
@@ -251,7 +252,11 @@ class StandardVersion(Version):
     @classmethod
     def parse(cls, txt: str) -> "StandardVersion":
         from pkm.api.versions.version_parser import VersionParser
-        return VersionParser(txt.lower()).read_version()
+        parser = VersionParser(txt)
+        version = parser.read_version()
+        if parser.is_not_empty():
+            parser.raise_err("unexpected content after the version")
+        return version
 
 
 def _less(v1: Version, v2: Version) -> bool:
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 235a9f3..45a1356 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -1,6 +1,6 @@
 from dataclasses import replace
 from pathlib import Path
-from typing import List
+from typing import List, Optional, Tuple
 
 from pkm.api.versions.version import Version, NamedVersion, StandardVersion, UrlVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, VersionMatch
@@ -9,28 +9,56 @@ from pkm.utils.parsers import SimpleParser
 
 def parse_version(version_str: str) -> Version:
     try:
-        lowered_vstr = version_str.lower()
-        if '://' in lowered_vstr:
-            return UrlVersion.parse(lowered_vstr)
+        if '://' in version_str:
+            return UrlVersion.parse(version_str)
 
-        return VersionParser(lowered_vstr).read_version()
+        return StandardVersion.parse(version_str)
     except ValueError:
         ...
     return NamedVersion(version_str)
 
 
 def parse_specifier(specifier_str: str) -> VersionSpecifier:
-    return VersionParser(specifier_str.lower()).read_specifier()
+    return VersionParser(specifier_str).read_specifier()
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
-    'a': 'a', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'alpha': 'a', 'beta': 'b', 'preview': 'rc'
+    'alpha': 'a', 'a': 'a', 'beta': 'b', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'preview': 'rc', 'pre': 'rc'
 }
 
 
 class VersionParser(SimpleParser):
 
+    def _read_release_part(self, *names: str) -> Optional[Tuple[str, int]]:
+        """
+        reads an optional version part of the form: [separator] name [separator] [number]
+        :param names: the names that the part can have, a name must come before its own prefixes
+        :return: the name that was read and its number, None if there is no such part in the current position
+        """
+        start = self.position
+        self.match_any('.', '-', '_')
+        name = self.match_any(*names)
+        if not name:
+            self.position = start
+            return None
+
+        name_end = self.position
+        self.match_any('.', '-', '_')
+        if not self.peek().isdigit():
+            self.position = name_end
+            return name, 0
+        return name, int(self.read_digits())
+
     def read_version(self) -> StandardVersion:
+        # version identifiers are case-insensitive, but other parts of the text (e.g., urls) are not
+        text = self.text
+        self.text = text.lower()
+        try:
+            return self._read_version()
+        finally:
+            self.text = text
+
+    def _read_version(self) -> StandardVersion:
         self.match_ws()
 
         wrapping_brakets = self.match("(", "")
@@ -48,35 +76,29 @@ class VersionParser(SimpleParser):
         while self.match('.') and self.is_not_empty() and self.peek().isdigit():
             release.append(int(self.read_digits()))
 
+        if self.peek_prev() == '.':
+            self.position -= 1
+
         pre_release = None
-        # pre_release_type = self.peek_prev() != '.' and self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
-        pre_release_type = self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
-        if pre_release_type:
-            self.match_any('.', '-', '_')
-            pre_release_num = 0 if not self.peek().isdigit() else int(self.read_digits())
-            pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[pre_release_type], pre_release_num)
+        if part := self._read_release_part(*_PRE_RELEASE_TYPE_NORMALIZER.keys()):
+            pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[part[0]], part[1])
 
         post_release = None
-
-        if (prev := self.peek_prev()).isdigit() or prev in _PRE_RELEASE_TYPE_NORMALIZER:
-            self.match_any('.', '-', '_')
-        if self.match_any('post', 'r', 'rev') or (self.peek_prev() == '-' and self.peek().isdigit()):
+        if part := self._read_release_part('post', 'rev', 'r'):
+            post_release = part[1]
+        elif self.peek() == '-' and self.peek(2)[1:].isdigit():
             self.match('-')
-            post_release = 0 if not self.peek().isdigit() else int(self.read_digits())
+            post_release = int(self.read_digits())
 
         dev_release = None
-        if self.peek_prev().isdigit():
-            self.match_any('.', '-', '_')
-        if self.match('dev'):
-            dev_release = 0 if not self.peek().isdigit() else int(self.read_digits())
+        if part := self._read_release_part('dev'):
+            dev_release = part[1]
 
         local_label = None
         if self.match('+'):
             local_label = self.until(lambda i, s: s[i] not in ".-_" and not s[i].isalnum())
             local_label = local_label.translate(local_label.maketrans('-_', '..'))
-
-        if self.peek_prev() == '.':
-            self.position -= 1
+            local_label = '.'.join(str(int(it)) if it.isdigit() else it for it in local_label.split('.'))
 
         self.match_ws()
 
-- 
2.43.0


From ea178f9e30ef0680cae3bc4836bdbc2699b939de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 03/78] fix: equal versions hash alike when only one spells the
 zero epoch

---
 pkm/src/pkm/api/versions/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index e45538e..5dd59f1 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -135,7 +135,7 @@ class StandardVersion(Version):
 
     def __hash__(self):
         s = self.standartize()
-        return hash((s.release, s.epoch, s.dev_release, s.post_release, s.pre_release, s.local_label))
+        return hash((s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label))
 
     def is_pre_or_dev_release(self) -> bool:
         return self.pre_release is not None or self.dev_release is not None
-- 
2.43.0


From 52ad00ae27bffeb4ed1a1108bedfb6d6858dd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 04/78] fix: specifier set operations agree with membership and
 leave their operands unchanged

---
 .../pkm/api/versions/version_specifiers.py    | 113 ++++++++++--------
 1 file changed, 66 insertions(+), 47 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 18408b6..9723d64 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -14,7 +14,7 @@ from pkm.utils.seqs import seq
 class VersionSpecifier(ABC):
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        return self.intersect_with(other) == other
+        return other.difference_from(self) is RestrictAllVersions
 
     def allows_any(self, other: VersionSpecifier) -> bool:
         return self.intersect_with(other) is not RestrictAllVersions
@@ -107,7 +107,7 @@ class _RestrictAll(VersionSpecifier):
         return False
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        return False
+        return other is RestrictAllVersions
 
     def __str__(self):
         return "<none>"
@@ -135,9 +135,6 @@ class _AllowAll(VersionSpecifier):
         return other is AllowAllVersions
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        if other is RestrictAllVersions:
-            return other.allows_all(self)
-
         return True
 
     def allows_any(self, other: VersionSpecifier) -> bool:
@@ -207,7 +204,7 @@ class VersionsUnion(VersionSpecifier):
             return other.union_with(self)
 
         new_segments = [*self.segments]
-        other_segments = other.segments if isinstance(other, VersionsUnion) else [other]
+        other_segments = [*other.segments] if isinstance(other, VersionsUnion) else [other]
 
         while other_segments:
             os = other_segments.pop()
@@ -224,7 +221,7 @@ class VersionsUnion(VersionSpecifier):
             else:
                 new_segments.append(os)
 
-        return VersionsUnion(new_segments)
+        return VersionsUnion(new_segments) if len(new_segments) > 1 else new_segments[0]
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
@@ -253,7 +250,7 @@ class HetroVersionIntersection(VersionSpecifier):
         return HashBuilder().unordered_seq(self.blacklist).regular(self.standard_spec).build()
 
     def allows_version(self, version: Version) -> bool:
-        if version in self.blacklist:
+        if not all(VersionMatch(it, False).allows_version(version) for it in self.blacklist):
             return False
 
         return not isinstance(version, StandardVersion) or self.standard_spec.allows_version(version)
@@ -262,30 +259,20 @@ class HetroVersionIntersection(VersionSpecifier):
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
             return other.union_with(self)
 
-        if isinstance(other, HetroVersionIntersection):
-            standard_spec = self.standard_spec.union_with(other.standard_spec)
-            if len(other.blacklist.union(self.blacklist)) != len(self.blacklist):
-                return standard_spec
-
-            return HetroVersionIntersection.create(
-                self.blacklist if len(self.blacklist) < len(other.blacklist) else other.blacklist, standard_spec)
-
-        if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
-
-            blacklist = set(self.blacklist)
-            if other.allow:
-                blacklist.remove(other.version)
-            else:
-                blacklist.add(other.version)
-
-            return HetroVersionIntersection.create(blacklist, self.standard_spec)
+        if isinstance(other, VersionMatch) and not other.allow:
+            return other.union_with(self)
 
-        if isinstance(other, StandardVersionRange):
-            return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
+        # a version stays excluded only if both sides are excluding it
+        blacklist = {it for it in self.blacklist if not other.allows_version(it)}
+        other_spec = other
+        if isinstance(other, HetroVersionIntersection):
+            blacklist.update(it for it in other.blacklist if not self.allows_version(it))
+            other_spec = other.standard_spec
 
-        raise UnsupportedOperationException()
+        standard_spec = self.standard_spec.union_with(other_spec)
+        if isinstance(standard_spec, VersionsUnion):  # disjoint
+            return VersionsUnion([self, other])
+        return HetroVersionIntersection.create(blacklist, standard_spec)
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
@@ -297,9 +284,7 @@ class HetroVersionIntersection(VersionSpecifier):
 
         if isinstance(other, VersionMatch):
             if isinstance(other.version, StandardVersion) and other.allow:
-                if self.standard_spec.allows_version(other.version) and other.version not in self.blacklist:
-                    return other
-                return RestrictAllVersions
+                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.intersect_with(other))
 
             if other.allow:
                 if other.version in self.blacklist:
@@ -314,10 +299,10 @@ class HetroVersionIntersection(VersionSpecifier):
         raise UnsupportedOperationException()
 
     def inverse(self) -> VersionSpecifier:
-        union = [*(VersionMatch(it) for it in self.blacklist)]
-        if self.standard_spec is not AllowAllVersions:
-            union.append(self.standard_spec.inverse())
-        return VersionsUnion(union)
+        result = self.standard_spec.inverse()
+        for it in self.blacklist:
+            result = result.union_with(VersionMatch(it))
+        return result
 
     def __str__(self) -> str:
         result = ", ".join(f"!={it}" for it in self.blacklist)
@@ -350,6 +335,23 @@ class HetroVersionIntersection(VersionSpecifier):
 
     @classmethod
     def create(cls, blacklist: Set[Version], standard_spec: VersionSpecifier) -> VersionSpecifier:
+        if isinstance(standard_spec, VersionsUnion):
+            segments = [cls.create(blacklist, it) for it in standard_spec.segments]
+            segments = [it for it in segments if it is not RestrictAllVersions]
+            if len(segments) < 2:
+                return segments[0] if segments else RestrictAllVersions
+            return VersionsUnion(segments)
+
+        if isinstance(standard_spec, HetroVersionIntersection):
+            blacklist = {*blacklist, *standard_spec.blacklist}
+            standard_spec = standard_spec.standard_spec
+        elif isinstance(standard_spec, VersionMatch):
+            if not standard_spec.allow:
+                blacklist = {*blacklist, standard_spec.version}
+                standard_spec = AllowAllVersions
+            elif not all(VersionMatch(it, False).allows_version(standard_spec.version) for it in blacklist):
+                return RestrictAllVersions
+
         blacklist = {it for it in blacklist if not isinstance(it, StandardVersion) or standard_spec.allows_version(it)}
 
         if standard_spec is RestrictAllVersions:
@@ -392,7 +394,7 @@ class VersionMatch(VersionSpecifier):
 
             return True  # uid versions comes before any standard ones
 
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __eq__(self, other: VersionSpecifier) -> bool:
         return isinstance(other, VersionMatch) \
@@ -416,6 +418,9 @@ class VersionMatch(VersionSpecifier):
         return f'==={v}' if a else f'!=={v}'
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
+        if isinstance(other, HetroVersionIntersection) and not self.allow:
+            return AllowAllVersions if other.allows_version(self.version) else self
+
         if isinstance(other, (_RestrictAll, _AllowAll, HetroVersionIntersection, VersionsUnion)):
             return other.union_with(self)
 
@@ -423,9 +428,18 @@ class VersionMatch(VersionSpecifier):
             if self == other:
                 return self
 
-            if self.version == other.version:
-                if self.allow != other.allow:
+            covers = VersionMatch(self.version).allows_version(other.version)
+            covered = VersionMatch(other.version).allows_version(self.version)
+            if self.allow and other.allow:
+                if covers or covered:
+                    return self if covers else other
+            elif not self.allow and not other.allow:
+                return other if covers else self if covered else AllowAllVersions
+            else:
+                if covers if self.allow else covered:
                     return AllowAllVersions
+                if not covers and not covered:
+                    return other if self.allow else self
 
         if isinstance(other, StandardVersionRange):
             if other.allows_version(self.version):
@@ -458,9 +472,12 @@ class VersionMatch(VersionSpecifier):
                     return self if self.version.is_local() else other
                 return RestrictAllVersions
             if self.allow or other.allow:
+                allowed, denied = (self, other) if self.allow else (other, self)
                 if my_ver == ot_ver:
+                    if denied.version.is_local() and not allowed.version.is_local():
+                        return HetroVersionIntersection({denied.version}, allowed)
                     return RestrictAllVersions
-                return self if self.allow else other
+                return allowed
             return HetroVersionIntersection({self.version, other.version}, AllowAllVersions)
 
         if isinstance(other, StandardVersionRange) and isinstance(self.version, StandardVersion):
@@ -522,7 +539,7 @@ class StandardVersionRange(VersionSpecifier):
 
             return bool(self.max)
 
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __eq__(self, other):
         return isinstance(other, StandardVersionRange) and self.includes_min == other.includes_min \
@@ -536,7 +553,7 @@ class StandardVersionRange(VersionSpecifier):
         if self.includes_min and (not self.includes_max) \
                 and self.min and self.max \
                 and len(smr := self.min.release) > 1 \
-                and self.max.release == (*smr[:-2], smr[-2] + 1, 0):
+                and self.max == StandardVersion((*smr[:-2], smr[-2] + 1, 0), epoch=self.min.epoch):
 
             return f"~={self.min}"
 
@@ -561,16 +578,18 @@ class StandardVersionRange(VersionSpecifier):
         if other < self:
             return other._union_with(self)
 
-        imin, imax = self.includes_min, other.includes_max
+        imin, imax, max_ = self.includes_min, other.includes_max, other.max
         if not other.min or not self.max or other.min < self.max:
             if self.min == other.min:
                 imin = self.includes_min or other.includes_min
             if self.max == other.max:
                 imax = self.includes_max or other.includes_max
+            elif not self.max or (other.max and other.max < self.max):  # other is nested in self
+                max_, imax = self.max, self.includes_max
         elif (not self.includes_max and not other.includes_min) or other.min != self.max:
             return VersionsUnion([self, other])
 
-        return VersionSpecifier.create_range(self.min, other.max, imin, imax)
+        return VersionSpecifier.create_range(self.min, max_, imin, imax)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion, HetroVersionIntersection, VersionMatch)):
@@ -581,7 +600,7 @@ class StandardVersionRange(VersionSpecifier):
                 return self
             return self._union_with(other)
 
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def _intersect_with(self, other: StandardVersionRange) -> VersionSpecifier:
         if other < self:
@@ -613,7 +632,7 @@ class StandardVersionRange(VersionSpecifier):
                 return self
 
             return self._intersect_with(other)
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def allows_version(self, version: Version) -> bool:
         min_, max_ = self.min, self.max
-- 
2.43.0


From 8c3c25c8c15eebc7031a601e3638162759c5d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 05/78] fix: write version specifiers as PEP 440 clauses in
 requirements and metadata

---
 pkm/src/pkm/api/dependencies/dependency.py    |  6 +-
 pkm/src/pkm/api/dependencies/env_markers.py   |  6 ++
 pkm/src/pkm/api/packages/package_metadata.py  |  4 +-
 pkm/src/pkm/api/versions/version_parser.py    |  4 +-
 .../pkm/api/versions/version_specifiers.py    | 70 ++++++++++++++++++-
 pkm/src/pkm/config/configclass.py             | 12 +++-
 6 files changed, 94 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index da92f0b..4662c94 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -56,9 +56,11 @@ class Dependency:
     def __str__(self):
         extras_str = f"[{','.join(self.extras)}]" if self.extras else ''
 
-        version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
+        version_str = "" if self.version_spec is AllowAllVersions else f" {self.version_spec.to_pep440()}"
 
-        marker_str = f";{self.env_marker}" if self.env_marker else ''
+        # a url is terminated by a white space
+        marker_sep = " ;" if self.required_url() else ";"
+        marker_str = f"{marker_sep}{self.env_marker}" if self.env_marker else ''
 
         return f"{self.package_name}{extras_str}{version_str}{marker_str}"
 
diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 8c98a18..e273d8b 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -27,6 +27,12 @@ class EnvironmentMarker:
     def __str__(self) -> str:
         return self._expr
 
+    def __eq__(self, other) -> bool:
+        return isinstance(other, EnvironmentMarker) and self._expr == other._expr
+
+    def __hash__(self):
+        return hash(self._expr)
+
     @classmethod
     def parse_pep508(cls, text: str) -> "EnvironmentMarker":
         return PEP508EnvMarkerParser(text).read_marker()
diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 84360f6..ab61e16 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -118,7 +118,9 @@ class PackageMetadata(ConfigFile):
             'Author': ', '.join(author_names), 'Author-email': ', '.join(author_emails),
             'Maintainer': ', '.join(maintainer_names), 'Maintainer-email': ', '.join(maintainer_emails),
             'License': prjc.license_content(), 'Classifier': prjc.classifiers,
-            'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),
+            'Requires-Dist': [str(d) for d in all_deps],
+            'Requires-Python': prjc.requires_python.to_pep440()
+            if prjc.requires_python is not AllowAllVersions else None,
             'Provides-Extra': extras,
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
         }
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 45a1356..a8617a7 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -128,8 +128,8 @@ class VersionParser(SimpleParser):
 
         if self.match('==='):
             self.match_ws()
-            version_str = self.until(lambda i, t: t[i].isspace() or t[i] == ',')
-            return VersionMatch(NamedVersion(version_str))
+            version_str = self.until(lambda i, t: t[i].isspace() or t[i] in ',;)')
+            return VersionMatch(parse_version(version_str))
 
         exclusion_inclusion = self.match_any('==', '!=')
         if exclusion_inclusion:
diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 9723d64..970229e 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from abc import abstractmethod, ABC
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from typing import List, Optional, Set
 
 from pkm.api.versions.version import Version, StandardVersion, UrlVersion
@@ -45,6 +45,13 @@ class VersionSpecifier(ABC):
     def __str__(self) -> str:
         ...
 
+    def to_pep440(self) -> str:
+        """
+        :return: this specifier as it should be written in requirements and metadata files: using PEP 440 clauses only
+            (in contrast to `str`, which can describe unions). fallback to `str` if there is no such representation.
+        """
+        return str(self)
+
     @abstractmethod
     def __lt__(self, other: VersionSpecifier) -> VersionSpecifier:
         ...
@@ -199,6 +206,35 @@ class VersionsUnion(VersionSpecifier):
                     return f"!={s1.max}"
         return seq(segs).str_join('; ')
 
+    def to_pep440(self) -> str:
+        bounds: List[str] = []
+        exclusions: List[str] = []
+        prev_upper = None
+        for segment in self.segments:
+            if isinstance(segment, HetroVersionIntersection):
+                exclusions.extend(f"!={it}" for it in sorted(segment.blacklist))
+                segment = segment.standard_spec
+
+            if isinstance(segment, VersionMatch) and segment.allow and isinstance(segment.version, StandardVersion):
+                lower = upper = segment.version, True
+            elif isinstance(segment, StandardVersionRange):
+                lower, upper = (segment.min, segment.includes_min), (segment.max, segment.includes_max)
+            else:
+                return str(self)
+
+            if prev_upper:
+                gap_exclusions = _gap_exclusions(*prev_upper, *lower)
+                if not gap_exclusions:
+                    return str(self)
+                exclusions.extend(gap_exclusions)
+            elif lower[0]:
+                bounds.append(f">{'=' if lower[1] else ''}{lower[0]}")
+            prev_upper = upper
+
+        if prev_upper[0]:
+            bounds.append(f"<{'=' if prev_upper[1] else ''}{prev_upper[0]}")
+        return ", ".join([*bounds, *exclusions])
+
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
             return other.union_with(self)
@@ -233,6 +269,36 @@ class VersionsUnion(VersionSpecifier):
         return result
 
 
+def _gap_exclusions(
+        upper: StandardVersion, includes_upper: bool, lower: StandardVersion, includes_lower: bool) -> List[str]:
+    """
+    :return: the PEP 440 exclusion clauses (!=) that are equivalent to the gap between the upper bound of a range to
+        the lower bound of its following range, empty if there are no such clauses
+    """
+    if includes_upper:
+        return []
+    if not includes_lower:
+        return [f"!={upper}"] if upper == lower else []
+    if any(replace(it, release=(0,)) != StandardVersion((0,), epoch=upper.epoch) for it in (upper, lower)):
+        return []
+
+    result = []
+    current = upper
+    while current < lower:
+        current = current.standartize()
+        for size in range(len(current.release), len(lower.release) + len(upper.release) + 1):
+            release = (*current.release, *((0,) * (size - len(current.release))))
+            following = replace(current, release=(*release[:-1], release[-1] + 1))
+            if following <= lower:
+                result.append(f"!={replace(current, release=release)}.*")
+                current = following
+                break
+        else:
+            return []
+
+    return result
+
+
 @dataclass
 class HetroVersionIntersection(VersionSpecifier):
     blacklist: Set[Version]
@@ -305,7 +371,7 @@ class HetroVersionIntersection(VersionSpecifier):
         return result
 
     def __str__(self) -> str:
-        result = ", ".join(f"!={it}" for it in self.blacklist)
+        result = ", ".join(f"!={it}" for it in sorted(self.blacklist))
         if self.standard_spec is not AllowAllVersions:
             result += f", {self.standard_spec}"
         return result
diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 39b3f94..94368df 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -167,6 +167,13 @@ class _ParsableFieldCodec(ConfigFieldCodec):
         return str(v)
 
 
+class _VersionSpecifierFieldCodec(_ParsableFieldCodec):
+    def unparse(self, parent: ConfigCodec, type_: Type, v: _T) -> Any:
+        from pkm.api.versions.version_specifiers import AllowAllVersions
+        return v.to_pep440() if v is not AllowAllVersions else None
+
+
+_VersionSpecifierFieldCodec = _VersionSpecifierFieldCodec()
 _ParsableFieldCodec = _ParsableFieldCodec()
 
 
@@ -219,7 +226,7 @@ def _common_codecs() -> Dict[Type, ConfigFieldCodec]:
     _COMMON_CODECS = {
         str: _IDFieldCodec, int: _IDFieldCodec, bool: _IDFieldCodec, dict: _DictFieldCodec(), list: _ListFieldCodec(),
         Path: StringableFieldCodec, Version: _ParsableFieldCodec, Dependency: _ParsableFieldCodec,
-        VersionSpecifier: _ParsableFieldCodec, Any: _IDFieldCodec,
+        VersionSpecifier: _VersionSpecifierFieldCodec, Any: _IDFieldCodec,
         PackageDescriptor: config_field_codec(PackageDescriptor.read, lambda v: v.write())}
 
     _common_codecs = lambda: _COMMON_CODECS  # noqa
@@ -361,6 +368,9 @@ class ConfigCodec:
                 else:
                     raise ValueError(f"no codec could be found for type: {schema.type}")
 
+                if value is None:
+                    continue
+
                 _shove_key(target_config, schema.key or field, value)
         return target_config
 
-- 
2.43.0


From 04e4343c38dfae55f4c641efa2a78fd3e45c881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 06/78] fix: refuse to bump an unknown version particle

---
 pkm/src/pkm/api/versions/version.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 5dd59f1..bf9236b 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -173,6 +173,9 @@ class StandardVersion(Version):
                 return None
 
         def bump_pre_release(v: StandardVersion, p: str) -> Optional[Version]:
+            if p not in ('a', 'b', 'rc'):
+                return None
+
             pre_release = v.pre_release
             if pre_release:
                 if pre_release[0] > p:
-- 
2.43.0


From 587d1ca76199f23727543c86d893aa823c03d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 07/78] fix: a separator may end a version part

---
 pkm/src/pkm/api/versions/version_parser.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index a8617a7..a5cb820 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -42,12 +42,8 @@ class VersionParser(SimpleParser):
             self.position = start
             return None
 
-        name_end = self.position
         self.match_any('.', '-', '_')
-        if not self.peek().isdigit():
-            self.position = name_end
-            return name, 0
-        return name, int(self.read_digits())
+        return name, int(self.read_digits()) if self.peek().isdigit() else 0
 
     def read_version(self) -> StandardVersion:
         # version identifiers are case-insensitive, but other parts of the text (e.g., urls) are not
-- 
2.43.0


From 55cba1e3622b2be30bc85aa551dfe7af1c071f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 08/78] fix: write an unsatisfiable specifier as a PEP 440
 clause

---
 pkm/src/pkm/api/versions/version_specifiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 970229e..1963d7a 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -119,6 +119,9 @@ class _RestrictAll(VersionSpecifier):
     def __str__(self):
         return "<none>"
 
+    def to_pep440(self) -> str:
+        return "<0.dev0"  # there is no smaller version
+
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         return other
 
-- 
2.43.0


From 1d2e01fd47fd53343b1f4a8c6ac7648abfd4ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 09/78] fix: evaluate environment markers as PEP 508 defines

Strings may contain 'J', === is recognised, version rules apply only when both
sides are versions, extras are compared by normalized names, and content after a
marker is rejected.
---
 pkm/src/pkm/api/dependencies/env_markers.py | 82 ++++++++++++++-------
 1 file changed, 56 insertions(+), 26 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index e273d8b..654e820 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -1,6 +1,8 @@
+import operator
+import re
 from typing import Callable, Optional, List, Sequence, TYPE_CHECKING
 
-from pkm.api.versions.version import Version
+from pkm.api.versions.version import StandardVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.parsers import SimpleParser
 
@@ -35,11 +37,50 @@ class EnvironmentMarker:
 
     @classmethod
     def parse_pep508(cls, text: str) -> "EnvironmentMarker":
-        return PEP508EnvMarkerParser(text).read_marker()
+        parser = PEP508EnvMarkerParser(text)
+        marker = parser.read_marker()
+        if not parser.is_empty():
+            parser.raise_err('unexpected content after environment marker')
+        return marker
 
 
 _MARKER_STR_CHARS = set(
-    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIZKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
+    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
+
+_PYTHON_OPS = {
+    "<=": operator.le, "<": operator.lt, ">=": operator.ge, ">": operator.gt,
+    "==": operator.eq, "===": operator.eq, "!=": operator.ne
+}
+
+
+def _compare_extras(requested: _EXTRAS_T, op: str, extra: str) -> bool:
+    if op not in ('==', '===', '!='):
+        raise ValueError(f"cannot compare extras using the operator: {op}")
+
+    def normalize(name: str) -> str:
+        return re.sub("[-_.]+", "-", name).lower()
+
+    return (normalize(extra) in (normalize(it) for it in requested)) == (op != '!=')
+
+
+def _compare(left: str, op: str, right: str) -> bool:
+    """
+    compare `left` to `right` as versions if both are valid ones (`right` may contain a wildcard),
+    otherwise - compare them as strings
+    """
+    if op == '===':
+        return left == right
+
+    try:
+        version = StandardVersion.parse(left)
+        StandardVersion.parse(right[:-len(".*")] if op in ('==', '!=') and right.endswith(".*") else right)
+        spec = VersionSpecifier.parse(f"{op} {right}")
+    except ValueError:
+        if op == '~=':
+            raise
+        return _PYTHON_OPS[op](left, right)
+
+    return spec.allows_version(version)
 
 
 class PEP508EnvMarkerParser(SimpleParser):
@@ -58,7 +99,7 @@ class PEP508EnvMarkerParser(SimpleParser):
         return content
 
     def _read_marker_var(self) -> _MARKER_GET_T:
-        if self.peek() in '"\'':
+        if self.is_not_empty() and self.peek() in '"\'':
             v_str = self._read_str()
             return lambda e, x: v_str
         else:
@@ -70,35 +111,24 @@ class PEP508EnvMarkerParser(SimpleParser):
             return lambda e, x: e.markers[v_ident]
 
     def _read_marker_op(self) -> _MARKER_OP_T:
-        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "==", "===", "~=")
+        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "===", "==", "~=")
         if version_or_string_op:
             def _op(a: Sequence[str], b: Sequence[str]) -> bool:
+                if isinstance(a, _EXTRAS_COLLECTION_T):
+                    return _compare_extras(a, version_or_string_op, b)
+                elif isinstance(b, _EXTRAS_COLLECTION_T):
+                    return _compare_extras(b, version_or_string_op, a)
 
-                if version_or_string_op in ('==', '==='):
-                    if isinstance(a, _EXTRAS_COLLECTION_T):
-                        return b in a
-                    elif isinstance(b, _EXTRAS_COLLECTION_T):
-                        return a in b
-
-                try:
-                    a_ver = Version.parse(str(a))
-                    spec = VersionSpecifier.parse(f"{version_or_string_op} {b}")
-                    return spec.allows_version(a_ver)
-                except ValueError:
-                    if version_or_string_op == '~=':
-                        raise
-                    return eval(f"{repr(str(a))} {version_or_string_op} {repr(str(b))}")
+                return _compare(a, version_or_string_op, b)
 
             return _op
 
-        string_op: str = self.match("in") or (self.match("not", "in") and "not in")
-        if not string_op:
-            self.raise_err("could not parse operator")
-
-        def _op(a: Sequence[str], b: Sequence[str]) -> bool:
-            return eval(f"{repr(str(a))} {string_op} {repr(str(b))}")
+        if self.match("in"):
+            return lambda a, b: a in b
+        if self.match("not", "in"):
+            return lambda a, b: a not in b
 
-        return _op
+        self.raise_err("could not parse operator")
 
     def _read_marker_expr(self) -> _MARKER_PRED_T:
         self.match_ws()
-- 
2.43.0


From b6e6e027a1ae291588d64275709579ff8ab0b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 10/78] fix: reject malformed dependencies instead of reading
 part of them, accept every PEP 508 name

---
 pkm/src/pkm/api/dependencies/dependency.py | 21 ++++++++++++++++-----
 pkm/src/pkm/api/packages/package.py        |  2 +-
 pkm/src/pkm/api/versions/version_parser.py |  9 ++++++---
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 4662c94..df64469 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from dataclasses import dataclass, replace
 from typing import Optional, List, TYPE_CHECKING
 
@@ -69,7 +70,15 @@ class Dependency:
 
     @classmethod
     def parse(cls, text: str) -> "Dependency":
-        return PEP508DependencyParser(text).read_dependency()
+        parser = PEP508DependencyParser(text)
+        dependency = parser.read_dependency()
+        parser.match_ws()
+        if not parser.is_empty():
+            parser.raise_err('unexpected content after dependency')
+        return dependency
+
+
+_IDENTIFIER_RX = re.compile("[A-Za-z0-9_](?:[A-Za-z0-9_.-]*[A-Za-z0-9])?")
 
 
 class PEP508DependencyParser(SimpleParser):
@@ -78,7 +87,8 @@ class PEP508DependencyParser(SimpleParser):
         self.match_or_err('[', 'expecting extras start ([)')
         extras: List[str] = []
 
-        while self.is_not_empty():
+        self.match_ws()
+        while self.is_not_empty() and self.peek() != ']':
             self.match_ws()
             extras.append(self._read_identifier())
             self.match_ws()
@@ -93,8 +103,9 @@ class PEP508DependencyParser(SimpleParser):
         return self.subparser(VersionParser).read_specifier()
 
     def _read_identifier(self) -> str:
-        if (p := self.peek()).isalpha() or p == '_':
-            return self.until(lambda i, t: not t[i].isalnum() and t[i] not in '_-.')
+        if identifier := _IDENTIFIER_RX.match(self.text, self.position):
+            self.position = identifier.end()
+            return identifier.group()
         self.raise_err('expecting identifier')
 
     def read_emarker(self) -> EnvironmentMarker:
@@ -109,7 +120,7 @@ class PEP508DependencyParser(SimpleParser):
 
         extras: Optional[List[str]] = None
         if self.peek() == '[':
-            extras = self._read_extras()
+            extras = self._read_extras() or None
             self.match_ws()
 
         version_spec: VersionSpecifier = AllowAllVersions
diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 7e4c57f..c6d7e89 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -69,7 +69,7 @@ class PackageDescriptor:
 
     @staticmethod
     def package_name_key(package_name: str) -> str:
-        return PackageDescriptor.normalize_src_package_name(package_name).lower()
+        return re.sub("_+", "_", PackageDescriptor.normalize_src_package_name(package_name)).lower()
 
     @staticmethod
     def normalize_src_package_name(package_name: str) -> str:
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index a5cb820..61d398d 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -117,6 +117,8 @@ class VersionParser(SimpleParser):
         if self.match('@'):
             self.match_ws()
             url = self.until(lambda i, s: s[i].isspace())
+            if not url:
+                self.raise_err('expecting url')
             if "://" not in url:
                 url = Path(url).resolve().as_uri()
 
@@ -183,8 +185,9 @@ class VersionParser(SimpleParser):
             specifier = specifier.intersect_with(self._read_single_specifier())
             self.match_ws()
             if not self.match(',') and self.is_not_empty():
-                if not paren or self.match(')'):
-                    break
-                self.raise_err("expecting comma (',')")
+                break
+
+        if paren:
+            self.match_or_err(')', "expecting comma (',') or closing paren")
 
         return specifier
-- 
2.43.0


From 624c65fea205762410502c4176af39a513497506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 11/78] fix: tell apart excluded versions from unneeded
 packages while resolving, and lose no dependency

The solver mixed the term "any version outside C" with "not selected at all",
rejecting solvable problems or never ending on them, kept only the last of several
dependencies on the same package, and lost dependencies whose incompatibility was
extended after an equal one was already known.
---
 pkm/src/pkm/resolution/pubgrub.py | 193 +++++++++++++-----------------
 1 file changed, 81 insertions(+), 112 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index d877a77..fd77603 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -43,41 +43,44 @@ class MalformedPackageException(Exception):
 class Term:
     package: PKG
     constraint: VersionSpecifier
+    # True if the term also holds when the package is not selected at all
+    optional: bool = False
 
     def negate(self) -> "Term":
-        return Term(self.package, self.constraint.inverse())
+        return Term(self.package, self.constraint.inverse(), not self.optional)
 
     def intersect(self, other: "Term") -> "Term":
         assert self.package == other.package, 'cannot intersect terms of different packages'
-        return Term(self.package, self.constraint.intersect_with(other.constraint))
+        return Term(
+            self.package, self.constraint.intersect_with(other.constraint), self.optional and other.optional)
 
-    def satisfies(self, constraint: VersionSpecifier) -> bool:
-        """self ⊆ term"""
-        return constraint.allows_all(self.constraint)
+    def union(self, other: "Term") -> "Term":
+        assert self.package == other.package, 'cannot unite terms of different packages'
+        return Term(self.package, self.constraint.union_with(other.constraint), self.optional or other.optional)
 
-    @classmethod
-    def join(cls, package: PKG, terms: Iterable["Term"]) -> "Term":
-        terms_iter = iter(terms)
-        first_term = next(terms_iter, None)
+    def satisfies(self, other: "Term") -> bool:
+        """self ⊆ other"""
+        return (other.optional or not self.optional) and other.constraint.allows_all(self.constraint)
 
-        if not first_term:
-            return Term.create(package, "*")
+    def contradicts(self, other: "Term") -> bool:
+        """self ∩ other = ∅"""
+        return not (self.optional and other.optional) and not self.constraint.allows_any(other.constraint)
 
-        next_term = next(terms_iter, None)
-        if not next_term:
-            return first_term
+    def is_impossible(self) -> bool:
+        return self.constraint is RestrictAllVersions and not self.optional
 
-        package = first_term.package
-        constraint = first_term.constraint
+    def is_always_satisfied(self) -> bool:
+        return self.constraint is AllowAllVersions and self.optional
 
-        while next_term is not None:
-            constraint = constraint.intersect_with(next_term.constraint)
-            next_term = next(terms_iter, None)
-
-        return cls(package, constraint)
+    @classmethod
+    def join(cls, package: PKG, terms: Iterable["Term"]) -> "Term":
+        result = Term(package, AllowAllVersions, True)
+        for term in terms:
+            result = result.intersect(term)
+        return result
 
     def __repr__(self):
-        return f"[{self.package} {self.constraint}]"
+        return f"[{'optional ' if self.optional else ''}{self.package} {self.constraint}]"
 
     @classmethod
     def create(cls, package: PKG, constraint: str) -> "Term":
@@ -90,7 +93,7 @@ class Assignment:
     decision_level: int
     order_index: int
     cause: Optional["Incompatibility"]
-    accumulated: VersionSpecifier
+    accumulated: Term
 
     def is_decision(self) -> bool:
         return self.cause is None
@@ -104,16 +107,19 @@ class PartialSolution:
         self._root_package = root_package
         self._assignments_by_order: List[Assignment] = []
         self.assignments_by_package: DefaultDict[PKG, List[Assignment]] = defaultdict(list)
-        self._required_packages: Dict[PKG, int] = {}
         self._decisions: Dict[PKG, Assignment] = {}
 
     def notify_state(self, current_package: PKG, monitor: DependencyResolutionMonitoredOp):
         # noinspection PyTypeChecker
-        DependencyResolutionIterationEvent(self._decisions.keys(), self._required_packages.keys(), current_package) \
+        DependencyResolutionIterationEvent(self._decisions.keys(), self._required_packages(), current_package) \
             .notify(monitor)
 
+    def _required_packages(self) -> List[PKG]:
+        return [package for package, assignments in self.assignments_by_package.items()
+                if assignments and not assignments[-1].accumulated.optional]
+
     def undecided_packages(self) -> List[PKG]:
-        return [req for req in self._required_packages if req not in self._decisions]
+        return [req for req in self._required_packages() if req not in self._decisions]
 
     def requirement_decision_level(self, package: PKG) -> int:
         """
@@ -121,19 +127,13 @@ class PartialSolution:
         :param package: the package to check
         :return: the decision level if the package is required, otherwise -1
         """
-        return self._required_packages.get(package) or -1
+        return next((it.decision_level for it in self.assignments_by_package[package]
+                     if not it.accumulated.optional), -1)
 
     @property
     def _decision_level(self) -> int:
         return max(0, len(self._decisions) - 1)
 
-    def requiering_decision(self, package: PKG):
-        decision_level = self._required_packages[package]
-        result = next((acc for acc in self._decisions.values() if acc.decision_level == decision_level), None)
-        assert result, f"requiring decision could not be found for package {package} " \
-                       f"- no decider for level {decision_level}"
-        return result
-
     def backtrack(self, decision_level: int):
         # print(f"backtrack to decision_level: {decision_level}")
 
@@ -148,40 +148,25 @@ class PartialSolution:
 
         self.assignments_by_package = assignments_by_package
 
-        self._required_packages = {
-            package: req_decision_level
-            for package, req_decision_level in self._required_packages.items()
-            if req_decision_level <= decision_level
-        }
-
         self._decisions = {
             package: decision
             for package, decision in self._decisions.items()
             if decision.decision_level <= decision_level
         }
 
-    def require(self, packages: Iterable[PKG]):
-        required_packages = self._required_packages
-        for package in packages:
-            if package not in required_packages:
-                required_packages[package] = self._decision_level
-
-    def requires(self, package: PKG) -> bool:
-        return package in self._required_packages
-
     def make_assignment(self, assignment_value: Term, cause: Optional["Incompatibility"] = None):
         package_assignments = self.assignments_by_package[assignment_value.package]
 
-        accumulated_constraint = assignment_value.constraint
+        accumulated = assignment_value
         if package_assignments:
-            accumulated_constraint = package_assignments[-1].accumulated.intersect_with(accumulated_constraint)
+            accumulated = package_assignments[-1].accumulated.intersect(assignment_value)
 
         dlevel = self._decision_level
 
         if cause is None and assignment_value.package != self._root_package:
             dlevel += 1
 
-        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated_constraint)
+        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated)
 
     def assign(self, assignment_value: Union[Term, Assignment], cause: Optional["Incompatibility"] = None):
         assignment = self.make_assignment(assignment_value, cause) \
@@ -229,18 +214,17 @@ class IncompatibilitySatisfaction:
             solution: "PartialSolution", term: Term, next_satisfier: Optional[Assignment] = None
     ) -> Optional[Assignment]:
 
-        if package_assignments := solution.assignments_by_package[term.package]:
-            if term.constraint.allows_all(package_assignments[-1].accumulated):
-                for assignment in package_assignments:
-                    if assignment is next_satisfier:
-                        return None
-
-                    acc = assignment.accumulated
-                    if next_satisfier:
-                        if term.constraint.allows_all(acc.intersect_with(next_satisfier.term.constraint)):
-                            return assignment
-                    elif term.constraint.allows_all(acc):
-                        return assignment
+        # if the next satisfier is enough by itself then there is no need for a previous one
+        if next_satisfier and next_satisfier.term.satisfies(term):
+            return None
+
+        for assignment in solution.assignments_by_package[term.package]:
+            if assignment is next_satisfier:
+                return None
+
+            acc = assignment.accumulated
+            if (acc.intersect(next_satisfier.term) if next_satisfier else acc).satisfies(term):
+                return assignment
         return None
 
     @classmethod
@@ -259,9 +243,6 @@ class IncompatibilitySatisfaction:
         satisfier = satisfiers.pop(satisfier_index)
 
         for term in incompatibility.terms:
-            if solution.requires(term.package):
-                satisfiers.append(solution.requiering_decision(term.package))
-
             if term.package == satisfier.term.package:
                 if prev_satisfier := cls.find_satisfier(solution, term, satisfier):
                     satisfiers.append(prev_satisfier)
@@ -299,13 +280,13 @@ class Incompatibility:
 
         for term in self.terms:
             package_assignments = assignments[term.package]
-            if package_assignments and package_assignments[-1].accumulated is RestrictAllVersions:
+            if package_assignments and package_assignments[-1].accumulated.is_impossible():
                 return IncompatibilitySatisfaction.create_unsatisfied(self)
 
         for term in self.terms:
             satisfier = IncompatibilitySatisfaction.find_satisfier(solution, term)
-            if not satisfier and (assignments := solution.assignments_by_package[term.package]) \
-                    and not assignments[-1].accumulated.allows_any(term.constraint):
+            if not satisfier and (package_assignments := assignments[term.package]) \
+                    and package_assignments[-1].accumulated.contradicts(term):
                 return IncompatibilitySatisfaction.create_unsatisfied(self)
 
             if not satisfier:
@@ -421,8 +402,8 @@ class Incompatibility:
         for term in terms:
             grouped_terms[term.package].append(term)
 
-        normalized_terms = [Term.join(package, terms)
-                            for package, terms in grouped_terms.items()]
+        normalized_terms = [term for package, terms in grouped_terms.items()
+                            if not (term := Term.join(package, terms)).is_always_satisfied()]
 
         sorted_terms = sorted(normalized_terms, key=lambda x: str(x.package))
         return cls(tuple(sorted_terms), internal_cause, external_cause)
@@ -435,24 +416,15 @@ class Incompatibility:
 
 class DependencyIncompatibility(Incompatibility):
     def __init__(self, dependant: Term, dependency: Term):
-        super().__init__(
-            tuple(sorted([dependency.negate(), dependant], key=lambda x: str(x.package))), None,
-            f"{dependant} depends on {dependency}")
+        super().__init__(self._terms_of(dependant, dependency), None, f"{dependant} depends on {dependency}")
 
         self.dependant = dependant
         self.dependency = dependency
         self.added = False
 
-    def check_satisfaction(self, solution: "PartialSolution") -> IncompatibilitySatisfaction:
-        if dependant_assignments := solution.assignments_by_package[self.dependant.package]:
-            dependant_assignment = dependant_assignments[-1]
-            acc = dependant_assignment.accumulated
-
-            if acc.allows_any(self.dependant.constraint) or \
-                    (acc is not RestrictAllVersions and self.dependant.constraint.allows_all(acc)):
-                return super().check_satisfaction(solution)
-
-        return IncompatibilitySatisfaction.create_unsatisfied(self)
+    @staticmethod
+    def _terms_of(dependant: Term, dependency: Term) -> Tuple[Term, ...]:
+        return Incompatibility.create([dependency.negate(), dependant]).terms
 
     def update_dependant(self, new_dependant: Term):
         package = str(new_dependant.package)
@@ -460,7 +432,7 @@ class DependencyIncompatibility(Incompatibility):
             "attempting to update dependency incompatibility with a term that does not belongs to it"
 
         self.dependant = new_dependant
-        self.terms = tuple(sorted([self.dependency.negate(), new_dependant], key=lambda x: str(x.package)))
+        self.terms = self._terms_of(new_dependant, self.dependency)
         self.external_cause = f"{new_dependant} depends on {self.dependency}"
 
 
@@ -479,9 +451,13 @@ class _PackageVersion:
     def fetch_dependencies_info(self, problem: Problem):
         if not self.dependencies:
             version_dependencies = problem.get_dependencies(self.term.package, self.version)
+            dependencies_by_package: Dict[PKG, List[Term]] = defaultdict(list)
+            for d in version_dependencies:
+                dependencies_by_package[d.package].append(d)
+
             self.dependencies = {
-                d.package: PackageDependency(d)
-                for d in version_dependencies}
+                package: PackageDependency(Term.join(package, terms))
+                for package, terms in dependencies_by_package.items()}
 
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
@@ -509,8 +485,9 @@ class _PackageVersion:
                              incompatibility.dependant.constraint.union_with(self.effective_constraint_range)))
                     continue
 
-            nt = Term(self.term.package, self.effective_constraint_range)
-            dependency.incompatibility = DependencyIncompatibility(nt, dependency.term)
+            if not dependency.incompatibility:
+                nt = Term(self.term.package, self.effective_constraint_range)
+                dependency.incompatibility = DependencyIncompatibility(nt, dependency.term)
             result.append(dependency.incompatibility)
 
         return result
@@ -579,7 +556,8 @@ class Solver(Generic[PKG_T]):
         # print(f'adding incompatibility: {incompatibility}')
         for term in incompatibility.terms:
             term_incompatibilities = self._incompatibilities[term.package]
-            if incompatibility not in term_incompatibilities:
+            # dependency incompatibilities may change after they are added, so they must always be tracked
+            if isinstance(incompatibility, DependencyIncompatibility) or incompatibility not in term_incompatibilities:
                 term_incompatibilities.append(incompatibility)
 
     def solve(self) -> Dict[PKG_T, Version]:
@@ -588,8 +566,6 @@ class Solver(Generic[PKG_T]):
             self._add_incompatibility(
                 Incompatibility.create([root_term.negate()], external_cause='Root Project'))
 
-            self._solution.require([root_term.package])
-
             next_package = root_term.package
             while next_package is not None:
                 self._solution.notify_state(next_package, mop)
@@ -660,25 +636,16 @@ class Solver(Generic[PKG_T]):
                 self._solution.assign(term.negate(), incompatibility)
                 return term.package
 
-            prior_cause_terms: Set[Term] = {
-                term for term in chain(incompatibility.terms, satisfier.cause.terms)
-                if term.package != satisfier.term.package}
+            prior_cause_terms: List[Term] = [
+                it for it in chain(incompatibility.terms, satisfier.cause.terms)
+                if it.package != satisfier.term.package]
 
             assert satisfier.cause != incompatibility  # this massup the error reporting...
-            if not satisfier.term.satisfies(term.constraint) or not prior_cause_terms:
-                prior_cause_terms.add(
-                    Term(satisfier.term.package,
-                         # satisfier.term.constraint.difference_from(term.constraint).inverse()))
-                         satisfier.accumulated.difference_from(term.constraint).inverse()))
+            prior_cause_terms.append(term.union(satisfier.term.negate()))
 
             prev_incompatibility = incompatibility
             incompatibility = Incompatibility.create(
-                list(prior_cause_terms), internal_cause=(satisfier.cause, incompatibility))
-
-            if len(prior_cause_terms) == 0:
-                self._solution.backtrack(0)
-                self._solution.assign(Term(term.package, RestrictAllVersions), cause=incompatibility)
-                return term.package
+                prior_cause_terms, internal_cause=(satisfier.cause, incompatibility))
 
             # print(f"root cause: {incompatibility}")
 
@@ -724,12 +691,15 @@ class Solver(Generic[PKG_T]):
 
         minor_adjustment_dlevel = -1
         for conflict in conflicts:
-            dependency: Term = find_first(conflict.terms, lambda it: it.package != package)
+            dependency: Optional[Term] = find_first(conflict.terms, lambda it: it.package != package)
+            if not dependency:
+                return False  # there is no dependency version that can resolve this conflict
+
             dependency_assignments = self._solution.assignments_by_package[dependency.package]
             dependency_requirement = dependency.constraint.inverse()
             if len(dependency_assignments) > 1 and dependency_assignments[-1].is_decision():
                 actual_limitation = dependency_assignments[-2].accumulated
-                if actual_limitation.allows_any(dependency_requirement):
+                if actual_limitation.constraint.allows_any(dependency_requirement):
                     # print(f"{package} is conflicting with {dependency.package}, it requires that ", end='')
                     # print(f"{dependency_requirement} but it actual limitation in solution is '{actual_limitation}'")
                     dlevel = dependency_assignments[-1].decision_level - 1
@@ -756,7 +726,7 @@ class Solver(Generic[PKG_T]):
         # print(f"undecided packages: {undecided_packages}")
         package_matching_versions: Dict[PKG, List[_PackageVersion]] = {}
         for package in undecided_packages:
-            acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
+            acc_assignment = self._solution.assignments_by_package[package][-1].accumulated.constraint
 
             if isinstance(acc_assignment, VersionMatch) and acc_assignment.allow and \
                     not isinstance(acc_assignment.version, StandardVersion):
@@ -780,7 +750,7 @@ class Solver(Generic[PKG_T]):
 
         while True:
             if not versions:
-                acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
+                acc_assignment = self._solution.assignments_by_package[package][-1].accumulated.constraint
 
                 if ic := self._package_availability_incompatibilities.get(package):
                     ic.update_inavailability(ic.terms[0].constraint.union_with(acc_assignment))
@@ -822,7 +792,6 @@ class Solver(Generic[PKG_T]):
         if not conflicts:
             # print("we can!")
             self._solution.assign(assignment)
-            self._solution.require(version.dependencies.keys())
         else:
             # print(f"we cant.. ({conflicts})")
             ...
-- 
2.43.0


From 29a7c8a548d9881493435d9be23af5a94af8e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 12/78] fix: treat all spellings of a package name as one
 package while resolving, keep overrides on the slow path

---
 pkm/src/pkm/api/packages/package_installation.py |  4 ++--
 pkm/src/pkm/resolution/dependency_resolver.py    | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 84b9aa3..3bdce3a 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -187,7 +187,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, False)
             installation = resolve_dependencies(
-                user_request.to_dependency(), self, installation_repo)
+                user_request.to_dependency(), self, installation_repo, dependencies_override)
 
         user_requests = {**pre_requested_deps}
         if user_requested:
@@ -439,7 +439,7 @@ class _InstallationRepository(Repository, ABC):
         packages = self._repo.match(dependency, env)
         if installed:
             packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
-        elif self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
+        elif self._fast_plan_mode and packages and dependency.package_name_key in self._unspecified_spec_packages:
             max_version_package = max(packages, key=lambda it: it.version)
             if not isinstance(max_version_package.version, StandardVersion):
                 unspecified_limit = VersionMatch(max_version_package.version)
diff --git a/pkm/src/pkm/resolution/dependency_resolver.py b/pkm/src/pkm/resolution/dependency_resolver.py
index 02e58b8..0c8d4ef 100644
--- a/pkm/src/pkm/resolution/dependency_resolver.py
+++ b/pkm/src/pkm/resolution/dependency_resolver.py
@@ -55,7 +55,8 @@ class _PkmPackageInstallationProblem(Problem):
         self._target = target
         self._repo = repo
         self._root = root
-        self._dependency_overrides = dependency_overrides or {}
+        self._dependency_overrides = {
+            PackageDescriptor.package_name_key(name): d for name, d in (dependency_overrides or {}).items()}
 
         from pkm.api.pkm import pkm
         self._threads = pkm.threads
@@ -91,7 +92,7 @@ class _PkmPackageInstallationProblem(Problem):
 
         for d in dependencies:
             if d.is_applicable_for(self._target.env, package.extras):
-                if o := self._dependency_overrides.get(d.package_name):
+                if o := self._dependency_overrides.get(d.package_name_key):
                     result.append(Term(_Pkg.of(o), o.version_spec))
                 else:
                     result.append(Term(_Pkg.of(d), d.version_spec))
@@ -104,8 +105,8 @@ class _PkmPackageInstallationProblem(Problem):
         # make versions unique
         packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env)}.values())
 
-        for package in packages:
-            self.opened_packages[replace(package.descriptor, name=package.descriptor.name.lower())] = package
+        for p in packages:
+            self.opened_packages[PackageDescriptor(package.name, p.version)] = p
 
         return cast(List[StandardVersion], [p.version for p in packages if isinstance(p.version, StandardVersion)])
 
@@ -139,4 +140,5 @@ class _Pkg:
 
     @classmethod
     def of(cls, d: Dependency) -> _Pkg:
-        return _Pkg(d.package_name.lower(), d.extras)
+        # different spellings of a name (e.g., 'a_b', 'A-b') are the same package
+        return _Pkg(d.package_name_key.replace('_', '-'), d.extras)
-- 
2.43.0


From 17543e4aaee6f9989f321b52fd027ec3f1c7034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:01 +0000
Subject: [PATCH 13/78] fix: do not let tar archives write outside of their
 extraction directory

---
 pkm/src/pkm/utils/archives.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/archives.py b/pkm/src/pkm/utils/archives.py
index ec77799..0b49ad9 100644
--- a/pkm/src/pkm/utils/archives.py
+++ b/pkm/src/pkm/utils/archives.py
@@ -14,9 +14,15 @@ def extract_archive(archive_path: Path, target_directory: Path):
             z.extractall(target_directory)
     elif archive_path.name.endswith('.tar.gz'):
         with tarfile.open(archive_path) as tar:
-            tar.extractall(target_directory)
+            _extract_tar(tar, target_directory)
     elif archive_path.name.endswith(".tar.bz2"):
         with tarfile.open(archive_path, 'r:bz2') as tar:
-            tar.extractall(target_directory)
+            _extract_tar(tar, target_directory)
     else:
         raise UnsupportedOperation(f"does not support archive {archive_path.name}")
+
+
+def _extract_tar(tar: tarfile.TarFile, target_directory: Path):
+    # make sure that the members of the archive cannot lead outside of the target directory
+    tar.extraction_filter = getattr(tarfile, 'data_filter', (lambda member, path: member))
+    tar.extractall(target_directory)
-- 
2.43.0


From 8530d3db31913147a4edbb478b5f42661f26b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:01 +0000
Subject: [PATCH 14/78] fix: uninstall removes what the package installed and
 nothing else

---
 pkm/src/pkm/api/distributions/distinfo.py     | 10 +++---
 pkm/src/pkm/api/packages/site_packages.py     | 34 +++++++++++++++----
 .../pkm/repositories/shared_pacakges_repo.py  |  2 +-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index df9e68a..e94db6c 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import json
+import os
 import warnings
 from dataclasses import dataclass
 from pathlib import Path
@@ -199,12 +200,13 @@ class DistInfo(Serializable):
         """
         :return: paths to all the files that were installed to the environment via this package (taken from RECORD)
         """
-        root = self.path.parent
+        root = self.path.parent.resolve()
         for record in self.load_record_cfg().records:
-            file = Path(root, record.file).resolve()
-            yield file
+            # if a link was installed then the link itself is the installed file and not the file it points to
+            file = Path(os.path.normpath(root / record.file))
+            yield file.parent.resolve() / file.name
 
-        yield self.record_path()
+        yield root / self.path.name / self.record_path().name
 
 
 @dataclass
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 47ac6a5..6991f51 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -1,8 +1,9 @@
 from __future__ import annotations
 
+import glob
 import shutil
 from pathlib import Path
-from typing import Optional, List, Dict, Iterable, TYPE_CHECKING, Iterator
+from typing import Optional, List, Dict, Iterable, Set, TYPE_CHECKING, Iterator
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.distinfo import DistInfo
@@ -205,29 +206,48 @@ class InstalledPackage(Package, Serializable):
         else:
             self.dist_info.unmark_as_user_requested()
 
+    def _installation_directories(self) -> Set[Path]:
+        """
+        :return: the directories which packages may be installed into, this package owns nothing outside of them
+        """
+        result = {str(self.dist_info.path.parent)}
+        if self.site:
+            target = self.site.env.installation_target
+            result.update((*map(str, self.site.all_sites()), target.data, target.scripts))
+        return {Path(it).resolve() for it in result if it}
+
     def uninstall(self):
         """
         uninstall this package from its site packages
         """
 
+        installation_dirs = self._installation_directories()
+        installed_files = [
+            f for f in self._dist_info.installed_files()
+            if any(is_relative_to(f, d) for d in installation_dirs) and (f.is_symlink() or not f.is_dir())]
+
         parents_to_check = set()
-        for installed_file in self._dist_info.installed_files():
+        for installed_file in installed_files:
             installed_file.unlink(missing_ok=True)
             parents_to_check.add(installed_file.parent)
 
-        installation_site = self.dist_info.path.parent
+            if installed_file.suffix == '.py':
+                precompiled = installed_file.parent / "__pycache__"
+                for pyc in precompiled.glob(f"{glob.escape(installed_file.stem)}.*.pyc"):
+                    pyc.unlink(missing_ok=True)
+                parents_to_check.add(precompiled)
+
         while parents_to_check:
             parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
 
-            if parent == installation_site or not is_relative_to(parent, installation_site):
+            if parent in installation_dirs or not any(is_relative_to(parent, d) for d in installation_dirs):
                 continue
 
-            if (precompiled := parent / "__pycache__").exists():
-                shutil.rmtree(precompiled, ignore_errors=True)
-
             if is_empty_directory(parent):
                 parent.rmdir()
                 parents_to_check.add(parent.parent)
+            elif not parent.exists():
+                parents_to_check.add(parent.parent)
 
         if self._dist_info.path.exists():
             shutil.rmtree(self._dist_info.path)
diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index dfa145f..cea036c 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -214,7 +214,7 @@ def _move_to_shared(package: PackageDescriptor,
                       f"{', '.join(str(r) for r in records)}")
 
     # uninstall the original package
-    InstalledPackage(dist_info).uninstall()
+    InstalledPackage(dist_info, target.site_packages).uninstall()
 
     return _SharedPackageArtifact(shared_target, dist_info.load_metadata_cfg(), shared_target.name)
 
-- 
2.43.0


From 38c34efe9149579c79ecbeadbe1bfe1c20445a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:01 +0000
Subject: [PATCH 15/78] fix: install wheels with data schemes, record every
 installed file, verify the whole record and roll back completely

---
 .../api/distributions/wheel_distribution.py   | 77 +++++++++++++------
 pkm/src/pkm/config/configfiles.py             |  2 +-
 pkm/src/pkm/launchers/executables.py          | 12 +++
 pkm/src/pkm/utils/files.py                    | 63 ++++++++-------
 4 files changed, 96 insertions(+), 58 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index b42c0ed..ec011d1 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -18,7 +18,7 @@ from pkm.api.versions.version import StandardVersion
 from pkm.api.versions.version_specifiers import StandardVersionRange
 from pkm.launchers.executables import Executables
 from pkm.utils.archives import extract_archive
-from pkm.utils.files import path_to, CopyTransaction, temp_dir, is_empty_directory
+from pkm.utils.files import path_to, CopyTransaction, temp_dir, is_empty_directory, is_relative_to
 
 _METADATA_FILE_RX = re.compile("[^/]*\\.dist-info/METADATA")
 
@@ -109,14 +109,14 @@ class WheelDistribution(Distribution):
                 if d.is_dir():
                     if d == data_dir:
                         for k in d.iterdir():
-                            target_path = getattr(target, k.name) or Path(target.data, k.name)
+                            target_path = _data_scheme_path(package, k.name, target)
                             if k.name == 'scripts':
                                 ct.copy_tree(
-                                    k, Path(target_path),
+                                    k, target_path,
                                     file_copy=lambda s, t: Executables.patch_shabang_for_interpreter(
                                         s, t, target.env.interpreter_path))
                             else:
-                                ct.copy_tree(k, Path(target_path))
+                                ct.copy_tree(k, target_path)
                     else:
                         ct.copy_tree(d, site_packages / d.name, accept=lambda it: it != records_file.path)
                 else:
@@ -126,38 +126,49 @@ class WheelDistribution(Distribution):
             scripts_path = Path(target.scripts)
             for entrypoint in entrypoints:
                 if entrypoint.is_script():
+                    ct.prepare_write(Executables.path_of_entrypoint(target.env, entrypoint, scripts_path))
                     ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, scripts_path))
 
             #  compile py to pyc
-            new_pyc_files: List[str] = []
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore')
-                for cc in ct.copied_files:
-                    if cc.suffix == '.py':
-                        compileall.compile_file(cc, force=True, quiet=2)
-                        new_pyc_files.append(importlib.util.cache_from_source(str(cc)))
+                for cc in [it for it in ct.copied_files if it.suffix == '.py' and it.is_file()]:
+                    # mark the compiled files in the transaction, so that they will be added to record
+                    pyc = Path(importlib.util.cache_from_source(str(cc)))
+                    if pyc.exists():
+                        ct.rm(pyc)
+                    elif not pyc.parent.exists():
+                        ct.touch(pyc.parent)
+                    ct.touch(pyc)
+                    compileall.compile_file(cc, force=True, quiet=2)
 
-            # mark the compiled files in the transaction, so that they will be added to record
-            for npf in new_pyc_files:
-                ct.touch(Path(npf))
-
-            # build the new records file
             new_dist_info = DistInfo.load(site_packages / dist_info.path.name)
+
+            # mark the installer and the requested flag
+            ct.prepare_write(new_dist_info.path / "INSTALLER").write_text(f"pkm")
+            marks: List[Path] = []
+            if user_request:
+                marks.append(ct.prepare_write(new_dist_info.user_requested_path()))
+                new_dist_info.mark_as_user_requested(user_request)
+            if installation_info:
+                marks.append(ct.prepare_write(new_dist_info.installation_info_path()))
+                new_dist_info.save_installation_info(installation_info)
+
+            # and finally, build the new records file
+            files_to_sign = [it for it in ct.copied_files if it not in marks and it.exists()]
+            ct.prepare_write(new_dist_info.record_path())
             new_record_file = new_dist_info.load_record_cfg()
 
             precomputed_hashes = {
                 r.file: r.hash_signature for r in records_file.records if r.hash_signature
             } if not skip_record_verification else None
-            new_record_file.sign_files(ct.copied_files, site_packages, precomputed_hashes)
+            new_record_file.sign_files(files_to_sign, site_packages, precomputed_hashes)
 
-            new_record_file.save()
+            # these files may change after the installation, so they are listed with no signature
+            for file in (*marks, new_dist_info.record_path()):
+                new_record_file.records.append(Record(str(path_to(site_packages, file)), None, None))
 
-            # and finally, mark the installer and the requested flag
-            (new_dist_info.path / "INSTALLER").write_text(f"pkm")
-            if user_request:
-                new_dist_info.mark_as_user_requested(user_request)
-            if installation_info:
-                new_dist_info.save_installation_info(installation_info)
+            new_record_file.save()
 
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
                    installation_mode: Optional[PackageInstallationInfo] = None):
@@ -189,6 +200,17 @@ def _find_dist_info(unpacked_wheel: Path, package: PackageDescriptor) -> DistInf
     return DistInfo.load(dist_info[0])
 
 
+def _data_scheme_path(package: PackageDescriptor, key: str, target: "PackageInstallationTarget") -> Path:
+    if key == 'headers':
+        include = Path(target.include)
+        if not is_relative_to(include, target.env.path):  # virtual environments share the include dir of their base
+            include = Path(target.data, "include", "site", "python%s.%s" % target.env.interpreter_version.release[:2])
+        return include / package.name
+    if key not in ('purelib', 'platlib', 'scripts', 'data'):
+        raise InstallationException(f"wheel for {package} contains unknown data scheme: {key}")
+    return Path(getattr(target, key))
+
+
 def _remove_empty_directories(content: Path):
     to_del = [d for d in content.glob("**/") if is_empty_directory(d)]
     for d in to_del:
@@ -201,20 +223,25 @@ def _verify_records(dist_info: DistInfo, content: Path, records_file: RecordsFil
             f"Unsigned wheel for package {dist_info.package_name_by_dirname} (no RECORD file found in dist-info)")
 
     # check that the records hash match
+    unsigned_files = {dist_info.path / name for name in ("RECORD", "RECORD.jws", "RECORD.p7s")}
     record_by_path: Dict[str, Record] = {r.file: r for r in records_file.records}
     for file in content.rglob("*"):
         if file.is_dir():
             continue
 
         path = str(path_to(content, file))
-        if (record := record_by_path.get(path)) and record.hash_signature:
+        if (record := record_by_path.pop(path, None)) and record.hash_signature:
             if not record.hash_signature.validate_against(file):
-                if any(it.name.endswith('.dist-info') for it in file.parents):
+                if dist_info.path in file.parents:
                     warnings.warn(f"mismatch hash signature for {file}")
                 else:
                     raise InstallationException(f"File signature not matched for: {record.file}")
 
-        elif file != dist_info.path / "RECORD":
+        elif file not in unsigned_files:
             raise InstallationException(
                 f"Wheel contains files with no signature in RECORD, "
                 f"e.g., {path}")
+
+    for missing in record_by_path.keys():
+        if content / missing not in unsigned_files:
+            raise InstallationException(f"Wheel does not contain all the files in RECORD, e.g., {missing}")
diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 7682f8d..cd07a27 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -103,7 +103,7 @@ class CSVConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
         with path.open('w+', newline='') as new_record_fd:
             for record in data['records']:
-                csv.writer(new_record_fd).writerow(record[c] for c in self._headers)
+                csv.writer(new_record_fd).writerow(record.get(c) for c in self._headers)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
         with path.open('r', newline='') as records_fd:
diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index c04d77c..5a977c7 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -60,6 +60,18 @@ class Executables:
             os.chmod(result_script_path, st.st_mode | stat.S_IEXEC)
             return result_script_path
 
+    @staticmethod
+    def path_of_entrypoint(env: "Environment", entrypoint: EntryPoint, target_dir: Path) -> Path:
+        """
+        :param env: the environment to be used by the executable
+        :param entrypoint: the entrypoint to find the path of its executable
+        :param target_dir: the directory containing the executable
+        :return: path of the executable that `generate_for_entrypoint` creates for these arguments
+        """
+        if entrypoint.name in ('', '.', '..') or '/' in entrypoint.name or os.sep in entrypoint.name:
+            raise ValueError(f"illegal script name: {entrypoint.name}")
+        return target_dir / (f"{entrypoint.name}.exe" if env.operating_platform.has_windows_os() else entrypoint.name)
+
     @staticmethod
     def generate_for_entrypoint(env: "Environment", entrypoint: EntryPoint, target_dir: Path) -> Path:
         """
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index cef9a65..a351cff 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -141,22 +141,18 @@ class CopyTransaction:
         :param file_copy: the function that will be used to copy a file
         """
 
-        if file_copy:
-            def cp(s, d):
-                file_copy(s, d)
-                self.touch(d)
-        else:
-            cp = self.copy
-
         self.mkdir(target)
         for file in source.iterdir():
             if not accept(file):
                 continue
 
             if file.is_dir():
-                self.copy_tree(file, target / file.name, accept)
+                self.copy_tree(file, target / file.name, accept, file_copy)
+            elif file_copy:
+                self.prepare_write(target / file.name)
+                file_copy(file, target / file.name)
             else:
-                cp(file, target / file.name)
+                self.copy(file, target / file.name)
 
     def mkdir(self, target: Path) -> Path:
         """
@@ -167,8 +163,8 @@ class CopyTransaction:
         if not target.exists():
             if not target.parent.exists():
                 self.mkdir(target.parent)
-            target.mkdir()
             self._copied_files.add(target)
+            target.mkdir()
 
         return target
 
@@ -181,19 +177,23 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        if target.exists():
-            self.rm(target)
-
-        try:
-            shutil.copy(source, target)
-        except FileNotFoundError:
-            if not target.exists():
-                self.mkdir(target.parent)
-                shutil.copy(source, target)
-            else:
-                raise
+        self.prepare_write(target)
+        shutil.copy(source, target)
 
-        self._copied_files.add(target)
+    def prepare_write(self, target: Path) -> Path:
+        """
+        must be called before a file is written in `target` by other means than this transaction's `copy`:
+        if there is something in `target` already it is moved aside (a rollback restores it), missing parent
+        directories are created, and `target` is marked as copied in this transaction
+        :param target: the path that is about to be written
+        :return `target` to be used with chaining
+        """
+        if target not in self._copied_files:
+            if os.path.lexists(target):
+                self.rm(target)
+            self.mkdir(target.parent)
+            self._copied_files.add(target)
+        return target
 
     @property
     def copied_files(self) -> Iterator[Path]:
@@ -250,21 +250,19 @@ class CopyTransaction:
             self._commit()
 
     def _commit(self):
-        shutil.rmtree(self._temp_dir)
+        shutil.rmtree(self._temp_dir, ignore_errors=True)
         self._temp_dir = None
 
     def _rollback(self):
-        for file in self._copied_files:
-            if not file.is_dir():
+        # children first, so that directories are already empty when it is their turn
+        for file in sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True):
+            if file.is_symlink() or not file.is_dir():
                 file.unlink(missing_ok=True)
-
-        for file in self._copied_files:
-            if file.is_dir() and is_empty_directory(file):
+            elif is_empty_directory(file):
                 file.rmdir()
 
-        for i, path in enumerate(self._overwritten_files):
-            restore_path = self._temp_dir / str(i)
-            shutil.move(restore_path, path)
+        for i, path in reversed(list(enumerate(self._overwritten_files))):
+            shutil.move(self._temp_dir / str(i), path)
 
         self._commit()
 
@@ -276,7 +274,8 @@ def is_relative_to(path: Path, root: Path) -> bool:
     :param root: the path that may contain `path`
     """
 
-    return str(path.absolute()).startswith(str(root.absolute()))
+    path, root = path.absolute(), root.absolute()
+    return path == root or root in path.parents
 
 
 def dir_size(directory: Path) -> int:
-- 
2.43.0


From 7d8aab1fc12b3a01121ba096144e78fc3d0ee5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 16/78] fix: read the version of a dist-info directory name
 without the directory suffix

---
 pkm/src/pkm/api/distributions/distinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index e94db6c..4d69f8e 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -51,7 +51,7 @@ class DistInfo(Serializable):
         :return: the package name as can be computed from the dist-info file name. note that if the loaded dist-info
          path has non-standard, the return value of this method is undetermined
         """
-        return Version.parse(self.path.name.split("-")[1])
+        return Version.parse(self.path.stem.split("-")[1])
 
     def load_wheel_cfg(self) -> "WheelFileConfiguration":
         """
-- 
2.43.0


From 7fad514374aca9f1b82c2b5a70071be637025219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 17/78] fix: do not treat unreadable ini files as empty, take
 their names and values as written

---
 pkm/src/pkm/config/configfiles.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index cd07a27..65d05ce 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -37,6 +37,10 @@ class JsonConfigIO(ConfigIO):
 class _CaseSensitiveConfigParser(configparser.ConfigParser):
     optionxform = staticmethod(str)
 
+    def __init__(self):
+        # values are taken as is, and names may contain ':'
+        super().__init__(interpolation=None, delimiters=('=',))
+
 
 class INIConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
@@ -56,7 +60,8 @@ class INIConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         data = {}
         cp = _CaseSensitiveConfigParser()
-        cp.read(str(path))
+        with path.open() as fd:  # unlike `cp.read`, raises if the file could not be read
+            cp.read_file(fd)
         for section_name, section_values in cp.items():
             if section_name and section_name != cp.default_section:
                 data[section_name] = {**section_values}
@@ -89,7 +94,7 @@ class WheelFileConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         seperator_rx = re.compile("\\s*:\\s*")
         lines = (line.strip() for line in path.read_text().splitlines())
-        kvs = (seperator_rx.split(kv) for kv in lines if kv)
+        kvs = (seperator_rx.split(kv, maxsplit=1) for kv in lines if kv)
         return {k: v for k, v in kvs}
 
 
-- 
2.43.0


From ca1d2474570f49b09ddef1d8073ce19f52b35013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 18/78] fix: refuse wheels with no METADATA or WHEEL file

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index ec011d1..565ff6e 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -197,7 +197,11 @@ def _find_dist_info(unpacked_wheel: Path, package: PackageDescriptor) -> DistInf
     if len(dist_info) != 1:
         raise InstallationException(f"wheel for {package} contains more than one possible dist-info")
 
-    return DistInfo.load(dist_info[0])
+    result = DistInfo.load(dist_info[0])
+    for required_file in (result.metadata_path(), result.wheel_path()):
+        if not required_file.exists():
+            raise InstallationException(f"wheel for {package} does not contain {required_file.name} in its dist-info")
+    return result
 
 
 def _data_scheme_path(package: PackageDescriptor, key: str, target: "PackageInstallationTarget") -> Path:
-- 
2.43.0


From ca581bb74aa3939a5945743be89b17f0376ef4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 19/78] fix: http client: keep cached files inside the
 workspace, store only complete bodies, never reuse a connection with unread
 data, forget finished fetches

---
 pkm/src/pkm/utils/http/http_client.py | 66 +++++++++++++++++----------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e4140b..479fac9 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -5,7 +5,7 @@ import shutil
 import socket
 from collections import deque
 from contextlib import contextmanager
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from datetime import datetime
 from datetime import timezone
 from gzip import GzipFile
@@ -14,7 +14,7 @@ from pathlib import Path
 from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
-from urllib.parse import urlsplit
+from urllib.parse import urlsplit, urljoin
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -64,9 +64,9 @@ class Url:
         return f"{self.scheme}://{self.host}:{self.port}"
 
     def resource_part(self) -> str:
+        # the fragment is for the client only, it is never sent to the server
         query_str = "" if not self.query_string else f"?{self.query_string}"
-        fragment_str = "" if not self.fragment else f"#{self.fragment}"
-        return f"{self.path}{query_str}{fragment_str}"
+        return f"{self.path or '/'}{query_str}"
 
     def __str__(self):
         default_port = (self.scheme == 'https' and self.port == 443) or (self.scheme == 'http' and self.port == 80)
@@ -85,13 +85,12 @@ class Url:
     def parse(cls, url: str) -> "Url":
         parts = urlsplit(url)
         scheme = parts.scheme
-        if ':' in parts.netloc:
-            host, port = parts.netloc.split(':')
-        else:
-            host = parts.netloc
-            port = '80' if scheme == 'http' else '443'
+        host = parts.hostname or ''
+        if ':' in host:  # ipv6
+            host = f"[{host}]"
+        port = parts.port or (80 if scheme == 'http' else 443)
 
-        return Url(scheme, host, int(port), parts.path, parts.query, parts.fragment)
+        return Url(scheme, host, port, parts.path, parts.query, parts.fragment)
 
 
 class _ConnectionProxy(Closeable):
@@ -108,6 +107,13 @@ class _ConnectionProxy(Closeable):
     def __del__(self):
         self.close()
 
+    def reset(self):
+        """
+        disconnect from the server, the next request will use a new connection
+        """
+        if self._conn is not None:
+            self._conn.close()
+
     def close(self):
         if self._conn is not None:
             # noinspection PyProtectedMember
@@ -251,6 +257,9 @@ class FetchedResource:
             with open(self.data, 'wb') as df:
                 shutil.copyfileobj(response, df)
 
+            if response.length:
+                raise HttpException(f"connection closed with {response.length} bytes left to read", response)
+
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
 
@@ -302,8 +311,8 @@ class HttpClient:
         self._max_connection_retries = max_connection_retries
 
     def _resource_files_of(self, url: Url) -> FetchedResource:
-        url_hash = hashlib.md5(str(url).encode('ascii')).hexdigest()
-        url_path = Path(url.path.lstrip('/'))
+        url_hash = hashlib.md5(str(url).encode('utf-8')).hexdigest()
+        url_path = Path(*(p for p in url.path.split('/') if p not in ('', '.', '..')))
 
         if url_path.parent:
             cache_dir = self.workspace / url.host / url_path.parent / url_hash
@@ -330,6 +339,7 @@ class HttpClient:
 
         while num_connection_retries < self._max_connection_retries and num_redirects_performed <= max_redirects:
             with self._pool.connection_for(url) as conn:
+                reusable = False
                 try:
                     # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
                     conn.request(mtd, url.resource_part(), headers=headers, body=payload)
@@ -340,19 +350,21 @@ class HttpClient:
                             if not (new_location := response.headers.get("Location")):
                                 raise HttpException(
                                     "server responded with redirect but without supplying a new location")
-                            if new_location.startswith("/"):
-                                url = replace(url, path=new_location)
-                            else:
-                                url = Url.parse(new_location)
+                            url = Url.parse(urljoin(str(url), new_location))
                             response.read()
+                            reusable = response.isclosed()
                         else:
                             if response.headers.get('Content-Encoding') == 'gzip':
                                 yield cast(HTTPResponse, _GzipResponseWrapper(response))
                             else:
                                 yield response
+                            reusable = response.isclosed()
                             return
                 except ConnectionError:
                     num_connection_retries += 1
+                finally:
+                    if not reusable:  # the next request must not see what is left from this one
+                        conn.reset()
 
         error = "max redirects reached" if num_redirects_performed > self._max_redirects else "connection failed"
         raise HttpException(error)
@@ -418,7 +430,8 @@ class HttpClient:
 
                             # noinspection PyShadowingNames
                             try:
-                                cache.add_headers(fetch_info, headers)
+                                if cache_files.exists():
+                                    cache.add_headers(fetch_info, headers)
                                 with self._request("GET", parsed_url, headers=headers) as response:
                                     clength = int(response.headers.get('content-length', '-1'))
                                     mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
@@ -436,11 +449,6 @@ class HttpClient:
                                     raise
                                 else:
                                     raise HttpException(str(e), response) from e
-                            finally:
-                                # print(f"thread: {threading.current_thread().ident} attempting to release task")
-                                with self._fetch_lock:
-                                    del self._fetch_inprogress[url]
-                                # print(f"thread: {threading.current_thread().ident} succss to release task")
 
                         # print(f"[END] GET {url} resulted with cache files: {cache_files}")
                         return cache_files
@@ -453,11 +461,19 @@ class HttpClient:
                 return promise.result()
 
             try:
-                deffered.complete(_fetch())
-            except Exception as e:
+                result = _fetch()
+            except BaseException as e:
+                self._release_inprogress(url)
                 deffered.fail(e)
+                raise
+
+            self._release_inprogress(url)
+            deffered.complete(result)
+            return result
 
-            return promise.result()
+    def _release_inprogress(self, url: str):
+        with self._fetch_lock:
+            del self._fetch_inprogress[url]
 
     def clear_resources(self):
         shutil.rmtree(self.workspace)
-- 
2.43.0


From 603d055c107ec5ec78764d509daf1bc6907695ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 20/78] fix: never expose half-written refreshes of fetched
 resources

---
 pkm/src/pkm/utils/http/http_client.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 479fac9..e838898 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -15,6 +15,7 @@ from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
 from urllib.parse import urlsplit, urljoin
+from uuid import uuid4
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -250,15 +251,22 @@ class FetchedResource:
 
     def save(self, response: HTTPResponse):
         self.data.parent.mkdir(exist_ok=True, parents=True)
-        if self.fetch_info.exists():
-            self.fetch_info.unlink()
 
+        # download aside, so that readers of the previous content are never exposed to a partial one
+        download_path = self.data.with_name(f"{uuid4().hex}.part")
         try:
-            with open(self.data, 'wb') as df:
+            with open(download_path, 'wb') as df:
                 shutil.copyfileobj(response, df)
 
             if response.length:
                 raise HttpException(f"connection closed with {response.length} bytes left to read", response)
+        except:  # noqa
+            download_path.unlink(missing_ok=True)
+            raise
+
+        try:
+            self.fetch_info.unlink(missing_ok=True)
+            download_path.replace(self.data)
 
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
-- 
2.43.0


From 1d2b385c90acdd64b22f330910f5543f23fa01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 21/78] fix: send cache validators only to the url that
 supplied them

---
 pkm/src/pkm/utils/http/http_client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index e838898..926283e 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -193,6 +193,7 @@ class _ConnectionPool(Closeable):
 @config(io=TomlConfigIO())
 class FetchInfoConfig(ConfigFile):
     etag: str = None
+    url: str = None
     fetch_time: str = config_field(key="fetch-time")
     hash: Dict[str, str] = config_field(default_factory=dict)
     other_fields = config_field(leftover=True)
@@ -278,6 +279,7 @@ class FetchedResource:
             # fetch_info.fetch_time = last_modified or datetime.utcnow().strftime(TF_HTTP)
             fetch_info.fetch_time = last_modified or eu.format_datetime(datetime.now().astimezone(timezone.utc), True)
             fetch_info.etag = rheaders.get("etag") or ''
+            fetch_info.url = response.geturl()
 
             fetch_info.save()
         except:  # noqa
@@ -359,9 +361,13 @@ class HttpClient:
                                 raise HttpException(
                                     "server responded with redirect but without supplying a new location")
                             url = Url.parse(urljoin(str(url), new_location))
+                            # validators belong to the url that supplied them
+                            headers = {k: v for k, v in headers.items()
+                                       if k.lower() not in ('if-none-match', 'if-modified-since')}
                             response.read()
                             reusable = response.isclosed()
                         else:
+                            response.url = str(url)
                             if response.headers.get('Content-Encoding') == 'gzip':
                                 yield cast(HTTPResponse, _GzipResponseWrapper(response))
                             else:
@@ -438,7 +444,7 @@ class HttpClient:
 
                             # noinspection PyShadowingNames
                             try:
-                                if cache_files.exists():
+                                if cache_files.exists() and fetch_info.url == str(parsed_url):
                                     cache.add_headers(fetch_info, headers)
                                 with self._request("GET", parsed_url, headers=headers) as response:
                                     clength = int(response.headers.get('content-length', '-1'))
-- 
2.43.0


From 792e60108b4fef0527d9fb9c9b96692d78a0942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 22/78] fix: read TOML values and tables as the standard says,
 write data and unchanged documents without loss

---
 pkm/src/pkm/config/toml.py | 337 +++++++++++++++++++++----------------
 1 file changed, 192 insertions(+), 145 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c3498b3..45418d9 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -3,11 +3,18 @@ from copy import copy
 from dataclasses import dataclass
 from numbers import Number
 from pathlib import Path
-from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable
+from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable, Iterable
 
 from pkm.utils.parsers import SimpleParser
 
-_KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
+_KEY_RX = re.compile(r'[a-zA-Z0-9\-_]+')
+_DATE_RX = re.compile(
+    r'\d{4}-\d{2}-\d{2}([Tt ]\d{2}:\d{2}:\d{2}(\.\d+)?([Zz]|[+-]\d{2}:\d{2})?)?|\d{2}:\d{2}:\d{2}(\.\d+)?')
+_NUMBER_RX = re.compile(
+    r'(?P<based>0x[0-9a-fA-F_]+|0o[0-7_]+|0b[01_]+)|[+-]?('
+    r'(?P<float>inf|nan|[0-9][0-9_]*(\.[0-9_]+([eE][+-]?[0-9_]+)?|[eE][+-]?[0-9_]+))|[0-9][0-9_]*)')
+_CONTROL_CHARS_RX = re.compile('[\x00-\x1f\x7f]')
+_ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
 KEY_T = Tuple
 DUMPS_T = Callable[[Dict[str, Any]], str]
 
@@ -24,7 +31,7 @@ class _ValueSignature:
             # return type(other) == type(self._value)
             return isinstance(other, type(self._value))
 
-        return id(self._value) == id(other) or self._value == other
+        return type(self._value) is type(other) and repr(self._value) == repr(other)
 
 
 _none_signature = _ValueSignature(None)
@@ -52,6 +59,7 @@ class _ValueStyle:
     prolog: str = ''
     epilog: str = ''
     content_trailing: str = ''
+    separator: Optional[str] = None  # follows the assignments of regular table
 
     value_str: Optional[str] = None
     value_sig: _ValueSignature = _none_signature
@@ -64,6 +72,7 @@ class _KeyStyle:
     prolog: str = ''
     epilog: str = ''
     key_str: Optional[str] = None
+    names: KEY_T = ()  # the names that key_str contains
     display: str = 'auto'
 
 
@@ -75,11 +84,27 @@ class _StyleSheet:
     def __init__(self):
         self.keys: Dict[KEY_T, _KeyStyle] = {}
         self.values: Dict[KEY_T, _ValueStyle] = {}
+        self.array_lengths: Dict[KEY_T, int] = {}
+
+    def resolve_table_key(self, names: KEY_T, array_item: bool) -> KEY_T:
+        """
+        :param names: the names that appear in a table header
+        :param array_item: true if it is a header of (new) table-array item
+        :return: the key of the table - it includes the index of each array item that the table is nested in
+        """
+        key = ()
+        for name in names[:-1]:
+            key = (*key, name)
+            if key in self.array_lengths:
+                key = (*key, self.array_lengths[key] - 1)
+
+        key = (*key, names[-1])
+        if array_item:
+            index = self.array_lengths.get(key, 0)
+            self.array_lengths[key] = index + 1
+            key = (*key, index)
 
-    def lastify(self, key: KEY_T) -> KEY_T:
-        lk = len(key) + 1
-        index = sum(len(k) == lk and k[:-1] == key for k in self.keys.keys())
-        return *key, index
+        return key
 
     def set_key_style(self, key: KEY_T, style: _KeyStyle):
         self.keys[key] = style
@@ -102,15 +127,29 @@ class _StyleSheet:
         if display != 'auto' and result.display != display:
             result = copy(result)
             result.display = display
+            result.key_str = None
+            result.epilog = ''
             if display == 'assignment':
                 result.epilog = ' '
 
         return result
 
+    def _can_display(self, display: str, key: KEY_T, value: Any) -> bool:
+        if display == 'hidden':  # has no header of its own, it must not be empty nor contain assignments
+            return bool(value) and all(
+                isinstance(it, (Mapping, List)) and
+                self.value_style((*key, k), it).display in ('regular', 'hidden', 'table-array')
+                for k, it in value.items())
+
+        return display != 'dotted' or bool(value)
+
     def value_style(self, key: KEY_T, value: Any, display: str = 'auto') -> _ValueStyle:
         predefined_style = self.values.get(key)
         if not predefined_style or not predefined_style.value_sig.is_similar_to(value):
             predefined_style = _DEFAULT_VALUE_STYLE
+        elif not self._can_display(predefined_style.display, key, value):
+            predefined_style = copy(predefined_style)
+            predefined_style.display = 'auto'
 
         if isinstance(value, (Table, Array)):
             predefined_style = _ValueStyle(**value.style)
@@ -127,10 +166,6 @@ class _StyleSheet:
             if isinstance(value, Mapping):
                 is_root = not key
                 is_first_level = len(key) == 1
-                has_no_assignments = all(
-                    isinstance(it, Mapping) or
-                    (isinstance(it, List) and self.value_style((*key, k), it).display == 'table-array')
-                    for k, it in value.items())
                 contains_large_data = \
                     len(value) > 5 or \
                     any(isinstance(it, (Mapping, List)) or (isinstance(it, str) and len(it) > 40)
@@ -138,7 +173,7 @@ class _StyleSheet:
 
                 if is_root:
                     vstyle.display = 'regular'
-                elif has_no_assignments:
+                elif self._can_display('hidden', key, value):
                     vstyle.display = 'hidden'
                 elif contains_large_data or is_first_level:
                     vstyle.display = 'regular'
@@ -205,13 +240,22 @@ class _Writer:
     def _write_inline_list(self, data: List[Any], key: KEY_T, vstyle: _ValueStyle) -> str:
         result = f"{vstyle.prolog}["
 
-        def _write_value(v: Any, i: int) -> str:
+        for i, v in enumerate(data):
             k = (*key, i)
-            s = self.style.value_style(k, v, 'inline')
-            return self._write_value(v, k, s)
+            s = copy(self.style.value_style(k, v, 'inline'))
+            s.prolog, s.epilog = (
+                '' if '#' in it and '\n' not in it[it.rindex('#'):] else it for it in (s.prolog, s.epilog))
+            value = self._write_value(v, k, s)
+            if i == 0:
+                result += value.lstrip(' ') if k not in self.style.values else value
+            else:
+                result += ',' + value
+
+        content_trailing = vstyle.content_trailing
+        if not data and ',' in content_trailing:
+            content_trailing = ''
 
-        result += ', '.join(_write_value(v, i).strip(' ') for i, v in enumerate(data))
-        result += f'{vstyle.content_trailing}]{vstyle.epilog}'
+        result += f'{content_trailing}]{vstyle.epilog}'
         return result
 
     def _write_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
@@ -224,9 +268,6 @@ class _Writer:
         if vstyle.display == 'inline':
             return self._write_inline_table(data, key, vstyle)
 
-        if vstyle.display == 'dotted':
-            return self._write_dotted_table(data, key, vstyle)
-
         raise ValueError(f"unknown table display style: {vstyle.display}")
 
     def _write_str(self, data: str, vstyle: _ValueStyle) -> str:
@@ -242,20 +283,23 @@ class _Writer:
                 ord('\\'): '\\\\',
             })
 
+            escaped = _CONTROL_CHARS_RX.sub(lambda m: f'\\u{ord(m.group()):04X}', escaped)
             value_str = f'"{escaped}"'
 
         return f'{vstyle.prolog}{value_str}{vstyle.epilog}'
 
-    def _write_key(self, key: KEY_T, offset: int, display: str) -> str:
+    def _write_key(self, key: KEY_T, offset: int, display: str, inline: bool = False, prefix: str = '') -> str:
 
         if not key:
             return ''
 
         key_style = self.style.key_style(key, display)
-        result = key_style.prolog
+        result = key_style.prolog if key in self.style.keys else prefix
+        if inline and ('\n' in result or '#' in result):
+            result = prefix
 
         key_str = key_style.key_str
-        if not key_str:
+        if not key_str or key_style.names != tuple(it for it in key[offset:] if isinstance(it, str)):
             key_str = ''
             if display == 'table':
                 key_str += '['
@@ -298,20 +342,19 @@ class _Writer:
 
         for partial_key, item in data.items():
             item_key = (*key, partial_key)
-            item_style = self.style.value_style(item_key, item)
 
-            if item_style.display == 'inline':
-                result += f"{self._write_key(item_key, len(key), 'assignment')}" \
-                          f"={self._write_value(item, item_key, item_style)}\n"
+            if self.style.value_style(item_key, item).display in ('inline', 'dotted'):
+                for assigned_key, assigned_item in self._assignments(item_key, item):
+                    item_style = self.style.value_style(assigned_key, assigned_item, 'inline')
+                    result += f"{self._write_key(assigned_key, len(key), 'assignment')}" \
+                              f"={self._write_value(assigned_item, assigned_key, item_style)}\n"
                 has_assignments = True
             else:
-                if item_style.display == 'dotted':
-                    result += self._write_value(item, item_key, self.style.value_style(item_key, item))
-                    has_assignments = True
-                else:
-                    delayed_items[item_key] = item
+                delayed_items[item_key] = item
 
-        if has_assignments:
+        if vstyle.separator is not None:
+            result += vstyle.separator
+        elif has_assignments:
             result += '\n'
 
         for item_key, item in delayed_items.items():
@@ -321,69 +364,42 @@ class _Writer:
 
         return result
 
+    def _assignments(self, key: KEY_T, value: Any) -> Iterable[Tuple[KEY_T, Any]]:
+        """
+        :return: the assignments required to write the given value - more than one if it is displayed as dotted table
+        """
+        if isinstance(value, Mapping) and self.style.value_style(key, value).display == 'dotted':
+            for partial_key, item in value.items():
+                yield from self._assignments((*key, partial_key), item)
+        else:
+            yield key, value
+
     # noinspection PyUnusedLocal
     def _write_hidden_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
         result = ''
-
         for partial_key, item in data.items():
             item_key = (*key, partial_key)
-
-            is_list = isinstance(item, List)
-            is_table = isinstance(item, Mapping)
-
-            inappropriate_item = not is_list and not is_table
-            inappropriate_item = inappropriate_item or is_list and any(not isinstance(it, Mapping) for it in item)
-
-            if inappropriate_item:
-                return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular'))
-
-            item_style = self.style.value_style(item_key, item)
-            if item_style.display == 'inline':
-                item_style = self.style.value_style(item_key, item, 'regular')
-
-            if is_list:
-                result += self._write_table_list(item, item_key, item_style)
-            elif item_style.display == 'hidden':
-                result += self._write_hidden_table(item, item_key, item_style)
-            else:
-                result += self._write_regular_table(item, item_key, item_style)
+            result += self._write_value(item, item_key, self.style.value_style(item_key, item))
 
         return result
 
     def _write_inline_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
         result = f"{vstyle.prolog}{{"
+        prefix = ''
 
-        def _write_assignment(partial_key: str, item: Any) -> str:
-            item_key = (*key, partial_key)
-            item_style = self.style.value_style(item_key, item, 'inline')
+        for partial_key, value in data.items():
+            for item_key, item in self._assignments((*key, partial_key), value):
+                item_style = copy(self.style.value_style(item_key, item, 'inline'))
+                item_style.prolog, item_style.epilog = (
+                    '' if '\n' in it or '#' in it else it for it in (item_style.prolog, item_style.epilog))
+                if prefix:
+                    result += ','
 
-            return f"{self._write_key(item_key, len(key), 'assignment')}" \
-                   f"={self._write_value(item, item_key, item_style)}"
+                result += f"{self._write_key(item_key, len(key), 'assignment', True, prefix)}" \
+                          f"={self._write_value(item, item_key, item_style)}"
+                prefix = ' '
 
-        result += ', '.join(_write_assignment(k, v) for k, v in data.items())
-        result += f"}}{vstyle.epilog}"
-        return result
-
-    def _write_dotted_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
-        subkey = self._write_key_part(key)
-        result = ""
-
-        def _write_assignment(partial_key: str, item: Any) -> str:
-            item_key = (*key, partial_key)
-            key_style = self.style.key_style(item_key)
-            key_str = self._write_key(item_key, len(key), 'assignment')
-            if not key_style.key_str:
-                key_str = f"{subkey}.{key_str}"
-            item_style = self.style.value_style(item_key, item, 'inline')
-            value_str = self._write_value(item, item_key, item_style)
-
-            if isinstance(item, Mapping) and item_style.display == 'dotted':
-                return value_str
-            return f"{key_str}={value_str}"
-
-        result += '\n'.join(_write_assignment(k, v) for k, v in data.items())
-        result += '\n'
-        result += vstyle.epilog
+        result += f"{vstyle.content_trailing if not data else ''}}}{vstyle.epilog}"
         return result
 
     def _write_table_list(self, data: List[Mapping[str, Any]], key: KEY_T, vstyle: _ValueStyle) -> str:
@@ -407,51 +423,72 @@ class _TomlParser(SimpleParser):
             result += self.match_ws(allow_new_lines)
             n = self.peek()
             if n == '#':  # comment
-                result += self.until_match('\n')
+                result += self.until(lambda i, t: t[i] == '\n')
             else:
                 break
 
         return result
 
     def read_multiline_basic_str(self) -> str:
-        self.match_or_err('"""', 'multiline basic string expected')
-        s = '"""' + self.until_match('"""')
-        while s[-1] == '\\':
-            s += self.next(3) + self.until_match('"""')
-
-        s += '"""'
-        self.match_or_err('"""', 'multiline basic string ending expected')
-
-        return eval(s)
+        return self._read_quoted('"""', 'multiline basic string', escapes=True)
 
     def read_multiline_literal_str(self) -> str:
-        self.match_or_err("'''", 'multiline literal string expected')
-        string = self.until_match("'''")
-        self.match_or_err("'''", "missing multiline literal string closing")
-        return string
+        return self._read_quoted("'''", 'multiline literal string', escapes=False)
 
     def read_basic_str(self) -> str:
-        self.match_or_err('"', 'basic string expected')
-        s = '"' + self.until_match('"')
-        while s[-1] == '\\':
-            s += self.next() + self.until_match('"')
+        return self._read_quoted('"', 'basic string', escapes=True)
 
-        s += '"'
-        self.match_or_err('"', 'basic string ending expected')
+    def read_literal_str(self) -> str:
+        return self._read_quoted("'", 'literal string', escapes=False)
 
-        return eval(s)
+    def _read_quoted(self, quotes: str, name: str, escapes: bool) -> str:
+        self.match_or_err(quotes, f'{name} expected')
+        multiline = len(quotes) == 3
+        if multiline:  # newline that immediately follows the opening quotes is not part of the string
+            self.match('\n')
 
-    def read_literal_str(self) -> str:
-        self.match_or_err("'", 'literal string expected')
-        string = self.until_match("'")
-        self.match_or_err("'", "missing literal string closing")
-        return string
+        result = ''
+        while self.is_not_empty():
+            result += self.until(lambda i, t: t[i] == quotes[0] or t[i] == '\\' and escapes or t[i] == '\n')
+            if self.match(quotes):
+                if multiline:  # up to two additional quotes may come right before the closing ones
+                    result += (self.match(quotes[0]) or '') + (self.match(quotes[0]) or '')
+                return result
+
+            if self.peek() == '\\' and escapes:
+                result += self._read_escape(multiline)
+            elif self.peek() == '\n' and not multiline:
+                break
+            else:
+                result += self.next()
+
+        self.raise_err(f'{name} ending expected')
+
+    def _read_escape(self, multiline: bool) -> str:
+        self.match_or_err('\\', 'escape sequence expected')
+        c = self.next()
+        if c in _ESCAPES:
+            return _ESCAPES[c]
+
+        if c in ('u', 'U'):
+            digits = self.next(4 if c == 'u' else 8)
+            if re.fullmatch('[0-9a-fA-F]{4}|[0-9a-fA-F]{8}', digits):
+                return chr(int(digits, 16))
+
+        if multiline and c.isspace():  # line ending backslash
+            self.position -= 1
+            if '\n' in self.match_ws():
+                return ''
+
+        self.raise_err('illegal escape sequence')
 
     def read_str(self) -> str:
         n = self.peek(3)
         value = ''
 
-        if n == '"""':
+        if not n:
+            self.raise_err("string expected")
+        elif n == '"""':
             value = self.read_multiline_basic_str()
         elif n == "'''":
             value = self.read_multiline_literal_str()
@@ -504,13 +541,16 @@ class _TomlParser(SimpleParser):
 
         key = tuple(parts)
 
+        if not parts:
+            self.raise_err('key expected')
+
         if table_key:
+            self.match_ws(False)
             self.match_or_err(']', 'expecting table key termination')
+            key = self.style.resolve_table_key(key, bool(table_list_key))
 
         if table_list_key:
-            self.match_ws()
             self.match_or_err(']', 'expecting table list key termination')
-            key = self.style.lastify(key)
 
         key_str = self.text[p:self.position]
         epilog = self.read_non_data(False)
@@ -521,7 +561,8 @@ class _TomlParser(SimpleParser):
             display = 'table-array-item'
 
         self.style.set_key_style((*base_key, *key),
-                                 _KeyStyle(prolog=prolog, epilog=epilog, key_str=key_str, display=display))
+                                 _KeyStyle(prolog=prolog, epilog=epilog, key_str=key_str, names=tuple(parts),
+                                           display=display))
         return key
 
     def _mark_internal_tables(self, table_key: KEY_T, key: KEY_T, display: str):
@@ -529,25 +570,20 @@ class _TomlParser(SimpleParser):
             dtable_key = (*table_key, *key[0:i])
             self.style.update_value_auto_display(dtable_key, {}, display)
 
-    def read_date(self) -> TimeLiteral:
-        ts = self.until(lambda s, i: s[i].isnumeric() or s[i] in '-.: TZ')
-        return TimeLiteral(ts)
-
     def read_number_or_date(self) -> Union[Number, TimeLiteral]:
-        pos = self.position
+        if m := _DATE_RX.match(self.text, self.position):
+            self.position = m.end()
+            return TimeLiteral(m.group())
 
-        sign = (self.match('-') and '-') or (self.match('+') and '+') or ''
-        nstr = sign + self.until(lambda i, s: not s[i].isnumeric() and s[i] not in '.e')
-
-        n = self.peek()
-        if n in '-:':
-            self.position = pos
-            return self.read_date()
-
-        if not nstr:
+        m = _NUMBER_RX.match(self.text, self.position)
+        if not m:
             self.raise_err("number expected")
 
-        return eval(nstr)
+        self.position = m.end()
+        value = m.group().replace('_', '')
+        if m.group('float'):
+            return float(value)
+        return int(value, 0 if m.group('based') else 10)
 
     def read_bool(self) -> bool:
         if self.match('true'):
@@ -575,11 +611,11 @@ class _TomlParser(SimpleParser):
             next_ = self.read_inline_value(item_key)
             item_style = self.style.value_style(item_key, next_)
             item_style.prolog = item_prolog
-            item_style.epilog = self.read_non_data()
+            item_style.epilog += self.read_non_data()
             result.append(next_)
 
             p = self.position
-            if not self.match(', ') and not self.match(','):
+            if not self.match(','):
                 break
 
         content_trailing = content_trailing or self.read_non_data()
@@ -593,9 +629,11 @@ class _TomlParser(SimpleParser):
         prolog = self.read_non_data(False)
         self.match_or_err('{', 'expecting inline-table start')
         result = self.read_table_assignments(key, inline=True)
+        content_trailing = self.read_non_data(False)
         self.match_or_err('}', 'expecting inline-table end')
         epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline'))
+        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline',
+                                                            content_trailing=content_trailing))
         return result
 
     def read_inline_value(self, key: KEY_T) -> Any:
@@ -605,7 +643,9 @@ class _TomlParser(SimpleParser):
         p = self.position
         n = self.peek()
         result = None
-        if n in "+-" or n.isnumeric():
+        if not n:
+            self.raise_err("value expected")
+        elif n in "+-in" or n.isnumeric():
             result = self.read_number_or_date()
             value_str = self.text[p:self.position]
         elif n in '\'"':
@@ -624,7 +664,7 @@ class _TomlParser(SimpleParser):
 
         vstyle = self.style.value_style(key, result)
         vstyle.prolog = prolog
-        vstyle.epilog = self.read_non_data(False)
+        vstyle.epilog = (vstyle.epilog if value_str is None else '') + self.read_non_data(False)
         vstyle.value_str = value_str
         vstyle.display = 'inline'
         self.style.set_value_style(key, result, vstyle)
@@ -636,15 +676,18 @@ class _TomlParser(SimpleParser):
             return data
 
         if isinstance(data, List):
-            if len(key) == 1 and isinstance(key[0], Number):
+            if len(key) == 1:
                 data.append(value)
                 return
 
-            return self._enter(data[-1], key, value)
+            return self._enter(data[key[0]], key[1:], value)
 
         if isinstance(data, MutableMapping):
             if len(key) == 1:
-                data[key[0]] = value
+                if isinstance(value, MutableMapping) and isinstance(data.get(key[0]), MutableMapping):
+                    data[key[0]].update(value)  # sub-tables that precedes their table
+                else:
+                    data[key[0]] = value
                 return
 
             if key[0] not in data:
@@ -664,7 +707,7 @@ class _TomlParser(SimpleParser):
             self.read_non_data()
             key_start = self.peek()
             self.position = p
-            if not key_start or key_start == '[':
+            if not key_start or key_start == '[' or inline and key_start == '}':
                 break
 
             k = self.read_key(base_key=table_key)
@@ -674,34 +717,37 @@ class _TomlParser(SimpleParser):
             if len(k) > 1:
                 self._mark_internal_tables(table_key, k[:-1], 'dotted')
 
-            if inline and not self.match(', ') and not self.match(','):
-                break
-            if not inline and not self.match('\n'):
+            if not self.match(',' if inline else '\n'):
                 break
 
-        self.match('\n')  # drop last \n seperating assignments and next table - it is added implicitly
         return data
 
     def read_regular_table(self) -> Tuple[KEY_T, Dict[str, Any]]:
         prolog = self.read_non_data()
+        if self.peek() != '[':
+            self.raise_err('expecting table')
+
         key = self.read_key()
         self._mark_internal_tables((), key[:-1], 'hidden')
 
+        separator = None
         if self.is_empty():
             data = {}
         else:
             self.match_or_err('\n', 'expecting newline after table key')
             data = self.read_table_assignments(key)
+            separator = self.match('\n') or ''
 
-        if key[-1] == -1:
-            key = (*key[:-1], id(data))
-        self.style.set_value_style(key, data, _ValueStyle(prolog=prolog, display='regular'))
+        self.style.set_value_style(key, data, _ValueStyle(prolog=prolog, display='regular', separator=separator))
         return key, data
 
     def read(self) -> Dict[str, Any]:
         prolog = self.read_non_data()
+        if self.is_empty() and prolog and not prolog.endswith('\n'):
+            prolog += '\n'
         epilog = ''
         data = self.read_table_assignments(())
+        separator = self.match('\n') or ''
 
         while self.is_not_empty():
             p = self.position
@@ -714,7 +760,8 @@ class _TomlParser(SimpleParser):
             else:
                 break
 
-        self.style.set_value_style((), data, _ValueStyle(prolog=prolog, epilog=epilog, display='regular'))
+        self.style.set_value_style((), data, _ValueStyle(prolog=prolog, epilog=epilog, display='regular',
+                                                           separator=separator))
         return data
 
 
-- 
2.43.0


From 8dde2316dbd4ced40a4920a3148a2feae44b8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 23/78] fix: read and write METADATA, WHEEL, pyvenv.cfg, entry
 point and link files the way standard readers do

---
 pkm/src/pkm/api/distributions/pth_link.py     |  9 ++--
 .../api/environments/environment_builder.py   |  6 +--
 pkm/src/pkm/api/packages/package_metadata.py  | 41 ++++++++++++-------
 pkm/src/pkm/config/configfiles.py             | 30 ++++++++++----
 pkm/src/pkm/utils/entrypoints.py              |  6 +--
 5 files changed, 59 insertions(+), 33 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/pth_link.py b/pkm/src/pkm/api/distributions/pth_link.py
index 3275056..768d495 100644
--- a/pkm/src/pkm/api/distributions/pth_link.py
+++ b/pkm/src/pkm/api/distributions/pth_link.py
@@ -1,4 +1,3 @@
-import os
 from pathlib import Path
 from typing import List, Optional
 
@@ -31,12 +30,12 @@ class PthLink:
         self.links = links
 
     def save(self):
-        with self.path.open('w+') as out:
+        with self.path.open('w+', encoding='utf-8') as out:
             if self.imports:
                 for imp in self.imports:
                     out.write('import ')
                     out.write(imp)
-                    out.write(os.linesep)
+                    out.write('\n')
 
             for link in self.links:
                 out.write(str(link.absolute()))
@@ -49,7 +48,7 @@ class PthLink:
         imports: List[str] = []
         links: List[Path] = []
 
-        with path.open('r') as pth_fd:
+        with path.open('r', encoding='utf-8') as pth_fd:
             while line := pth_fd.readline():
                 if line := line.strip():
                     if line.startswith("#"):
@@ -57,6 +56,6 @@ class PthLink:
                     elif startswith_any(line, ('import ', 'import\t')):
                         imports.append(line[len("import"):].strip())
                     else:
-                        links.append(Path(line))
+                        links.append(path.absolute().parent / line)  # may be relative to the link's directory
 
         return PthLink(path, links, imports)
diff --git a/pkm/src/pkm/api/environments/environment_builder.py b/pkm/src/pkm/api/environments/environment_builder.py
index e821235..e386473 100644
--- a/pkm/src/pkm/api/environments/environment_builder.py
+++ b/pkm/src/pkm/api/environments/environment_builder.py
@@ -1,4 +1,3 @@
-import re
 import shutil
 import sys
 from dataclasses import dataclass
@@ -11,11 +10,10 @@ from pkm.api.pkm import pkm
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.config.configclass import ConfigFile, config, config_field
-from pkm.config.configfiles import WheelFileConfigIO
+from pkm.config.configfiles import PyVEnvConfigIO
 from pkm.utils.commons import NoSuchElementException
 
 _INTERPRETER_INTROSPECTIONS: Dict[str, EnvironmentIntrospection] = {}
-_PYVENV_SEP_RX = re.compile("\\s*=\\s*")
 
 
 class EnvironmentBuilder:
@@ -113,7 +111,7 @@ def _introspection_for(interpreter_path: Path) -> EnvironmentIntrospection:
 
 
 @dataclass
-@config(io=WheelFileConfigIO())
+@config(io=PyVEnvConfigIO())
 class PyVEnvConfiguration(ConfigFile):
     home: Path
     version: Version
diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index ab61e16..8ae9e4a 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -1,8 +1,7 @@
 from __future__ import annotations
 
-import warnings
+import re
 from dataclasses import dataclass
-from email.message import EmailMessage
 from email.parser import Parser
 from pathlib import Path
 from typing import List, TYPE_CHECKING, Dict, Any
@@ -24,10 +23,16 @@ _MULTI_FIELDS = {
 }
 
 
+# fields that their value may be spread over several lines
+_MULTILINE_FIELDS = {'Description', 'License'}
+_CONTINUATION = ' ' * 8
+_CONTINUATION_RX = re.compile('^(?: {7}\\|| {1,8}|\t)')
+
+
 class PackageMetadataIO(ConfigIO):
 
     def write(self, path: Path, data: Dict[str, Any]):
-        msg = EmailMessage()
+        lines: List[str] = []
         for key, value in data.items():
             if value is None:
                 continue
@@ -38,30 +43,35 @@ class PackageMetadataIO(ConfigIO):
             if key == 'Description':
                 continue  # will add it in payload
 
-            if isinstance(value, List):
-                for item in value:
-                    msg[key] = item
-            else:
-                try:
-                    msg[key] = value
-                except Exception as e:
-                    warnings.warn(f"malformed metadata key,value ({key}={value}) | {e}, ignoring it")
+            for item in (value if isinstance(value, List) else [value]):
+                item_lines = str(item).splitlines()
+                if key in _MULTILINE_FIELDS:
+                    lines.append(f"{key}: " + f"\n{_CONTINUATION}".join(item_lines))
+                else:
+                    lines.append(f"{key}: " + ' '.join(line.strip() for line in item_lines))
 
+        content = ''.join(f'{line}\n' for line in lines)
         if payload := data.get("Description"):
-            msg.set_payload(payload)
+            content += f'\n{payload}'
 
-        path.write_text(msg.as_string())
+        path.write_text(content, encoding='utf-8')
 
     def read(self, path: Path) -> Dict[str, Any]:
         if not path.exists():
             return {}
 
         parser = Parser()
-        with path.open('r', errors="ignore") as path_fd:
+        with path.open('r', encoding='utf-8', errors="ignore") as path_fd:
             content = parser.parse(path_fd)
 
             data = {}
             for key, value in content.items():
+                first_line, *more_lines = str(value).split('\n')
+                if key in _MULTILINE_FIELDS:
+                    value = '\n'.join((first_line, *(_CONTINUATION_RX.sub('', line) for line in more_lines)))
+                else:
+                    value = ' '.join((first_line, *(line.strip() for line in more_lines)))
+
                 if key in _MULTI_FIELDS:
                     get_or_put(data, key, list).append(value)
                 elif old_value := data.get(key):
@@ -72,6 +82,9 @@ class PackageMetadataIO(ConfigIO):
                 else:
                     data[key] = value
 
+            if payload := content.get_payload():
+                data['Description'] = payload
+
         return data
 
 
diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 65d05ce..aa899ac 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -1,7 +1,6 @@
 import configparser
 import csv
 import json
-import os
 import re
 from pathlib import Path
 from typing import Mapping, Type, Any
@@ -74,7 +73,7 @@ class INIConfigIO(ConfigIO):
 class _WheelBoolFieldCodec(ConfigFieldCodec):
 
     def parse(self, parent: ConfigCodec, type_: Type, v: Any) -> _T:
-        return v == 'true'
+        return v.strip().lower() == 'true'
 
     def unparse(self, parent: ConfigCodec, type_: Type, v: _T) -> Any:
         return 'true' if v else 'false'
@@ -85,17 +84,34 @@ _WheelBoolFieldCodec = _WheelBoolFieldCodec()
 
 class WheelFileConfigIO(ConfigIO):
 
+    _seperator, _seperator_rx = ': ', re.compile("\\s*:\\s*")
+
     def __init__(self, *, codec: ConfigCodec = None):
         super().__init__(codec=(codec or ConfigCodec()).extended({bool: _WheelBoolFieldCodec}))
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-        path.write_text(os.linesep.join(f'{k}: {v}' for k, v in data.items()))
+        kvs = ((k, v) for k, values in data.items() for v in (values if isinstance(values, list) else [values]))
+        path.write_text(''.join(f'{k}{self._seperator}{v}\n' for k, v in kvs), encoding='utf-8')
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
-        seperator_rx = re.compile("\\s*:\\s*")
-        lines = (line.strip() for line in path.read_text().splitlines())
-        kvs = (seperator_rx.split(kv, maxsplit=1) for kv in lines if kv)
-        return {k: v for k, v in kvs}
+        lines = (line.strip() for line in path.read_text(encoding='utf-8').splitlines())
+        result = {}
+        for k, v in (self._seperator_rx.split(kv, maxsplit=1) for kv in lines if kv):
+            if k not in result:
+                result[k] = v
+            elif isinstance(result[k], list):
+                result[k].append(v)
+            else:
+                result[k] = [result[k], v]
+
+        return result
+
+
+class PyVEnvConfigIO(WheelFileConfigIO):
+    """
+    like the wheel file, but the keys of pyvenv.cfg are seperated from their values by '='
+    """
+    _seperator, _seperator_rx = ' = ', re.compile("\\s*=\\s*")
 
 
 class CSVConfigIO(ConfigIO):
diff --git a/pkm/src/pkm/utils/entrypoints.py b/pkm/src/pkm/utils/entrypoints.py
index da1afdd..4c1f246 100644
--- a/pkm/src/pkm/utils/entrypoints.py
+++ b/pkm/src/pkm/utils/entrypoints.py
@@ -11,7 +11,7 @@ from pkm.api.packages.package import PackageDescriptor
 from pkm.utils.commons import UnsupportedOperationException
 
 # noinspection RegExpRedundantEscape
-_OBJ_REF_RX = re.compile(r"(?P<mdl>[^:]*)(:(?P<obj>[^\[]*)\s*(\[\s*(?P<ext>[^\]]*)\s*\])?)?")
+_OBJ_REF_RX = re.compile(r"\s*(?P<mdl>[^:\[]*?)\s*(:\s*(?P<obj>[^\[]*?)\s*)?(\[\s*(?P<ext>[^\]]*?)\s*\]\s*)?")
 _EXT_DELIM_RX = re.compile("\\s*,\\s*")
 
 
@@ -50,12 +50,12 @@ class ObjectReference:
 
     @classmethod
     def parse(cls, refstr: str) -> "ObjectReference":
-        if not (match := _OBJ_REF_RX.match(refstr)):
+        if not (match := _OBJ_REF_RX.fullmatch(refstr)):
             raise ValueError(f"could not parse object reference from string: '{refstr}'")
 
         module_path = match.group('mdl')
         object_path = match.group('obj')
-        extras = _EXT_DELIM_RX.split(ext.strip()) if (ext := match.group('ext')) else None
+        extras = _EXT_DELIM_RX.split(ext) if (ext := match.group('ext')) else None
 
         return ObjectReference(module_path, object_path, extras)
 
-- 
2.43.0


From d77e6d302f9398ec336b9bcd5d8c5851daaf2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 24/78] fix: load and save package bindings, own repositories
 under global inheritance, one repository per inline binding, names compared
 by key

---
 pkm/src/pkm/api/projects/project_group.py     | 11 +++++---
 .../repositories_configuration.py             |  4 +--
 .../pkm/api/repositories/repository_loader.py | 20 +++++++--------
 .../api/repositories/repository_management.py | 25 +++++++++----------
 4 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index ee85537..d761f9e 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from pathlib import Path
 from typing import Iterable, Union, Optional, List, TYPE_CHECKING
 
+from pkm.api.packages.package import PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository
 from pkm.api.projects.environments_config import EnvironmentsConfiguration, ENVIRONMENT_CONFIGURATION_PATH
 from pkm.api.projects.project import Project
@@ -68,7 +69,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
         :return: the top most parent of this project group
         """
-        return parent.root if (parent := self.parent) else None
+        return (parent.root or parent) if (parent := self.parent) else None
 
     @cached_property
     def children(self) -> Iterable[Union[Project, "ProjectGroup"]]:
@@ -79,7 +80,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         for child in self._config.resolved_children:
             if (child / 'pyproject.toml').exists():
                 result.append(Project.load(child, group=self))
-            elif (child / 'pyproject-group.toml').exists:
+            elif (child / 'pyproject-group.toml').exists():
                 result.append(
                     ProjectGroup(PyProjectGroupConfiguration.load(child / 'pyproject-group.toml'), parent=self))
 
@@ -116,7 +117,11 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         :param project: the project name or path to remove
         """
         if isinstance(project, str):
-            project = single_or_raise(p for p in self.children if p.name == project).path
+            name_key = PackageDescriptor.package_name_key(project)
+            project = single_or_raise(
+                p for p in self.children
+                if PackageDescriptor.package_name_key(p.name if isinstance(p, Project) else p.config.name) == name_key
+            ).path
 
         project = project.resolve()
 
diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index 99f9925..23d3af0 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from enum import Enum
-from typing import Any, Dict, Mapping
+from typing import Any, Dict
 
 from pkm.config.configclass import config, config_field, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
@@ -29,7 +29,7 @@ class RepositoryInstanceConfig:
 class RepositoriesConfiguration(ConfigFile):
     repos: Dict[str, RepositoryInstanceConfig] = config_field(default_factory=dict)
     inheritance: str = "context"
-    package_bindings: Mapping[str, Any] = config_field(key="package-bindings", default_factory=dict)
+    package_bindings: Dict[str, Any] = config_field(key="package-bindings", default_factory=dict)
 
     @cached_property
     def inheritance_mode(self) -> RepositoriesConfigInheritanceMode:
diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 93f9ade..d04d054 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -8,7 +8,7 @@ from typing import List, Dict, Iterable, Optional, Set, Mapping
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, \
     RepositoriesConfigInheritanceMode
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
@@ -102,24 +102,20 @@ class RepositoryLoader:
 
         package_binding: Dict[str, str] = {}
         for package, binding in config.package_bindings.items():
+            package = PackageDescriptor.package_name_key(package)
             if isinstance(binding, str):
                 package_binding[package] = binding
             else:
-                type_ = binding.pop('type')
-                binding = self.build(name, type_, **binding)
+                binding_args = {k: v for k, v in binding.items() if k not in ('type', 'bind-only')}
+                binding = self.build(f'{name}:{package}', binding['type'], **binding_args)
                 binding_only_repositories.add(binding.name)
                 package_search_list.append(binding)
                 package_binding[package] = binding.name
 
-        if not package_search_list:
-            if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-                return self.global_repo
-            return next_in_context
-
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-        key = _CachedRepositoryKey(builder, args)
+        key = _CachedRepositoryKey(name, builder, args)
         if not (cached := self._cached_instances.get(key)):
             if not (builder := self._builders.get(builder)):
                 raise KeyError(f"unknown repository type: {builder}")
@@ -131,11 +127,13 @@ class RepositoryLoader:
 
 @dataclass(eq=True)
 class _CachedRepositoryKey:
+    name: str
     builder: str
     args: Dict[str, str]
 
     def __hash__(self):
         return HashBuilder() \
+            .regular(self.name) \
             .regular(self.builder) \
             .unordered_mapping(self.args) \
             .build()
@@ -164,9 +162,9 @@ class _CompositeRepository(AbstractRepository):
             for repo in self._url_handlers[url.protocol]:
                 if match := repo.match(dependency, env):
                     return match
-            raise []
+            return []
 
-        if repo_name := self._package_binding.get(dependency.package_name):
+        if repo_name := self._package_binding.get(dependency.package_name_key):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
                 raise NoSuchElementException(f"package: {dependency.package_name} is bound to "
                                              f"repository: {repo_name}, but this repository is not defined")
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index fe0d330..96360c6 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -7,7 +7,7 @@ from typing import Dict, List, Optional, Tuple, Iterable, Union, Set
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.environments.environments_zoo import EnvironmentsZoo
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository, Pkm, pkm
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
@@ -15,6 +15,7 @@ from pkm.api.repositories.repositories_configuration import RepositoriesConfigur
     RepositoriesConfigInheritanceMode
 from pkm.api.repositories.repository import Repository, AbstractRepository, RepositoryPublisher
 from pkm.api.repositories.repository_loader import RepositoryLoader, REPOSITORIES_CONFIGURATION_PATH
+from pkm.config.configclass import ConfigCodec
 from pkm.repositories.shared_pacakges_repo import SharedPackagesRepository
 from pkm.resolution.packages_lock import LockPrioritizingRepository
 from pkm.utils.commons import NoSuchElementException
@@ -56,7 +57,7 @@ class RepositoryManagement(ABC):
 
     def package_lookup_chain(self) -> List[RepositoryManagement]:
         if self.configuration.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-            return [pkm.repository_management]
+            return [self, pkm.repository_management]
         elif self.configuration.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
             return [self]
 
@@ -97,20 +98,18 @@ class RepositoryManagement(ABC):
         return result
 
     def register_bindings(self, packages: List[str], repo: Optional[Union[str, RepositoryInstanceConfig]]):
+        package_keys = {PackageDescriptor.package_name_key(p) for p in packages}
+        bindings = {
+            p: r for p, r in self.configuration.package_bindings.items()
+            if PackageDescriptor.package_name_key(p) not in package_keys}
+
         if repo:
             if isinstance(repo, RepositoryInstanceConfig):
-                repo = repo.to_config()
-
-            self.configuration.package_bindings = {
-                **self.configuration.package_bindings,
-                **{p: repo for p in packages}
-            }
-        else:
-            self.configuration.package_bindings = {
-                p: r for p, r in self.configuration.package_bindings.items()
-                if p not in packages
-            }
+                repo = ConfigCodec().unparse(repo)
+
+            bindings.update({p: repo for p in packages})
 
+        self.configuration.package_bindings = bindings
         self._update_config()
 
     @cached_property
-- 
2.43.0


From 573a9d6230fa762a3042c145590834656ac530d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 25/78] fix: saving a project configuration keeps contacts,
 unknown keys, tool tables and readme settings as they were

---
 pkm/src/pkm/api/packages/package_metadata.py  | 21 ++++---
 .../api/projects/pyproject_configuration.py   | 63 ++++++++++---------
 pkm/src/pkm/config/configclass.py             | 20 +++++-
 3 files changed, 66 insertions(+), 38 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 8ae9e4a..48e23f9 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -4,7 +4,7 @@ import re
 from dataclasses import dataclass
 from email.parser import Parser
 from pathlib import Path
-from typing import List, TYPE_CHECKING, Dict, Any
+from typing import List, TYPE_CHECKING, Dict, Any, Optional
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.versions.version import Version
@@ -13,7 +13,7 @@ from pkm.config.configclass import ConfigIO, config, config_field, ConfigFile
 from pkm.utils.dicts import get_or_put, remove_none_values
 
 if TYPE_CHECKING:
-    from pkm.api.projects.pyproject_configuration import ProjectConfig
+    from pkm.api.projects.pyproject_configuration import ProjectConfig, ContactInfo
 
 _METADATA_VERSION = '2.1'
 
@@ -114,11 +114,13 @@ class PackageMetadata(ConfigFile):
         #    with the format {name} <{email}> (with appropriate quoting, e.g. using email.headerregistry.Address).
         # 4. Multiple values should be separated by commas.
 
-        author_names = [a.name for a in (prjc.authors or []) if a.name]
-        author_emails = [a.email for a in (prjc.authors or []) if a.email]
+        def names(contacts: Optional[List["ContactInfo"]]) -> Optional[str]:
+            return ', '.join(c.formatted_name() for c in (contacts or []) if c.name and not c.email) or None
 
-        maintainer_names = [a.name for a in (prjc.authors or []) if a.name]
-        maintainer_emails = [a.email for a in (prjc.authors or []) if a.email]
+        def emails(contacts: Optional[List["ContactInfo"]]) -> Optional[str]:
+            return ', '.join(
+                f'{c.formatted_name()} <{c.email}>' if c.name else c.email
+                for c in (contacts or []) if c.email) or None
 
         extras = list((prjc.optional_dependencies or {}).keys())
         all_deps = prjc.all_dependencies
@@ -127,9 +129,10 @@ class PackageMetadata(ConfigFile):
             'Metadata-Version': _METADATA_VERSION,
             'Name': prjc.name, 'Version': str(prjc.version),
             'Summary': prjc.description, 'Description': prjc.readme_content(),
-            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': prjc.keywords or [],
-            'Author': ', '.join(author_names), 'Author-email': ', '.join(author_emails),
-            'Maintainer': ', '.join(maintainer_names), 'Maintainer-email': ', '.join(maintainer_emails),
+            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': ','.join(prjc.keywords or []) or None,
+            'Author': names(prjc.authors), 'Author-email': emails(prjc.authors),
+            'Maintainer': names(prjc.maintainers), 'Maintainer-email': emails(prjc.maintainers),
+            'Project-URL': [f'{label}, {url}' for label, url in (prjc.urls or {}).items()],
             'License': prjc.license_content(), 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps],
             'Requires-Python': prjc.requires_python.to_pep440()
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 4ae90da..db95095 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import re
 from collections import defaultdict
 from dataclasses import dataclass, replace
-from email.header import Charset  # noqa
 from email.utils import specialsre, escapesre  # noqa
 from pathlib import Path
 from typing import List, Optional, Union, Dict, Mapping, Any, Iterator, Type
@@ -29,29 +28,22 @@ class BuildSystemConfig:
     backend_path: List[str] = config_field(key='backend-path')
 
 
-_contect_info_charset = Charset('utf-8')
-
-
 @dataclass(eq=True)
 @config
 class ContactInfo:
     name: str = None
     email: str = None
 
-    def __post_init__(self):
+    def formatted_name(self) -> Optional[str]:
         """
-        adjusted from source of email.utils.formataddr, make sure the given name is according to rfc822
+        :return: the contact name, quoted according to rfc822
+        adjusted from source of email.utils.formataddr
         """
-        try:
-            self.name.encode('ascii')
-        except UnicodeEncodeError:
-            self.name = _contect_info_charset.header_encode(self.name)
-        else:
-            quotes = ''
-            if specialsre.search(self.name):
-                quotes = '"'
-            name = escapesre.sub(r'\\\g<0>', self.name)
-            self.name = f"{quotes}{name}{quotes}"
+        if not self.name or not specialsre.search(self.name):
+            return self.name
+
+        name = escapesre.sub(r'\\\g<0>', self.name)
+        return f'"{name}"'
 
 
 def _entrypoints_from_config(group: str, ep: Dict[str, str]) -> List[EntryPoint]:
@@ -85,8 +77,18 @@ class PkmApplicationConfig:
 @dataclass(eq=True)
 @config
 class PkmProjectConfig:
-    packages: Optional[List[str]] = None
-    group: Optional[str] = None  # TODO: remove group and use conventions only?
+    packages: List[str] = None
+    group: str = None  # TODO: remove group and use conventions only?
+
+
+class _TableText(str):
+    """ text that was given in a table, keeps the other values of this table (e.g., content-type) """
+    table: Dict[str, Any]
+
+
+class _TablePath(type(Path())):
+    """ path that was given in a table, keeps the other values of this table (e.g., content-type) """
+    table: Dict[str, Any]
 
 
 class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
@@ -101,14 +103,16 @@ class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
         if not isinstance(v, Mapping):
             raise ValueError(f"malformed value: {v}")
 
-        if 'text' in v:
-            return v['text']
-        else:
-            return Path(v['file'])
+        result = _TableText(v['text']) if 'text' in v else _TablePath(v['file'])
+        result.table = v
+        return result
 
     def unparse(self, parent: ConfigCodec, type_: Type, v: Union[Path, str, None]) -> Any:
+        table = {k: tv for k, tv in getattr(v, 'table', {}).items() if k not in ('file', 'text')}
         if isinstance(v, Path):
-            return {'file': str(v)}
+            return {'file': str(v), **table}
+        elif isinstance(v, _TableText):
+            return {'text': str(v), **table}
         elif self._allows_raw_text:
             return v
         else:
@@ -165,13 +169,13 @@ class ProjectConfig:
     def entry_points(self) -> Mapping[str, List[EntryPoint]]:
         result: Dict[str, List[EntryPoint]] = defaultdict(list)
         if self._entry_points:
-            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self.entry_points.values()})
+            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items()})
         if self._scripts:
             result[EntryPoint.G_CONSOLE_SCRIPTS] \
                 .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._scripts))
         if self._gui_scripts:
             result[EntryPoint.G_GUI_SCRIPTS] \
-                .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._gui_scripts))
+                .extend(_entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts))
 
         return result
 
@@ -189,7 +193,7 @@ class ProjectConfig:
         """
         return (d := self.dynamic) and field in d  # noqa
 
-    @cached_property
+    @property
     def all_dependencies(self) -> List[Dependency]:
         all_deps = [d for d in (self.dependencies or [])]
         optional_deps = self.optional_dependencies or {}
@@ -197,8 +201,8 @@ class ProjectConfig:
             extra_rx = re.compile(f'extra\\s*==\\s*(\'{od_group}\'|"{od_group}")')
             for dep in deps:
                 if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):
-                    new_marker = (str(dep.env_marker).rstrip(';') + ';') if dep.env_marker else ''
-                    new_marker = f"{new_marker}extra==\'{od_group}\'"
+                    new_marker = f"({dep.env_marker}) and " if dep.env_marker else ''
+                    new_marker = f"{new_marker}extra=='{od_group}'"
                     all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))
                 else:
                     all_deps.append(dep)
@@ -230,6 +234,9 @@ class ProjectConfig:
             yield from gui_scripts
 
     def readme_content_type(self) -> str:
+        if content_type := getattr(self.readme, 'table', {}).get('content-type'):
+            return content_type
+
         if self.readme and isinstance(self.readme, Path):
             readme_suffix = self.readme.suffix
             if readme_suffix == '.md':
diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 94368df..d83ba7b 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -17,6 +17,7 @@ _T = TypeVar("_T")
 _RAW_CONFIG_T = Dict[str, Any]
 _CONFIG_SCHEMA_FIELD = "__config_schema__"
 _CONFIG_IO_FIELD = "__config_io__"
+_UNKNOWN_CONFIG_FIELD = "__unknown_config__"
 
 
 # noinspection PyUnusedLocal
@@ -276,6 +277,14 @@ def _shove_key(config_: _RAW_CONFIG_T, key: str, value: Any):
     config_[parts[-1]] = value
 
 
+def _add_missing(config_: _RAW_CONFIG_T, other: Mapping[str, Any]):
+    for key, value in other.items():
+        if key not in config_:
+            config_[key] = value
+        elif isinstance(value, Mapping) and isinstance(config_[key], Mapping):
+            _add_missing(config_[key], value)
+
+
 class ConfigCodec:
 
     def __init__(self, field_codecs: Mapping[Type, ConfigFieldCodec] = None):
@@ -340,6 +349,10 @@ class ConfigCodec:
 
             setattr(target_object, field, value)
 
+        if not any(schema.leftover for schema in field_schema.values()):
+            # keep what is unknown to the schema, so that it will not be lost when the configuration is saved
+            setattr(target_object, _UNKNOWN_CONFIG_FIELD, config_)
+
         if call_post_init and callable(post_init := getattr(target_object, '__post_init__', None)):
             post_init()
 
@@ -347,13 +360,14 @@ class ConfigCodec:
 
     def unparse(self, config_object: Any) -> _RAW_CONFIG_T:
         target_config = {}
+        leftovers = [getattr(config_object, _UNKNOWN_CONFIG_FIELD, {})]
         field_schema: Dict[str, ConfigField] = getattr(type(config_object), _CONFIG_SCHEMA_FIELD)
 
         for field, schema in field_schema.items():
             value = getattr(config_object, field, None)
             if value is not None:
                 if schema.leftover:
-                    target_config.update(value)
+                    leftovers.append(value)
                     continue
                 elif codec := schema.codec or self.field_codec_for_or_none(schema.type):
                     try:
@@ -372,6 +386,10 @@ class ConfigCodec:
                     continue
 
                 _shove_key(target_config, schema.key or field, value)
+
+        for leftover in leftovers:
+            _add_missing(target_config, leftover)
+
         return target_config
 
 
-- 
2.43.0


From 4d622efeb36c90b759a658668c9ae8067067b045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 26/78] fix: the comment next to a value survives assigning
 another value

---
 pkm/src/pkm/config/toml.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 45418d9..7916ef3 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -1,6 +1,6 @@
 import re
 from copy import copy
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from numbers import Number
 from pathlib import Path
 from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable, Iterable
@@ -145,8 +145,15 @@ class _StyleSheet:
 
     def value_style(self, key: KEY_T, value: Any, display: str = 'auto') -> _ValueStyle:
         predefined_style = self.values.get(key)
-        if not predefined_style or not predefined_style.value_sig.is_similar_to(value):
+        if not predefined_style:
             predefined_style = _DEFAULT_VALUE_STYLE
+        elif not predefined_style.value_sig.is_similar_to(value):
+            if predefined_style.value_str is not None and not isinstance(value, (List, Mapping)) \
+                    and not isinstance(key[-1], int):
+                # another value is assigned to this key, what surrounds it is kept
+                predefined_style = replace(predefined_style, value_str=None)
+            else:
+                predefined_style = _DEFAULT_VALUE_STYLE
         elif not self._can_display(predefined_style.display, key, value):
             predefined_style = copy(predefined_style)
             predefined_style.display = 'auto'
-- 
2.43.0


From 2d979645712afe92ccd301aba4444bc9edc54e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 27/78] fix: uploads end with the closing boundary, can be sent
 again in full, and name their fields and python tag as the index expects

---
 pkm/src/pkm/repositories/pypi_repository.py |  9 +++++++--
 pkm/src/pkm/utils/http/mfd_payload.py       | 11 +++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 6577c9f..54ff893 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -137,6 +137,10 @@ def _create_artifact_from_pypi_release(release: Dict[str, Any]) -> Optional[Pack
     )
 
 
+# metadata fields that are named differently in the upload form
+_UPLOAD_FIELD_NAMES = {'classifier': 'classifiers', 'project_url': 'project_urls'}
+
+
 # https://warehouse.pypa.io/api-reference/legacy.html
 class PyPiPublisher(RepositoryPublisher):
 
@@ -152,8 +156,9 @@ class PyPiPublisher(RepositoryPublisher):
         print(f"uploading distribution: {distribution}")
 
         data = {k.replace('-', '_').lower(): v for k, v in package_meta.to_config().items()}
+        data = {_UPLOAD_FIELD_NAMES.get(k, k): v for k, v in data.items()}
         file_type = 'bdist_wheel' if distribution.suffix == '.whl' else 'sdist'
-        py_version = distribution.name.split("-")[2] if distribution.suffix == '.whl' else 'source'
+        py_version = distribution.stem.split("-")[-3] if distribution.suffix == '.whl' else 'source'
 
         md5, sha256, blake2 = hashlib.md5(), hashlib.sha256(), hashlib.blake2b(digest_size=256 // 8)
         with distribution.open('rb') as d_fd:
@@ -190,7 +195,7 @@ class PyPiPublisher(RepositoryPublisher):
                 ("Content-Type", payload.content_type()),
             ])
 
-            with self._http.post(f"{self._publish_url}/", payload, headers=headers,
+            with self._http.post(f"{self._publish_url.rstrip('/')}/", payload, headers=headers,
                                  max_redirects=0) as response:
                 if response.status != 200:
                     content = response.read()
diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index 8404434..085b86b 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -14,6 +14,7 @@ class FormField:
     def __init__(self, name: str, payload: Union[IO, str, bytes], filename: Optional[str] = None):
         self.name: str = name
         self.payload = payload
+        self._start = payload.tell() if isinstance(payload, IOBase) and payload.seekable() else None
         self.filename = filename or name
         filename_header_part = f'; filename="{filename}"' if filename else ""
         self.headers = {
@@ -25,6 +26,13 @@ class FormField:
         self.headers["Content-Type"] = content_type
         return self
 
+    def rewind(self):
+        """
+        return the payload to where it was when this field was created (so that a request can be sent again)
+        """
+        if self._start is not None:
+            self.payload.seek(self._start)
+
     # credits: this method is adapted from urllib3.fields.RequestField.render_headers
     def render(self) -> str:
         lines = [f"{k}: {self.headers[k]}" for k in _FORM_FIELD_SORTED_HEADERS if k in self.headers]
@@ -54,6 +62,7 @@ class MultipartFormDataPayload:
 
             payload = field.payload
             if isinstance(payload, IOBase):
+                field.rewind()
                 yield from chunks(payload, chunk_size)
             elif isinstance(payload, str):
                 yield payload.encode()
@@ -64,6 +73,8 @@ class MultipartFormDataPayload:
 
             yield newline
 
+        yield f"--{self._boundary}--\r\n".encode()
+
 
 def _guess_content_type(filename: Optional[str], default="application/octet-stream"):
     if filename:
-- 
2.43.0


From 5036a10f5cd72f8c0151cdf8af473860a1d01898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 28/78] fix: waiting for a group settles the cancelled promises
 too, a promise knows that it failed whatever the truth value of its error

---
 pkm/src/pkm/utils/promises.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/utils/promises.py b/pkm/src/pkm/utils/promises.py
index e432a52..46c6228 100644
--- a/pkm/src/pkm/utils/promises.py
+++ b/pkm/src/pkm/utils/promises.py
@@ -103,11 +103,13 @@ def await_all_promises_or_cancel(promises: List[Promise]):
     try:
         await_all_promises(promises)
     except Exception as e:
-        for p in [uncanceled for uncanceled in promises if not uncanceled.request_cancel()]:
+        canceled = [p.request_cancel() for p in promises]
+        for p, is_canceled in zip(promises, canceled):
             try:
                 p.result()
             except BaseException as ie:
-                warnings.warn(f"multiple errors while waiting for promises to complete: {ie}")
+                if ie is not e and not is_canceled:
+                    warnings.warn(f"multiple errors while waiting for promises to complete: {ie}")
         raise e
 
 
@@ -181,7 +183,7 @@ class _SimplePromise(Promise[_T]):
         while True:
             with self._wait_lock:
                 if self._done:
-                    if self._err:
+                    if self._err is not None:
                         raise self._err
                     return self._result
 
@@ -194,7 +196,7 @@ class _SimplePromise(Promise[_T]):
         return self._done
 
     def is_failed(self) -> bool:
-        return self._done and self._err
+        return self._done and self._err is not None
 
     def request_cancel(self) -> bool:
         return False
-- 
2.43.0


From 6c57b3a1d8fe909a8113a3106ded568e4e4ad8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 29/78] fix: the process pool survives tasks that kill their
 worker, cannot be sent or write to the standard streams, cancels what was
 asked and finishes its work when closed

---
 pkm/src/pkm/utils/multiproc/__init__.py | 186 ++++++++++++++++--------
 1 file changed, 125 insertions(+), 61 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index bb410c9..3dd2d5d 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -7,6 +7,7 @@ import sys
 import traceback
 import typing
 from abc import ABC, abstractmethod
+from concurrent.futures import CancelledError
 from dataclasses import dataclass
 from io import StringIO
 from pathlib import Path
@@ -24,6 +25,15 @@ _T = TypeVar("_T")
 _PARAMS: "typing.ParamSpec" = ParamSpec("_PARAMS")
 
 
+def _write_message(data: bytes, stream: BinaryIO):
+    pickle.dump(data, stream)
+    stream.flush()
+
+
+def _read_message(stream: BinaryIO) -> bytes:
+    return pickle.load(stream)
+
+
 @dataclass
 class _StdWrite:
     msg: str
@@ -72,9 +82,13 @@ class _Worker:
         self._stdout_lock = Lock()
 
     def _attach_to_process(self):
-        self._stdout = sys.stdout.buffer
-        self._stderr = sys.stderr.buffer
-        self._stdin = sys.stdin.buffer
+        # tasks (or processes that they start) may use the standard streams directly, keep the channels out of their reach
+        self._stdin, self._stdout, self._stderr = \
+            [os.fdopen(os.dup(fd), mode) for fd, mode in ((0, 'rb'), (1, 'wb'), (2, 'wb'))]
+
+        with open(os.devnull, 'r+b') as devnull:
+            for fd in (0, 1, 2):
+                os.dup2(devnull.fileno(), fd)
 
         sys.stdout = _StandardStreamPipe(self._stdout, 0, self._stdout_lock)
         sys.stderr = _StandardStreamPipe(self._stdout, 1, self._stdout_lock)
@@ -82,16 +96,20 @@ class _Worker:
     def run(self):
         self._attach_to_process()
         while True:
-            cmd: _Command = pickle.load(self._stdin)
             try:
-                result = cmd.execute()
-                pickle.dump(_CommandResult(result), self._stderr)
-                self._stderr.flush()
+                message = _read_message(self._stdin)
+            except EOFError:
+                return
+
+            try:
+                cmd: _Command = pickle.loads(message)
+                result = pickle.dumps(_CommandResult(cmd.execute()))
             except Exception as e:  # noqa
                 err_strace = StringIO()
                 traceback.print_exc(file=err_strace)
-                pickle.dump(_CommandResult(err_strace=err_strace.getvalue()), self._stderr)
-                self._stderr.flush()
+                result = pickle.dumps(_CommandResult(err_strace=err_strace.getvalue()))
+
+            _write_message(result, self._stderr)
 
 
 class _WorkerHandler:
@@ -105,61 +123,85 @@ class _WorkerHandler:
         executable = sys.executable
         self._proc = Popen(
             args=[executable, "-u", str(Path(__file__).parent / "worker.py")],
-            stderr=PIPE, stdout=PIPE, stdin=PIPE, bufsize=0,
+            stderr=PIPE, stdout=PIPE, stdin=PIPE,
             env=os.environ
         )
 
-    def _should_terminate(self):
-        return self._pool.is_closed() or self._proc.poll() is not None
-
     def _handle_log(self):
         try:
-            stream = [sys.stdout, sys.stderr]
-            while not self._should_terminate():
+            while True:
                 write: _StdWrite = pickle.load(self._proc.stdout)
-                stream[write.stream_id].write(write.msg)
+                (sys.stdout, sys.stderr)[write.stream_id].write(write.msg)
         except EOFError:
             pass
 
     def __del__(self):
-        if self._proc.poll() is not None:
+        if self._proc is not None and self._proc.poll() is None:
             self._proc.kill()
 
     def _handle_work(self):
         q = self._pool._task_queue  # noqa
+        usable, retired = True, False
         try:
-            while not self._should_terminate():
-
+            while usable and not retired:
                 try:
-                    next_task: _Task = q.get(block=True, timeout=self._pool.max_inactivity_seconds)
+                    next_task: Optional[_Task] = q.get(block=True, timeout=self._pool.max_inactivity_seconds)
                 except Empty:
-                    self.kill()
-                    self._proc.wait()
                     return
 
-                task_result: _TaskResult = cast(_TaskResult, next_task.result)
-                next_task.result = None
-
                 try:
-                    if task_result.attach_worker(self):
-                        pickle.dump(next_task, self._proc.stdin)
-                        self._proc.stdin.flush()
-
-                        proc_result: _CommandResult = pickle.load(self._proc.stderr)
-
-                        if proc_result.err_strace:
-                            task_result.deferred.fail(
-                                Exception(
-                                    f"Worker Execution Failure, Worker Stacktrace was: \n\n{proc_result.err_strace}"))
-                        else:
-                            task_result.deferred.complete(proc_result.result)
-                except BaseException as e:
-                    task_result.deferred.fail(e)
+                    if retired := next_task is None:
+                        continue
+                    usable = self._handle_task(next_task)
                 finally:
                     q.task_done()
         finally:
+            self.kill()
+            self._proc.wait()
             # noinspection PyProtectedMember
-            self._pool._removed_worker(self)
+            self._pool._removed_worker(self, not retired)
+
+    def _handle_task(self, task: _Task) -> bool:
+        """
+        :param task: the task to execute in this worker process
+        :return: True if this worker may be used to execute more tasks, False otherwise
+        """
+        task_result, task.result = cast(_TaskResult, task.result), None
+
+        if not task_result.attach_worker(self):
+            return True
+
+        result: Any = None
+        err: Optional[BaseException] = None
+        try:
+            message = pickle.dumps(task)
+        except BaseException as e:
+            err, responsive = e, True
+        else:
+            try:
+                _write_message(message, self._proc.stdin)
+                message, responsive = _read_message(self._proc.stderr), True
+            except BaseException as e:
+                err, responsive = e, False
+            else:
+                try:
+                    proc_result: _CommandResult = pickle.loads(message)
+                    result = proc_result.result
+                    if proc_result.err_strace:
+                        err = Exception(
+                            f"Worker Execution Failure, Worker Stacktrace was: \n\n{proc_result.err_strace}")
+                except BaseException as e:
+                    err = e
+
+        if not task_result.detach_worker():  # canceled, it is too late to use the worker
+            err, responsive = CancelledError(), False
+
+        if err is not None:
+            task_result.deferred.fail(err)
+        else:
+            task_result.deferred.complete(result)
+
+        return responsive
 
     def kill(self):
         self._proc.kill()
@@ -193,6 +235,7 @@ class _TaskResult:
     def __init__(self):
         self.deferred = Deferred(self._on_cancel)
         self._canceled = False
+        self._finished = False
         self._attached_worker: Optional[_WorkerHandler] = None
         self._lock = Lock()
 
@@ -204,13 +247,23 @@ class _TaskResult:
 
         return True
 
+    def detach_worker(self) -> bool:
+        with self._lock:
+            self._attached_worker = None
+            self._finished = True
+            return not self._canceled
+
     def _on_cancel(self) -> bool:
-        if self._canceled or self.deferred.promise().is_completed():
-            with self._lock:
-                self._canceled = True
-                if self._attached_worker:
-                    self._attached_worker.kill()
+        with self._lock:
+            if self._canceled or self._finished:
+                return self._canceled
+
+            self._canceled = True
+            if self._attached_worker:
+                self._attached_worker.kill()  # the worker's handler will notice and report the cancellation
+                return True
 
+        self.deferred.fail(CancelledError())
         return True
 
 
@@ -220,7 +273,7 @@ class ProcessPoolExecutor(Closeable):
             self, max_workers: int = multiprocessing.cpu_count(), task_queue: Optional[Queue] = None,
             max_inactivity_seconds: int = 15):
         self._closed = False
-        self._task_queue: Queue[_Task] = task_queue or Queue()
+        self._task_queue: Queue[Optional[_Task]] = task_queue or Queue()
         self._workers_lock = Lock()
         self._next_worker_id = 0
         self._workers: Dict[str, _WorkerHandler] = {}
@@ -230,43 +283,54 @@ class ProcessPoolExecutor(Closeable):
     def execute(self, execution: Callable[_PARAMS, _T],
                 *args: _PARAMS.args, **kwargs: _PARAMS.kwargs) -> Promise[_T]:
 
-        assert not self._closed or execution == sys.exit, "attempting execution after/during shutdown"
-
         result = _TaskResult()
 
-        # noinspection PyTypeChecker
-        self._task_queue.put(_Task(execution, args, kwargs, result))
+        with self._workers_lock:
+            assert not self._closed, "attempting execution after/during shutdown"
+
+            # noinspection PyTypeChecker
+            self._task_queue.put(_Task(execution, args, kwargs, result))
 
         self._spawn_new_worker_if_needed()
 
         return result.deferred.promise()
 
-    def _removed_worker(self, worker: _WorkerHandler):
+    def _removed_worker(self, worker: _WorkerHandler, replace: bool):
         with self._workers_lock:
             del self._workers[worker.name]
 
-        self._spawn_new_worker_if_needed()
+        if replace:
+            self._spawn_new_worker_if_needed()
 
     def _spawn_new_worker_if_needed(self):
-        new_worker = None
         with self._workers_lock:
             n_workers = len(self._workers)
             if self._task_queue.unfinished_tasks > n_workers and n_workers < self._max_workers:
                 new_worker = _WorkerHandler(self, f"worker {self._next_worker_id}")
                 self._next_worker_id += 1
                 self._workers[new_worker.name] = new_worker
-        if new_worker:
-            new_worker.start()
+                try:
+                    new_worker.start()
+                except BaseException:
+                    del self._workers[new_worker.name]
+                    raise
 
     def close(self):
-        self._closed = True
+        with self._workers_lock:
+            if not self._closed:
+                self._closed = True
+                for _ in self._workers:
+                    self._task_queue.put(None)  # retires one worker, after the tasks that were already submitted
+
+        while True:
+            with self._workers_lock:
+                workers = list(self._workers.values())
 
-        workers = list(self._workers.values())
-        for _ in workers:
-            self.execute(sys.exit, 0)
+            if not workers:
+                return
 
-        for worker in workers:
-            worker.join()
+            for worker in workers:
+                worker.join()
 
     def is_closed(self) -> bool:
         return self._closed
-- 
2.43.0


From 50b86495e9e6b18fffa6de88d8a9ca7a931f1f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 30/78] fix: command lines with empty, unexpected or repeated
 values, commands made from functions, help of long-only options

---
 .../pkm_cli/api/dynamic_cli/command_parser.py | 51 ++++++++++++++-----
 .../pkm_cli/api/dynamic_cli/help_generator.py | 14 +++--
 .../pkm_cli/api/dynamic_cli/method_parser.py  | 34 ++++++++-----
 3 files changed, 68 insertions(+), 31 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
index 3817edb..25761ec 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
@@ -142,7 +142,10 @@ class DefaultArgumentReader(ArgumentReader):
 
     def read(self, cmd: Command, argument: ArgumentDef, buf: ArgumentsBuffer) -> Any:
         v = buf.next_or_raise(f"value is expected for {argument.display_name}")
-        return self.type(v)
+        try:
+            return self.type(v)
+        except ValueError as e:
+            raise CommandParsingError(f"illegal value for argument {argument.display_name}: {v}") from e
 
     def value_hint(self) -> str:
         return camel_case_to_upper_snake_case(self.type.__name__)
@@ -398,7 +401,7 @@ def command_definitions_from(env: Union[Iterable[Any], Dict[str, Any]]) -> List[
 
 class ArgumentsBuffer:
     def __init__(self, args: List[str], index: int = 0):
-        self._args = args
+        self._args = list(args)
         self._index = index
 
     def skip(self):
@@ -421,17 +424,21 @@ class ArgumentsBuffer:
             return result
         raise CommandParsingError(err)
 
-    def next_option_key(self):
+    def next_option_key(self) -> Tuple[str, bool]:
+        """
+        consumes the key of the next option, if a value was attached to it (`key=value`) the value is left as the next arg
+        :return: the key and whether a value was attached to it
+        """
         if not (option_ := self.peek_or_none()):
             raise CommandParsingError("option expected")
 
-        okey, _, oval = option_.partition("=")
-        if oval:
-            self._args[self._index] = oval.strip()
+        okey, has_value, oval = option_.partition("=")
+        if has_value:
+            self._args[self._index] = oval
         else:
             self._index += 1
 
-        return okey.strip()
+        return okey.strip(), bool(has_value)
 
     def remaining(self) -> int:
         return len(self._args) - self._index
@@ -506,11 +513,17 @@ class DynamicCommandLine:
             subfields_map: Dict[str, ArgumentDef] = {name: it for it in subfields for name in it.defined_names}
 
             while (next_ := self._buffer.peek_or_none()) and next_.startswith("+"):
-                option_ = self._buffer.next_option_key()
+                option_, has_value = self._buffer.next_option_key()
                 if not (option_def := subfields_map.get(option_)):
                     raise CommandParsingError(f"unrecognized field: {option_} for target: {arg_def.display_name}")
+                if has_value:
+                    self._require_value_expected(option_def)
 
-                value[option_def.field_name] = option_def.read_value(self._command, self._buffer)
+                field_value = option_def.read_value(self._command, self._buffer)
+                if option_def.is_multival():
+                    get_or_put(value, option_def.field_name, list).append(field_value)
+                else:
+                    value[option_def.field_name] = field_value
 
             for subfield in subfields:
                 if subfield.field_name not in value:
@@ -555,16 +568,23 @@ class DynamicCommandLine:
     def _get_option(self, key: str) -> OptionDef:
         node = self._command.ast
         if not (option_def := node.options.get(key) or self._global_options.get(key)):
-            print(f"options: {node.options} as ast: {node.path} | cdef={node.command_def}")
             raise CommandParsingError(f"unknown option: {key}")
         return option_def
 
+    @staticmethod
+    def _require_value_expected(option_def: OptionDef):
+        if option_def.is_flag():
+            raise CommandParsingError(f"option {option_def.display_name} does not accept a value")
+
     def _read_option_or_flag(self):
         node, command_ = self._command.ast, self._command
-        next_ = self._buffer.next_option_key()
+        next_, has_value = self._buffer.next_option_key()
 
         if next_.startswith("--"):  # long option
-            self._read_option_value(self._get_option(next_))
+            long_option = self._get_option(next_)
+            if has_value:
+                self._require_value_expected(long_option)
+            self._read_option_value(long_option)
 
         elif next_.startswith("-"):
             need_value: Optional[OptionDef] = None
@@ -580,15 +600,17 @@ class DynamicCommandLine:
 
             if need_value:
                 self._read_option_value(need_value)
+            elif has_value:
+                raise CommandParsingError(f"option {next_} does not accept a value")
 
     def parse(self) -> Command:
         self._expand_positional_dynamics()
 
         try:
-            while next_ := self._buffer.peek_or_none():
+            while (next_ := self._buffer.peek_or_none()) is not None:
                 node = self._command.ast
 
-                if next_.startswith("-"):  # long option
+                if next_.startswith("-") and next_ != "-":  # option ("-" by itself is a value)
                     self._read_option_or_flag()
                 elif next_.startswith("+"):
                     raise CommandParsingError(
@@ -598,6 +620,7 @@ class DynamicCommandLine:
                     self.finilize_command()
                     self._command = Command(subcommand, path=(*self._command.path, next_), parent=self._command)
                     self._positional_index = 0
+                    self._expand_positional_dynamics()
                     node = subcommand
                 elif node.positional_args and self._positional_index < len(node.positional_args):
                     self._read_positional()
diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/help_generator.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/help_generator.py
index e574c9e..cee5b0d 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/help_generator.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/help_generator.py
@@ -3,7 +3,7 @@ from typing import Dict, List
 
 from pkm.utils.commons import MISSING
 from pkm.utils.seqs import seq
-from pkm_cli.api.dynamic_cli.command_parser import Command, OptionDef, ArgumentDef, ConstantReader
+from pkm_cli.api.dynamic_cli.command_parser import Command, OptionDef, ArgumentDef, ConstantReader, DynamicArgumentsDef
 
 
 def generate_arguments_overview(command: Command) -> str:
@@ -28,11 +28,11 @@ def generate_arguments_overview(command: Command) -> str:
             if option.help:
                 lines.append(f"      {option.help}")
 
-    if node.positional_args:
+    if positional_args := [it for it in node.positional_args if not isinstance(it, DynamicArgumentsDef)]:
         lines.append(f"{secsep}Positional Arguments: ")
         secsep = "\n"
-        positional_display_names = [header(p) for p in node.positional_args]
-        for dname, positional in zip(positional_display_names, node.positional_args):
+        positional_display_names = [header(p) for p in positional_args]
+        for dname, positional in zip(positional_display_names, positional_args):
             lines.append(f"  {dname}")
             if positional.help:
                 lines.append(f"      {positional.help}")
@@ -73,6 +73,10 @@ def generate_usage(command: Command) -> str:
             argument_tokens.extend(group_tokens)
 
     for positional in node.positional_args:
+        if isinstance(positional, DynamicArgumentsDef):  # not expanded yet
+            argument_tokens.append("[...]")
+            continue
+
         positional_str = positional.name
         if isinstance(positional.reader, ConstantReader):
             positional_str = positional.reader.constant
@@ -116,7 +120,7 @@ def _create_option_usage_tokens(tokens: List[str], options: List[ArgumentDef]):
         tokens.append(f"[-{''.join(combined_flags_tokens)}]")
 
     for option_ in options:
-        option_short_name = option_.short_name()
+        option_short_name = option_.short_name() or option_.long_name()
         if val_hint := option_.reader.value_hint():
             sep = " " if option_short_name.startswith("-") else "="
             option_str = f"{option_short_name}{sep}{val_hint}"
diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
index 5380e19..354602a 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
@@ -2,7 +2,7 @@ import inspect
 import typing
 from collections import defaultdict
 from textwrap import dedent
-from typing import List, Dict, Set, Type
+from typing import Any, List, Dict, Set, Type
 
 from pkm.utils.commons import MISSING
 from pkm.utils.types import Func
@@ -29,15 +29,15 @@ def fields_from_method(mtd: Func) -> List[OptionDef]:
     def field_name(arg_: str) -> str:
         return f"+{arg_.replace('_', '-')}"
 
-    for arg in args_spec.args:
+    for arg, default in zip(args_spec.args, _positional_defaults(args_spec)):
         fields.append(
-            option(field_name(arg), reader=arg_types.get(arg, str), help=doc.get(arg, "")))
+            option(field_name(arg), reader=arg_types.get(arg, str), default=default, help=doc.get(arg, "")))
 
     if arg := args_spec.varargs:
         fields.append(option(
-            field_name(arg), reader=arg_types.get(arg, str), repeatable=True, help=doc.get(arg, "")))
+            field_name(arg), reader=arg_types.get(arg, str), repeatable=True, default=[], help=doc.get(arg, "")))
 
-    kwdefaults = args_spec.kwonlydefaults
+    kwdefaults = args_spec.kwonlydefaults or {}
     missing = object()
     for kwarg in args_spec.kwonlyargs:
         kwarg_type = arg_types.get(kwarg, str)
@@ -55,6 +55,11 @@ def fields_from_method(mtd: Func) -> List[OptionDef]:
     return fields
 
 
+def _positional_defaults(args_spec: inspect.FullArgSpec) -> List[Any]:
+    defaults = args_spec.defaults or ()
+    return ([MISSING] * (len(args_spec.args) - len(defaults))) + list(defaults)
+
+
 def command_definition_from_method(mtd: Func, path: str = "") -> CommandDef:
     if not path:
         path = mtd.__name__
@@ -66,17 +71,15 @@ def command_definition_from_method(mtd: Func, path: str = "") -> CommandDef:
     arg_types = _adjust_types(typing.get_type_hints(mtd))
 
     # positionals:
-    arg_defaults = args_spec.defaults or ()
-    positional_defaults = ([MISSING] * (len(args_spec.args) - len(arg_defaults))) + list(arg_defaults)
-    for arg, default in zip(args_spec.args, positional_defaults):
+    for arg, default in zip(args_spec.args, _positional_defaults(args_spec)):
         cli_args.append(
             positional(arg.replace("_", "-"), reader=arg_types.get(arg, str), default=default, help=doc.get(arg, "")))
 
     if arg := args_spec.varargs:
         cli_args.append(positional(
-            arg.replace("_", "-"), reader=arg_types.get(arg, str), n_values="*", help=doc.get(arg, "")))
+            arg.replace("_", "-"), reader=arg_types.get(arg, str), n_values="*", default=[], help=doc.get(arg, "")))
 
-    kwdefaults = args_spec.kwonlydefaults
+    kwdefaults = args_spec.kwonlydefaults or {}
     option_names = _generate_option_names(args_spec.kwonlyargs)
     missing = object()
     for kwarg in args_spec.kwonlyargs:
@@ -92,10 +95,17 @@ def command_definition_from_method(mtd: Func, path: str = "") -> CommandDef:
                 option_.default_value = kwarg_default
 
             cli_args.append(option_)
-    allowed_args = {it.field_name for it in cli_args}
+    args_fields = {it.field_name for it in cli_args}
+    varargs_field = args_spec.varargs
 
     def execution(cmd: Command):
-        return mtd(**{k: v for k, v in cmd.arguments.items() if k in allowed_args})
+        kwargs = {k: v for k, v in cmd.arguments.items() if k in args_fields}
+        if not varargs_field:
+            return mtd(**kwargs)
+
+        # values for `*args` can only be given positionally, after all the arguments that precede it
+        args = [kwargs.pop(it) for it in args_spec.args]
+        return mtd(*args, *kwargs.pop(varargs_field), **kwargs)
 
     desc = doc.get("", "")
     short_desc = _doc_to_short_desc(desc)
-- 
2.43.0


From 3ca00b0873f266996906ff32dbc553cd356bb682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 31/78] fix: keep the authentication store locked, or as it
 was, after a wrong password

---
 pkm-cli/src/pkm_cli/auth/publish_auth_store.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/auth/publish_auth_store.py b/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
index 629fb59..dcaf319 100644
--- a/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
+++ b/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
@@ -43,21 +43,23 @@ class PublishAuthenticationStore:
                         Display.print("Passwords did not match, retrying process.")
                         continue
                     break
-            self._cipher = _make_cipher(password)
-            self._unlocked_configuration = {}
+            cipher = _make_cipher(password)
+            configuration = {}
         else:
             if not password:
                 password = Display.ask_password("Please provide the authentication store password")
-            self._cipher = _make_cipher(password)
+            cipher = _make_cipher(password)
             try:
-                configuration_str = self._cipher.decrypt(configuration_path.read_bytes()).decode()
+                configuration_str = cipher.decrypt(configuration_path.read_bytes()).decode()
             except InvalidToken:
                 configuration_str = ""
             if not configuration_str.startswith(_PA_MAGIC):
                 raise IOError("Wrong password provided")
 
             configuration, _ = toml.loads(configuration_str[len(_PA_MAGIC):])
-            self._unlocked_configuration = configuration
+
+        self._cipher = cipher
+        self._unlocked_configuration = configuration
 
     def is_unlocked(self):
         return self._cipher is not None
-- 
2.43.0


From a6c3cf93c13d7a62004bd8c380f0a89720bf8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 32/78] fix: template rendering loses no files, changes nothing
 when it fails, honours nested ignore files and finds local templates

---
 .../pkm_cli/api/templates/template_runner.py  | 41 +++++++++++--------
 .../{{project_name}}/pyproject.toml.tmpl      |  2 +-
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index a038369..1ad2289 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -50,7 +50,7 @@ class TemplateRunner:
 
         local_template_file = Path(*name.split("."), "render.py")
         if local_template_file.exists():
-            yield Template(iu.spec_from_file_location(str(local_template_file.resolve())), self)
+            yield Template(iu.spec_from_file_location(renderer_name, local_template_file.resolve()), self)
             return
 
         try:
@@ -100,28 +100,34 @@ class Template:
 
         context = self._setup(args, module)
         ignored_files = self._load_ignored_files(self._template_dir)
-        if allow_overwrite:
-            self._render(self._template_dir, target_dir, context, ignored_files)
-        else:
-            with temp_dir() as tdir:
-                self._render(self._template_dir, tdir, context, ignored_files)
-                for file in tdir.rglob("*"):
-                    relative_file = file.relative_to(tdir)
-                    if (target_file := target_dir / relative_file).exists() and not target_file.is_dir():
-                        raise IOError(f"file already exists: {target_file}")
-
-                shutil.copytree(tdir, target_dir, dirs_exist_ok=True)
+        with temp_dir() as tdir:
+            self._render(self._template_dir, tdir, context, ignored_files)
+            rendered = {file: target_dir / file.relative_to(tdir) for file in sorted(tdir.rglob("*"))}
+
+            for file, target_file in rendered.items():
+                if not (target_file.exists() or target_file.is_symlink()):
+                    continue
+                if file.is_dir() != target_file.is_dir() or (not file.is_dir() and not allow_overwrite):
+                    raise IOError(f"file already exists: {target_file}")
+
+            target_dir.mkdir(parents=True, exist_ok=True)
+            for file, target_file in rendered.items():
+                if file.is_dir():
+                    target_file.mkdir(exist_ok=True)
+                else:
+                    shutil.copy(file, target_file)
         if callable(post_render := getattr(module, "post_render", None)):
             post_render(context)
 
     def _load_ignored_files(self, template_root: Path) -> Set[Path]:
         result = {self._template_dir / file for file in ("render.py", "__pycache__", ".templateignore")}
 
-        ignore_file = self._template_dir / ".templateignore"
+        ignore_file = template_root / ".templateignore"
 
         if ignore_file.exists():
             lines = ignore_file.read_text().splitlines()
-            result = {f.resolve() for line in lines if line.strip() for f in template_root.glob(line)}
+            result.add(ignore_file)
+            result.update(f for line in lines if line.strip() for f in template_root.glob(line.strip()))
 
         for sub_dir in template_root.iterdir():
             if sub_dir.is_dir():
@@ -139,7 +145,7 @@ class Template:
 
             name = jinja.from_string(template_child.name).render(context)
 
-            if not name:  # empty names indicate unneeded files
+            if not name or name == ".tmpl":  # empty names indicate unneeded files
                 continue
 
             target_child = (target_dir / name).resolve()
@@ -150,7 +156,7 @@ class Template:
             if template_child.is_dir():
                 if (template_child / ".templatepreserve").exists():
                     shutil.copytree(str(template_child.absolute()), str(target_child.absolute()))
-                    return
+                    continue
 
                 target_child.mkdir(exist_ok=True)
                 self._render(template_child, target_child, context, ignored_files)
@@ -191,8 +197,7 @@ class _TemplateExtendedBuiltins:
         self._allow_overwrite = None
 
     def render_template(self, name: str, **kwargs):
-        # noinspection PyProtectedMember
-        with self._runner._load_template(name) as t:
+        with self._runner.load_template(name) as t:
             t.execute(self._target_dir, kwargs, self._allow_overwrite)
 
     def confirm(self, prompt: str, default: bool = True) -> bool:
diff --git a/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl b/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
index b9de7cb..689cc5b 100644
--- a/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
+++ b/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
@@ -5,7 +5,7 @@ description = "{{description}}"
 readme = "README.{{readme_file_ext}}"
 requires-python= "~={{required_python}}"
 authors = [{name="{{author}}"}]
-license.text = "{{license}}"
+license.text = "{{license_text}}"
 dependencies = []
 
 [build-system]
-- 
2.43.0


From ed37dce65d3a13ba6c7c5d11d100f1409d94f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:52 +0000
Subject: [PATCH 33/78] fix: decide on wheels for musl systems and for 32 bit
 interpreters

---
 .../pkm/api/environments/environment_introspection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 124eb5a..ec04c4d 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -288,13 +288,15 @@ class EnvironmentIntrospection:
                     my_linux = "linux_i686"
                 elif my_platform == "linux_aarch64":
                     my_linux = "linux_armv7l"
+                my_platform = my_linux
 
             _, my_arch = my_linux.split("_", 1)
 
             my_glibc_version = None
             my_musl_version = None
             if (elf := _ElfData.read(Path(self.interpreter_path))) and elf.have_compatible_abi(my_arch):
-                my_glibc_version = self._glibc_version.release[:2]
+                if glibc_version := self._glibc_version:
+                    my_glibc_version = glibc_version.release[:2]
                 my_musl_version = elf.compute_musl_version()
 
             def linux_score(plt: str) -> Optional[Tuple]:
@@ -316,7 +318,7 @@ class EnvironmentIntrospection:
                     return None
 
                 if my_musl_version is not None and plt_no_arch.startswith("musllinux_"):
-                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_"))[1:3]
+                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_")[1:3])
                     if len(musl_ver) != 2 or musl_ver[0] != my_musl_version[0] or musl_ver[1] > my_musl_version[1]:
                         return None
                     return (1, *vdscore(my_musl_version, musl_ver))
@@ -560,8 +562,9 @@ class _ElfData:
                 fd.seek(ph_offset + i * ph_size)
                 header = _unpack(fd, structs.program_header)
                 if header[0] == _PT_INTERP:
-                    sz = header[5]
-                    fd.seek(header[2])
+                    # in 32 bit headers the segment's flags are not placed before its offset
+                    offset, sz = (header[1], header[4]) if is_32_bit else (header[2], header[5])
+                    fd.seek(offset)
                     interpreter = os.fsdecode(fd.read(sz)).strip("\0")
                     break
 
-- 
2.43.0


From e8f176e87c732eba7835bce87a136a357495f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:52 +0000
Subject: [PATCH 34/78] fix: prefer the version locked for the environment
 itself, find locks by normalized package names

---
 pkm/src/pkm/resolution/packages_lock.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 348b0bd..59bcfc3 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -38,7 +38,7 @@ class PackagesLock:
     def __init__(self, locked_packages: Optional[List[_LockedVersion]] = None, lock_file: Optional[Path] = None):
         locked_packages = unone(locked_packages, list)
         self._locked_packages: Dict[str, List[_LockedVersion]] = \
-            groupby(locked_packages, lambda it: it.package.name)
+            groupby(locked_packages, lambda it: it.package.name_key)
         self._lock_file = lock_file
 
     def unlock_packages(self, package_names: Iterable[str]) -> PackagesLock:
@@ -49,7 +49,7 @@ class PackagesLock:
         :return self (for chaining support)
         """
         for pn in package_names:
-            self._locked_packages.pop(pn, None)
+            self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)
 
         return self
 
@@ -71,7 +71,7 @@ class PackagesLock:
         """
 
         relevant_locks = [lp for lst in self._locked_packages.values() for lp in lst] if not package else \
-            [lp for lp in (self._locked_packages.get(package) or ())]
+            [lp for lp in (self._locked_packages.get(PackageDescriptor.package_name_key(package)) or ())]
 
         if not relevant_locks:
             return []
@@ -102,7 +102,7 @@ class PackagesLock:
         for package in env.site_packages.installed_packages():
             new_locks.append(_LockedVersion(env_hash, package.descriptor))
 
-        self._locked_packages = groupby(new_locks, lambda it: it.package.name)
+        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)
         return self
 
     def save(self, lock_file: Optional[Path] = None):
@@ -120,8 +120,10 @@ class PackagesLock:
 
     def sort_packages_by_lock_preference(self, env: Environment, packages: List[Package]) -> List[Package]:
         if packages:
+            # the version that is locked for this environment is preferred over the ones locked for the others
+            env_locked_versions = {lp.version for lp in self.env_specific_locks(env) if lp.name_key == packages[0].name_key}
             locked_versions = {lp.version for lp in self.locked_versions(env, packages[0].name)}
-            packages.sort(key=lambda it: 0 if it.version in locked_versions else 1)
+            packages.sort(key=lambda it: 0 if it.version in env_locked_versions else 1 if it.version in locked_versions else 2)
 
         return packages
 
-- 
2.43.0


From 312f345caa8379483f09234ad8cc3807d8e70f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 35/78] fix: tables that are added to a saved document keep
 their position among the other tables

---
 pkm/src/pkm/config/toml.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 7916ef3..967aa76 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -205,8 +205,24 @@ class _Writer:
 
     def write(self, data: Dict[str, Any]) -> str:
         key = ()
+        self._keep_tables_order(data, key)
         return self._write_value(data, key, self.style.value_style(key, data)).rstrip()
 
+    def _keep_tables_order(self, data: Any, key: KEY_T):
+        """
+        assignments precede sub-tables, so new tables that come after a sub-table must not be assigned (inlined)
+        """
+        follows_table = False
+        for partial_key, item in (data.items() if isinstance(data, Mapping) else enumerate(data)):
+            item_key = (*key, partial_key)
+            if isinstance(item, (Mapping, List)):
+                self._keep_tables_order(item, item_key)
+                display = self.style.value_style(item_key, item).display
+                if follows_table and display == 'inline' and isinstance(item, Mapping) \
+                        and item_key not in self.style.values:
+                    self.style.set_value_style(item_key, item, _ValueStyle(display='regular'))
+                follows_table = follows_table or display not in ('inline', 'dotted')
+
     def _write_value(self, data: Any, key: KEY_T, vstyle: _ValueStyle) -> str:
         if isinstance(data, bool):
             return self._write_bool(data, vstyle)
-- 
2.43.0


From cc78cf8685f99e44f2fac47e380b33cc25642271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 36/78] fix: descriptors of source distributions by their file
 names

---
 pkm/src/pkm/api/packages/package.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index c6d7e89..ae367ce 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -103,9 +103,12 @@ class PackageDescriptor:
         :param name: the file name
         :return: the resulted package descriptor
         """
-        parts = name.split("-")
-        version = Version.parse(parts[1])
-        return PackageDescriptor(parts[0], version)
+        if name.endswith(".whl"):
+            package_name, version = name.split("-")[:2]
+        else:  # the name of source distribution may contain dashes, its version cannot
+            package_name, _, version = re.sub(r"\.(tar\.\w+|zip)$", "", name).rpartition("-")
+
+        return PackageDescriptor(package_name, Version.parse(version))
 
 
 class Package(ABC):
-- 
2.43.0


From ee385514a51c84882f7373ffd0ab5b9a1c9334c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 37/78] fix: indexes that lack a package, relative links,
 yanked files and new content of simple repositories

---
 pkm/src/pkm/repositories/pypi_repository.py   |  2 ++
 pkm/src/pkm/repositories/simple_repository.py | 27 +++++++++++--------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 54ff893..0b8dfdd 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -51,6 +51,8 @@ class PyPiRepository(AbstractRepository, Serializable):
                                 resource_name=f"matching packages for {dependency}") \
                 .read_data_as_json()
         except HttpException as e:
+            if e.response is not None and e.response.status == 404:  # the repository does not have this package
+                return []
             raise InstallationException(
                 f"package: '{dependency.package_name}' could not be retrieved from repository: '{self.name}'") from e
 
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index e704b85..86f2a8a 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -1,6 +1,7 @@
 from html.parser import HTMLParser
 from pathlib import Path
 from typing import List, Union, Tuple, Dict, Optional, Callable
+from urllib.parse import urljoin
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.wheel_distribution import InstallationException
@@ -12,7 +13,7 @@ from pkm.api.repositories.repository import Repository, RepositoryBuilder, Abstr
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.http.cache_directive import CacheDirective
-from pkm.utils.http.http_client import Url
+from pkm.utils.http.http_client import Url, HttpException
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import groupby
 from pkm.utils.strings import endswith_any, without_suffix
@@ -26,14 +27,20 @@ class SimpleRepository(AbstractRepository):
     def __init__(self, name: str, url: str):
         super().__init__(name)
         self._url = url
-        self._base_url = Url.parse(url).connection_part()
         self._packages: Dict[str, Dict[str, Package]] = {}  # name -> version -> package
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
         if not (version_to_package := self._packages.get(dependency.package_name)):
-            data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
-            extractor = _HtmlArtifactsExtractor(self._base_url)
+            page_url = f"{self._url}/{dependency.package_name}"
+            try:
+                data = pkm.httpclient.fetch_resource(page_url, CacheDirective.ask_for_update()).data
+            except HttpException as e:
+                if e.response is not None and e.response.status == 404:  # the repository does not have this package
+                    return []
+                raise
+
+            extractor = _HtmlArtifactsExtractor(f"{page_url}/")
             extractor.feed(data.read_text())
 
             all_artifacts = extractor.artifacts
@@ -66,11 +73,11 @@ def _extract_version(filename: str) -> str:
 
 class _HtmlArtifactsExtractor(HTMLParser):
 
-    def __init__(self, base_url: str, *, convert_charrefs: bool = ...) -> None:
+    def __init__(self, page_url: str, *, convert_charrefs: bool = ...) -> None:
         super().__init__(convert_charrefs=convert_charrefs)
         self._text_handler: Optional[Callable[[str], None]] = None
         self.artifacts: List[PackageArtifact] = []
-        self._base_url = base_url
+        self._page_url = page_url
 
     def handle_data(self, data: str) -> None:
         if self._text_handler:
@@ -82,7 +89,7 @@ class _HtmlArtifactsExtractor(HTMLParser):
 
     def handle_starttag(self, tag: str, attrs: List[Tuple[str, Union[str, None]]]) -> None:
         self._text_handler = \
-            lambda txt: self.handle_element(tag, {kv[0]: kv[1] for kv in attrs if kv[1] is not None}, txt)
+            lambda txt: self.handle_element(tag, {kv[0]: kv[1] or '' for kv in attrs}, txt)
 
     def handle_element(self, tag: str, attrs: Dict[str, str], text: str):
         self._text_handler = None
@@ -91,11 +98,9 @@ class _HtmlArtifactsExtractor(HTMLParser):
             if requires_python_str := attrs.get('data-requires-python'):
                 requires_python = VersionSpecifier.parse(requires_python_str)
 
-            url = attrs.get('href')
-            if not url.startswith('http'):
-                url = f"{self._base_url}/{url.lstrip('/')}"
+            url = urljoin(self._page_url, attrs.get('href'))
 
-            if endswith_any(text, _DISTRIBUTION_EXTENSIONS):
+            if 'data-yanked' not in attrs and endswith_any(text, _DISTRIBUTION_EXTENSIONS):
                 self.artifacts.append(PackageArtifact(text, requires_python, {'url': url}))
 
 
-- 
2.43.0


From 499da345879c55964b15755e1845fc7d264b5a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 38/78] fix: file-system repositories find packages by their
 normalized names and read their dependencies

---
 pkm/src/pkm/api/distributions/distribution.py      |  2 +-
 pkm/src/pkm/repositories/file_system_repository.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distribution.py b/pkm/src/pkm/api/distributions/distribution.py
index 951743c..e950757 100644
--- a/pkm/src/pkm/api/distributions/distribution.py
+++ b/pkm/src/pkm/api/distributions/distribution.py
@@ -88,7 +88,7 @@ class _DistributionPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget",
             extras: Optional[List[str]] = None) -> List["Dependency"]:
-        return [d for d in self.published_metadata.dependencies if d.is_applicable_for(target.env, extras)]
+        return [d for d in self._metadata(target.env).dependencies if d.is_applicable_for(target.env, extras)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         from pkm.api.distributions.wheel_distribution import WheelDistribution
diff --git a/pkm/src/pkm/repositories/file_system_repository.py b/pkm/src/pkm/repositories/file_system_repository.py
index 55a5b08..5fdec5d 100644
--- a/pkm/src/pkm/repositories/file_system_repository.py
+++ b/pkm/src/pkm/repositories/file_system_repository.py
@@ -22,7 +22,7 @@ class PackagesDictRepository(AbstractRepository):
         self._packages = packages
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        all_packages = self._packages.get(dependency.package_name) or []
+        all_packages = self._packages.get(dependency.package_name_key) or []
         return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])
 
 
@@ -40,21 +40,21 @@ class FileSystemRepositoryBuilder(RepositoryBuilder):
             if ProjectGroup.is_valid(path):
                 project_group = ProjectGroup.load(path)
                 for project in project_group.project_children_recursive:
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
             else:
                 try:
                     project = Project.load(path)
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
                 except MalformedPackageException:
                     pass
 
             for dist in path.iterdir():
                 if _is_distribution(dist):
                     package = Distribution.package_from(dist)
-                    packages[package.name].append(package)
+                    packages[package.name_key].append(package)
         elif _is_distribution(path):
             package = Distribution.package_from(path)
-            packages[package.name].append(package)
+            packages[package.name_key].append(package)
 
         return PackagesDictRepository(name, packages)
 
-- 
2.43.0


From 2d399ce83519e4eca99ce04e60d46d3666aad4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 39/78] fix: environment zoos without package-sharing
 configuration have attached repository

---
 pkm/src/pkm/api/environments/environments_zoo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index dfc264d..bf27ff4 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -137,4 +137,4 @@ class PackageSharingConfig:
 
 @config(io=TomlConfigIO())
 class EnvironmentZooConfiguration(ConfigFile):
-    package_sharing: PackageSharingConfig
+    package_sharing: PackageSharingConfig = config_field(key="package-sharing", default_factory=PackageSharingConfig)
-- 
2.43.0


From 139e79dd3dbe4949cd9fa02374f05eda168a6be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 40/78] fix: packages that share directories are installed and
 uninstalled at the same time

---
 pkm/src/pkm/api/packages/site_packages.py |  5 ++-
 pkm/src/pkm/utils/files.py                | 43 ++++++++++++++++++-----
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 6991f51..f34dff0 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -12,7 +12,7 @@ from pkm.api.packages.package_installation_info import StoreMode, PackageInstall
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.versions.version_specifiers import VersionMatch
 from pkm.utils.dicts import put_if_absent
-from pkm.utils.files import is_empty_directory, is_relative_to
+from pkm.utils.files import is_relative_to, remove_if_empty
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
 from pkm.utils.sequences import pop_or_none
@@ -243,8 +243,7 @@ class InstalledPackage(Package, Serializable):
             if parent in installation_dirs or not any(is_relative_to(parent, d) for d in installation_dirs):
                 continue
 
-            if is_empty_directory(parent):
-                parent.rmdir()
+            if remove_if_empty(parent):
                 parents_to_check.add(parent.parent)
             elif not parent.exists():
                 parents_to_check.add(parent.parent)
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index a351cff..65419f7 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -20,6 +20,19 @@ def is_empty_directory(path: Path) -> bool:
     return path.is_dir() and next(path.iterdir(), None) is None
 
 
+def remove_if_empty(path: Path) -> bool:
+    """
+    remove the given `path` if it is an empty directory, safe to use while others write into this directory
+    :param path: the path to remove
+    :return: if `path` was removed
+    """
+    try:
+        path.rmdir()
+        return True
+    except OSError:
+        return False
+
+
 def ensure_exists(path: Path, error_msg: Optional[Callable[[], str]] = None) -> Path:
     """
     :param path: the path to check if exists
@@ -149,8 +162,7 @@ class CopyTransaction:
             if file.is_dir():
                 self.copy_tree(file, target / file.name, accept, file_copy)
             elif file_copy:
-                self.prepare_write(target / file.name)
-                file_copy(file, target / file.name)
+                self._copy(file, target / file.name, file_copy)
             else:
                 self.copy(file, target / file.name)
 
@@ -160,11 +172,16 @@ class CopyTransaction:
         :param target: the directory path to create
         :return `target` to be used with chaining
         """
-        if not target.exists():
+        while not target.exists():
             if not target.parent.exists():
                 self.mkdir(target.parent)
-            self._copied_files.add(target)
-            target.mkdir()
+            try:
+                target.mkdir()
+                self._copied_files.add(target)
+            except (FileExistsError, FileNotFoundError):
+                # others may create this directory or remove its parent (once it is empty) at the same time
+                if os.path.lexists(target) and not target.exists():
+                    raise
 
         return target
 
@@ -177,8 +194,18 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
+        self._copy(source, target, shutil.copy)
+
+    def _copy(self, source: Path, target: Path, file_copy: Callable[[Path, Path], None]):
         self.prepare_write(target)
-        shutil.copy(source, target)
+        while True:
+            try:
+                file_copy(source, target)
+                return
+            except FileNotFoundError:
+                if not source.exists():
+                    raise
+                self.mkdir(target.parent)  # others may have removed it while it was empty
 
     def prepare_write(self, target: Path) -> Path:
         """
@@ -258,8 +285,8 @@ class CopyTransaction:
         for file in sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True):
             if file.is_symlink() or not file.is_dir():
                 file.unlink(missing_ok=True)
-            elif is_empty_directory(file):
-                file.rmdir()
+            else:
+                remove_if_empty(file)
 
         for i, path in reversed(list(enumerate(self._overwritten_files))):
             shutil.move(self._temp_dir / str(i), path)
-- 
2.43.0


From 743b548ab1bb03cca87345c4ed0a4b127bff193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 41/78] fix: uninstalls and updates leave the packages they
 were not asked to change as they are

---
 .../pkm/api/packages/package_installation.py  | 66 ++++++++++++++-----
 pkm/src/pkm/api/packages/site_packages.py     | 16 ++---
 2 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 3bdce3a..1dff994 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from _ast import Set
 from abc import ABC
 from concurrent.futures import ThreadPoolExecutor
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from pathlib import Path
 from typing import List, Dict, Optional, Union, Set, TYPE_CHECKING
@@ -73,24 +73,30 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         preinstalled_packages = list(self.site_packages.installed_packages())
-        requested_deps = {p.name: p.user_request for p in preinstalled_packages if p.user_request}
-        for package_name in packages_to_remove:
-            requested_deps.pop(package_name, None)
+        keys_to_remove = {name: PackageDescriptor.package_name_key(name) for name in packages_to_remove}
+        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
+        for package_key in keys_to_remove.values():
+            requested_deps.pop(package_key, None)
 
-        user_request = _UserRequestPackage(list(requested_deps.values()))
+        # packages that nothing requires already are not affected by this removal
+        orphan_deps = [
+            p.descriptor.to_dependency() for p in self.site_packages.find_orphan_packages()
+            if p.name_key not in keys_to_remove.values()]
+
+        user_request = _UserRequestPackage([*requested_deps.values(), *orphan_deps])
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
 
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
         InstallationPlan(self, installation, {}).execute()
 
-        kept = {p.name for p in installation}
+        kept = {p.name_key for p in installation}
 
-        for p in packages_to_remove:
-            if p in kept:
-                self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
+        for package_key in keys_to_remove.values():
+            if package_key in kept:
+                self.site_packages.installed_package(package_key).dist_info.unmark_as_user_requested()
 
         self.reload()
-        return {p for p in packages_to_remove if p not in kept}
+        return {name for name, package_key in keys_to_remove.items() if package_key not in kept}
 
     def install(
             self, dependencies: List[Dependency], repository: Optional[Repository] = None, user_requested: bool = True,
@@ -147,8 +153,9 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         updates = set(updates or ())
-        preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
-        pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
+        installed_packages = list(self.site_packages.installed_packages())
+        preinstalled_packages = [p for p in installed_packages if p.name_key not in updates]
+        pre_requested_deps = {p.name_key: p.user_request for p in installed_packages if p.user_request}
         unspecified_spec_packages = \
             unspecified_spec_packages or [
                 d.package_name_key
@@ -165,17 +172,23 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         try:
             # first we try the fast path: only adding packages without updating
             # but requiring latest matching versions of new user requested packages
-            user_request = _UserRequestPackage(list(new_deps.values()))
+            # (the packages that are updated should fit all the others)
+            user_request = _UserRequestPackage(list((all_deps if updates else new_deps).values()))
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, True)
 
             installation = resolve_dependencies(
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
 
-            installation_names = {i.name_key for i in installation}
-            for preinstalled in preinstalled_packages:
-                if preinstalled.name_key not in installation_names:
-                    installation.append(preinstalled)
+            selected = {i.name_key: i for i in installation}
+            for installed in installed_packages:
+                if installed.name_key not in selected:
+                    installation.append(installed)
+                    # the updated packages may not fit the packages that are left as they are
+                    run_slow_path = run_slow_path or any(
+                        d.package_name_key in updates and d.package_name_key in selected
+                        and not d.version_spec.allows_version(selected[d.package_name_key].version)
+                        for d in installed.dependencies(self))
 
         except UnsolvableProblemException:
             # don't execute the slow path code here so that the stacktrace will be cleaner if exception will happen
@@ -189,6 +202,21 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
             installation = resolve_dependencies(
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
 
+            # packages that nothing requires already are kept, unless the installation breaks their dependencies
+            def satisfied(d: Dependency, p: Optional[Package]) -> bool:
+                return p is not None and d.version_spec.allows_version(p.version)
+
+            site, selected = self.site_packages, {i.name_key: i for i in installation}
+            orphans = [p for p in site.find_orphan_packages() if p.name_key not in selected]
+            selected.update((p.name_key, p) for p in orphans)
+            while broken := [p for p in orphans if p.name_key in selected and any(
+                    satisfied(d, site.installed_package(d.package_name))
+                    and not satisfied(d, selected.get(d.package_name_key)) for d in p.dependencies(self))]:
+                for p in broken:
+                    selected.pop(p.name_key)
+
+            installation.extend(p for p in orphans if p.name_key in selected)
+
         user_requests = {**pre_requested_deps}
         if user_requested:
             user_requests.update(new_deps)
@@ -397,7 +425,9 @@ class _RemovalPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget", extras: Optional[List[str]] = None) -> List["Dependency"]:
         sitep = target.site_packages
-        return [d for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]
+        return [
+            replace(d, version_spec=AllowAllVersions)  # the installed version is needed, even if it is not a proper one
+            for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         return self.package.is_compatible_with(env)
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index f34dff0..4af4f2b 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -101,20 +101,18 @@ class SitePackages(Serializable):
 
     def find_orphan_packages(self) -> Iterable[InstalledPackage]:
         installed = self.installed_packages()
-        requested = [p for p in installed if p.user_request is not None]
+        pending = [p.user_request for p in installed if p.user_request is not None]
         orphans = {p.name_key: p for p in installed}
         done = set()
 
-        while next_ := pop_or_none(requested):
-            name = next_.name_key
-            if not add_if_absent(done, name):
+        while next_ := pop_or_none(pending):
+            if (package := self.installed_package(next_.package_name)) is None:
                 continue
 
-            orphans.pop(name, None)
-
-            requested.extend(
-                i for d in next_.published_metadata.dependencies
-                if (i := self.installed_package(d.package_name)) is not None)
+            orphans.pop(package.name_key, None)
+            for extra in (None, *(next_.extras or ())):
+                if add_if_absent(done, (package.name_key, extra)):
+                    pending.extend(package.dependencies(self.env.installation_target, [extra] if extra else None))
 
         return orphans.values()
 
-- 
2.43.0


From 279f063c740f45ee81c451384e55db1cd622b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 42/78] fix: wheels of projects whose requires-python has no
 minimum, or an older major version as minimum, can be built and installed

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 565ff6e..de780c7 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -1,6 +1,7 @@
 import compileall
 import importlib.util
 import re
+import sys
 import warnings
 from dataclasses import replace
 from pathlib import Path
@@ -70,15 +71,18 @@ class WheelDistribution(Distribution):
 
     @staticmethod
     def expected_wheel_file_name(project: "Project") -> str:
-        from pkm.api.environments.environment import Environment
         project_config = project.config.project
         req = project_config.requires_python
 
+        current_interpreter = sys.version_info[0]
         min_interpreter: StandardVersion = req.min \
-            if req and isinstance(req, StandardVersionRange) else \
-            StandardVersion((Environment.current().interpreter_version.release[0],))
+            if req and isinstance(req, StandardVersionRange) and req.min else \
+            StandardVersion((current_interpreter,))
 
-        req_interpreter = 'py' + ''.join(str(it) for it in min_interpreter.release[:2])
+        if min_interpreter.release[0] < current_interpreter:  # tags of major versions do not include the later ones
+            req_interpreter = '.'.join(f"py{it}" for it in range(min_interpreter.release[0], current_interpreter + 1))
+        else:
+            req_interpreter = 'py' + ''.join(str(it) for it in min_interpreter.release[:2])
         return f"{project.descriptor.expected_src_package_name}-{project.version}-{req_interpreter}-none-any.whl"
 
     @classmethod
-- 
2.43.0


From 3c56f0042b8fc4a2ba7ff05177303bf4b3115e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 43/78] fix: built wheels name their tags and list their
 record, whatever the age of the files

---
 pkm/src/pkm/api/distributions/distinfo.py |  7 +++++--
 pkm/src/pkm/build/pkm_builders.py         | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index 4d69f8e..bf79e53 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -250,8 +250,11 @@ class WheelFileConfiguration(ConfigFile):
             print(f'advanced wheel version: {self.version} detected, will be treated as version 1.0')
 
     @classmethod
-    def create(cls, generator: str, purelib: bool):
-        return WheelFileConfiguration(Version.parse("1.0"), generator, purelib)
+    def create(cls, generator: str, purelib: bool, tags: Iterable[str] = ()):
+        result = WheelFileConfiguration(Version.parse("1.0"), generator, purelib)
+        if tags := list(tags):
+            result._leftovers = {"Tag": tags}
+        return result
 
 
 class _RecordHashsignatureCodec(ConfigFieldCodec):
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index cf530d4..6148a6b 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -8,14 +8,14 @@ from shutil import ignore_patterns
 from typing import Optional, ContextManager
 from zipfile import ZipFile
 
-from pkm.api.distributions.distinfo import WheelFileConfiguration, DistInfo
+from pkm.api.distributions.distinfo import WheelFileConfiguration, DistInfo, Record
 from pkm.api.distributions.pth_link import PthLink
 from pkm.api.distributions.wheel_distribution import WheelDistribution
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import ProjectDirectories, Project
 from pkm.api.projects.pyproject_configuration import ProjectConfig, PyProjectConfiguration
-from pkm.utils.files import temp_dir
+from pkm.utils.files import path_to, temp_dir
 from pkm.utils.iterators import distinct
 
 
@@ -83,11 +83,13 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
         bc.copy_sources(bc.build_dir, editable)
         records_file = dist_info.load_record_cfg()
         records_file.sign_recursive(bc.build_dir)
+        records_file.records.append(Record(str(path_to(bc.build_dir, dist_info.record_path())), None, None))
         records_file.save()
 
         wheel_path = target_dir / bc.wheel_file_name()
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        # files may be older than what zip can represent
+        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             for file in bc.build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(bc.build_dir))
 
@@ -137,7 +139,10 @@ class _BuildContext:
             project_config.license_content())
 
         # TODO: probably later we will want to add the version of pkm in the generator..
-        WheelFileConfiguration.create(generator="pkm", purelib=True).save(di.wheel_path())
+        interpreters, abi, platform = Path(self.wheel_file_name()).stem.split("-")[-3:]
+        WheelFileConfiguration.create(
+            generator="pkm", purelib=True, tags=[f"{it}-{abi}-{platform}" for it in interpreters.split(".")]
+        ).save(di.wheel_path())
 
         entrypoints = di.load_entrypoints_cfg()
         entrypoints.entrypoints = self.pyproject.project.all_entrypoints()
-- 
2.43.0


From 358d2c4f9d8e48fe4b064a8e0963fe84113e8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 44/78] fix: distributions carry the project's readme and
 license, and source distributions all that is needed to build them again

---
 pkm/src/pkm/api/packages/package_metadata.py  |  8 ++---
 pkm/src/pkm/api/projects/project.py           |  4 +--
 .../api/projects/pyproject_configuration.py   | 34 ++++++++++++-------
 pkm/src/pkm/build/pkm_builders.py             | 29 +++++++++++-----
 4 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 48e23f9..08faad1 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -106,7 +106,7 @@ class PackageMetadata(ConfigFile):
     leftovers = config_field(leftover=True)
 
     @classmethod
-    def from_project_config(cls, prjc: "ProjectConfig") -> PackageMetadata:
+    def from_project_config(cls, prjc: "ProjectConfig", source_tree: Path = Path()) -> PackageMetadata:
         # filling authors and maintainers according to pep-621:
         # 1. If only name is provided, the value goes in Author/Maintainer as appropriate.
         # 2. If only email is provided, the value goes in Author-email/Maintainer-email as appropriate.
@@ -128,12 +128,12 @@ class PackageMetadata(ConfigFile):
         data = {
             'Metadata-Version': _METADATA_VERSION,
             'Name': prjc.name, 'Version': str(prjc.version),
-            'Summary': prjc.description, 'Description': prjc.readme_content(),
-            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': ','.join(prjc.keywords or []) or None,
+            'Summary': prjc.description, 'Description': prjc.readme_content(source_tree),
+            'Description-Content-Type': prjc.readme_content_type(source_tree), 'Keywords': ','.join(prjc.keywords or []) or None,
             'Author': names(prjc.authors), 'Author-email': emails(prjc.authors),
             'Maintainer': names(prjc.maintainers), 'Maintainer-email': emails(prjc.maintainers),
             'Project-URL': [f'{label}, {url}' for label, url in (prjc.urls or {}).items()],
-            'License': prjc.license_content(), 'Classifier': prjc.classifiers,
+            'License': prjc.license_content(source_tree), 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps],
             'Requires-Python': prjc.requires_python.to_pep440()
             if prjc.requires_python is not AllowAllVersions else None,
diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 46b8458..70014b4 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -84,7 +84,7 @@ class Project(Package, HasAttachedRepository, Serializable):
 
     @cached_property
     def published_metadata(self) -> Optional[PackageMetadata]:
-        return PackageMetadata.from_project_config(self.config.project)
+        return PackageMetadata.from_project_config(self.config.project, self.path)
 
     def compute_metadata(self, env: Environment) -> PackageMetadata:
         if self.config.project.dynamic:
@@ -340,7 +340,7 @@ class Project(Package, HasAttachedRepository, Serializable):
         if not publisher:
             raise UnsupportedOperationException(f"the given repository ({repository.name}) is not publishable")
 
-        metadata = PackageMetadata.from_project_config(self._pyproject.project)
+        metadata = PackageMetadata.from_project_config(self._pyproject.project, self.path)
         for distribution in distributions_dir.iterdir():
             if distribution.is_file():
                 publisher.publish(auth_args, metadata, distribution)
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index db95095..41af815 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -211,17 +211,27 @@ class ProjectConfig:
     def package_descriptor(self) -> PackageDescriptor:
         return PackageDescriptor(self.name, self.version)
 
-    def readme_content(self) -> str:
+    def readme_file(self, source_tree: Path = Path()) -> Optional[Path]:
+        """
+        :param source_tree: the directory of the project
+        :return: the path to the readme file (as given, relative to the `source_tree`) or None if there is no such file
+        """
+        if not self.readme or isinstance(self.readme, _TableText):
+            return None
+
+        try:
+            return Path(self.readme) if (source_tree / self.readme).is_file() else None
+        except OSError:  # cannot be a path
+            return None
+
+    def readme_content(self, source_tree: Path = Path()) -> str:
         if not self.readme:
             return ""
 
-        if isinstance(self.readme, str):
-            return self.readme
-
-        if self.readme.exists():
-            return self.readme.read_text()
+        if file := self.readme_file(source_tree):
+            return (source_tree / file).read_text(encoding='utf-8')
 
-        return ""
+        return self.readme if isinstance(self.readme, str) else ""
 
     def script_entrypoints(self) -> Iterator[EntryPoint]:
         """
@@ -233,12 +243,12 @@ class ProjectConfig:
         if gui_scripts := self.entry_points.get(EntryPoint.G_GUI_SCRIPTS):
             yield from gui_scripts
 
-    def readme_content_type(self) -> str:
+    def readme_content_type(self, source_tree: Path = Path()) -> str:
         if content_type := getattr(self.readme, 'table', {}).get('content-type'):
             return content_type
 
-        if self.readme and isinstance(self.readme, Path):
-            readme_suffix = self.readme.suffix
+        if file := self.readme_file(source_tree):
+            readme_suffix = file.suffix
             if readme_suffix == '.md':
                 return 'text/markdown'
             elif readme_suffix == '.rst':
@@ -246,14 +256,14 @@ class ProjectConfig:
 
         return 'text/plain'
 
-    def license_content(self) -> str:
+    def license_content(self, source_tree: Path = Path()) -> str:
         if not self.license:
             return ""
 
         if isinstance(self.license, str):
             return self.license
 
-        return self.license.read_text()
+        return (source_tree / self.license).read_text(encoding='utf-8')
 
 
 _LEGACY_PROJECT_DYNAMIC = [
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index 6148a6b..e766291 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -5,7 +5,7 @@ from contextlib import contextmanager
 from dataclasses import dataclass
 from pathlib import Path
 from shutil import ignore_patterns
-from typing import Optional, ContextManager
+from typing import Optional, ContextManager, List
 from zipfile import ZipFile
 
 from pkm.api.distributions.distinfo import WheelFileConfiguration, DistInfo, Record
@@ -41,8 +41,10 @@ def build_sdist(project: Project, target_dir: Optional[Path] = None) -> Path:
         shutil.copy(dist_info_path / "METADATA", data_dir / "PKG-INFO")
         bc.pyproject.save(data_dir / 'pyproject.toml')
 
-        if bc.pyproject.pkm_project.packages:
-            bc.copy_sources(data_dir)
+        bc.copy_referenced_files(data_dir)
+
+        if packages := bc.pyproject.pkm_project.packages:
+            bc.copy_sources(data_dir, package_paths=packages)
         else:
             bc.copy_sources(data_dir / 'src')
 
@@ -134,9 +136,9 @@ class _BuildContext:
         dst.mkdir(exist_ok=True, parents=True)
         project_config: ProjectConfig = self.pyproject.project
 
-        PackageMetadata.from_project_config(project_config).save(di.metadata_path())
+        PackageMetadata.from_project_config(project_config, self.project.path).save(di.metadata_path())
         di.license_path().write_text(
-            project_config.license_content())
+            project_config.license_content(self.project.path), encoding='utf-8')
 
         # TODO: probably later we will want to add the version of pkm in the generator..
         interpreters, abi, platform = Path(self.wheel_file_name()).stem.split("-")[-3:]
@@ -150,7 +152,18 @@ class _BuildContext:
 
         return di
 
-    def copy_sources(self, dst: Path, link_only: bool = False):
+    def copy_referenced_files(self, dst: Path):
+        """
+        copies the files that the project configuration refers to (readme and license) into the same place in `dst`
+        """
+        project_config: ProjectConfig = self.pyproject.project
+        license_file = project_config.license if isinstance(project_config.license, Path) else None
+        for file in (project_config.readme_file(self.project.path), license_file):
+            if file and not file.is_absolute() and '..' not in file.parts:
+                (dst / file).parent.mkdir(exist_ok=True, parents=True)
+                shutil.copy(self.project.path / file, dst / file)
+
+    def copy_sources(self, dst: Path, link_only: bool = False, package_paths: Optional[List[str]] = None):
         dirs = ProjectDirectories.create(self.pyproject)
 
         if link_only:
@@ -160,8 +173,8 @@ class _BuildContext:
             ).save()
             return
 
-        for package_dir in dirs.src_packages:
-            destination = dst / package_dir.name
+        for i, package_dir in enumerate(dirs.src_packages):
+            destination = dst / (package_paths[i] if package_paths else package_dir.name)
             if package_dir.exists():
                 shutil.copytree(package_dir, destination, ignore=ignore_patterns('__pycache__'))
             else:
-- 
2.43.0


From 840edefd494744c39550a7c15139340bb786aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 45/78] fix: packages shared by the environments of a zoo can
 be installed, and look like private installations

---
 pkm/src/pkm/launchers/executables.py          |  13 ++
 .../pkm/repositories/shared_pacakges_repo.py  | 165 +++++++++++-------
 2 files changed, 111 insertions(+), 67 deletions(-)

diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index 5a977c7..a7cc190 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -36,6 +36,19 @@ class Executables:
         st = os.stat(source)
         os.chmod(target, st.st_mode | stat.S_IEXEC)
 
+    @staticmethod
+    def restore_generic_shabang(script: Path, interpreter_path: Path):
+        """
+        reverts `patch_shabang_for_interpreter`
+        :param script: path to the script to revert (in place)
+        :param interpreter_path: the interpreter that the script was patched with
+        """
+        first_line, sep, rest = script.read_bytes().partition(b"\n")
+        interpreter = f"#!{interpreter_path.absolute()}".encode(sys.getfilesystemencoding())
+        for suffix in (b"", b"w"):
+            if first_line.rstrip(b"\r") == interpreter + suffix:
+                script.write_bytes(b"#!python" + suffix + sep + rest)
+
     @staticmethod
     def generate(env: "Environment", target_dir: Path, file_name: str, script: str, is_gui: bool = False):
         """
diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index cea036c..b7f715a 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -1,11 +1,12 @@
 import shutil
+import tempfile
 import warnings
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Optional, Set, Iterator, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
-from pkm.api.distributions.distinfo import DistInfo, RecordsFileConfiguration
+from pkm.api.distributions.distinfo import DistInfo, Record
 from pkm.api.packages.package_installation_info import StoreMode
 from pkm.api.distributions.pth_link import PthLink
 from pkm.api.environments.environment import Environment
@@ -16,7 +17,7 @@ from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.repositories.repository import AbstractRepository, Repository
 from pkm.launchers.executables import Executables
 from pkm.utils.commons import NoSuchElementException
-from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
+from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to, path_to
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import first_or_none
 
@@ -29,11 +30,14 @@ class SharedPackagesRepository(AbstractRepository):
         self._base_repo = base_repository
 
     def remove_unused_packages(self, package_users: Iterator[Environment]):
-        used_packages: Set[str] = set()
+        if not self._workspace.exists():
+            return
+
+        used_packages: Set[Path] = set()
         for package_user in package_users:
             for used_package in package_user.site_packages.installed_packages():
                 if (shared_marker := used_package.dist_info.path / "SHARED").exists():
-                    used_packages.add(shared_marker.read_text())
+                    used_packages.add(Path(shared_marker.read_text()).resolve())
 
         for package_dir in self._workspace.iterdir():
             if not package_dir.is_dir():
@@ -47,7 +51,7 @@ class SharedPackagesRepository(AbstractRepository):
                     if not shared_dir.is_dir():
                         continue
 
-                    if str(shared_dir.absolute()) not in used_packages:
+                    if shared_dir.resolve() not in used_packages:
                         shutil.rmtree(shared_dir)
 
                 if is_empty_directory(version_dir):
@@ -59,6 +63,9 @@ class SharedPackagesRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         packages_dir = self._workspace / dependency.package_name
         packages = self._base_repo.match(dependency, env)
+        if dependency.required_url():
+            return packages  # (different urls may lead to different packages of the same version)
+
         return self._sort_by_priority([
             _SharedPackage(p, packages_dir / str(p.version))
             for p in packages
@@ -98,7 +105,7 @@ class _SharedPackage(Package):
         if shared_path.exists():
             self._artifacts = [
                 _SharedPackageArtifact(artifact, PackageMetadata.load(artifact / "dist-info/METADATA"), artifact.name)
-                for artifact in shared_path.iterdir()
+                for artifact in shared_path.iterdir() if (artifact / "dist-info").exists()
             ]
         else:
             self._artifacts = []
@@ -117,7 +124,7 @@ class _SharedPackage(Package):
         try:
             return max(
                 ((a, s) for a in self._artifacts
-                 if (s := env.compatibility_tag_score(a.compatibility_tag)) is not None),
+                 if (s := env.compatibility_tag_score(a.compatibility_tags)) is not None),
                 key=lambda it: it[1]
             )[0]
         except ValueError:
@@ -130,7 +137,7 @@ class _SharedPackage(Package):
         if artifact := self._shared_artifact_for(target.env):
             deps = artifact.metadata.dependencies
         else:
-            deps = self._package.dependencies(target)
+            deps = self._package.dependencies(target, extras)
 
         return [d for d in deps if d.is_applicable_for(target.env, extras)]
 
@@ -140,78 +147,94 @@ class _SharedPackage(Package):
     def install_to(
             self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
             store_mode: StoreMode = StoreMode.AUTO):
-        if shared := self._shared_artifact_for(target.env):
-            _link_shared(self.descriptor, shared, target)
+        # links are only followed from the site packages of the environment itself
+        sharable = store_mode != StoreMode.EDITABLE \
+            and Path(target.purelib) == Path(target.env.installation_target.purelib)
+
+        if sharable and (shared := self._shared_artifact_for(target.env)):
+            _link_shared(self.descriptor, shared, target, user_request)
         else:
             self._package.install_to(target, user_request, store_mode)
-            if shared := _move_to_shared(self._package.descriptor, target, self._shared_path):
-                _link_shared(self.descriptor, shared, target)
+            if sharable and (shared := _move_to_shared(self._package.descriptor, target, self._shared_path)):
+                _link_shared(self.descriptor, shared, target, user_request)
 
 
-def _copy_records(root: Path, shared: Path, records: List[Path]) -> List[Path]:
-    shared.mkdir(parents=True)
-    records_left = []
+def _copy_records(root: Path, shared: Path, records: List[Path]):
     for record in records:
-        if is_relative_to(record, root):  # the path may lead out of the required source
-            shared_path = shared / record.relative_to(root)
-            if record.is_dir():
-                shared_path.mkdir(exist_ok=True, parents=True)
-            elif record.exists():
-                shared_path.parent.mkdir(exist_ok=True, parents=True)
-                shutil.copy(record, shared_path)
-        else:
-            records_left.append(record)
-    return records_left
+        shared_path = shared / record.relative_to(root)
+        if record.is_dir():
+            shared_path.mkdir(exist_ok=True, parents=True)
+        elif record.exists():
+            shared_path.parent.mkdir(exist_ok=True, parents=True)
+            shutil.copy(record, shared_path)
 
 
 def _move_to_shared(package: PackageDescriptor,
                     target: PackageInstallationTarget, shared_path: Path) -> Optional[_SharedPackageArtifact]:
-    psname = (package.expected_src_package_name + "-").lower()
+    name_key = PackageDescriptor.package_name_key(package.name)
 
     for site in ('purelib', 'platlib'):
-        dist_info_path = first_or_none(
-            it for it in Path(getattr(target, site)).glob("*.dist-info") if it.name.lower().startswith(psname))
+        dist_info = first_or_none(
+            it for it in DistInfo.scan(Path(getattr(target, site)))
+            if PackageDescriptor.package_name_key(it.package_name_by_dirname) == name_key)
 
-        if dist_info_path:
+        if dist_info:
             break
     else:
         raise NoSuchElementException(f"package: {package} is reported as installed but could not be find inside venv")
 
-    dist_info = DistInfo.load(dist_info_path)
-
     iinfo = dist_info.load_installation_info()
-    if iinfo.compatibility_tag:
-        compatibility_tags = iinfo.compatibility_tag
-        shared_target = shared_path / compatibility_tags
+    if iinfo and iinfo.compatibility_tag:
+        shared_target = shared_path / iinfo.compatibility_tag
     else:
         return None  # TODO should probably notify the user that sharing is impossible for this package
 
-    records = list(dist_info.installed_files())
-
     # filter dist info records:
+    site_path = dist_info.path.parent.resolve()
     records = [
-        r for r in records
-        if not is_relative_to(r, dist_info.path)]
-
-    # copy site
-    shared_purelib = shared_target / site
-    records = _copy_records(dist_info.path.parent, shared_purelib, records)
-
-    # copy scripts
-    script_entrypoints = {e.name for e in dist_info.load_entrypoints_cfg().entrypoints if e.is_script()}
-    bin_path = Path(target.scripts)
-    shared_bin = shared_target / "bin"
+        r for r in dist_info.installed_files()
+        if not is_relative_to(r, site_path / dist_info.path.name)]
 
     # filter script entrypoints - they should be re-generated
-    records = [r for r in records if not is_relative_to(r, bin_path) or r.stem not in script_entrypoints]
-    records = _copy_records(bin_path, shared_bin, records)
+    bin_path = Path(target.scripts).resolve()
+    script_entrypoints = {
+        Executables.path_of_entrypoint(target.env, e, bin_path)
+        for e in dist_info.load_entrypoints_cfg().entrypoints if e.is_script()}
+    records = [r for r in records if r not in script_entrypoints]
 
-    # copy dist-info
-    shutil.copytree(dist_info.path, shared_target / 'dist-info')
+    site_records = [r for r in records if is_relative_to(r, site_path)]
+    bin_records = [r for r in records if is_relative_to(r, bin_path)]
 
-    if records:
-        warnings.warn(f"{len(records)} unsharable records found in package: {package.name} {package.version}: "
-                      f"{', '.join(str(r) for r in records)}")
+    # link files are only processed when they are inside the site itself
+    unsharable = [
+        r for r in records
+        if not is_relative_to(r, site_path) and not is_relative_to(r, bin_path)
+        or r.suffix == '.pth' and r.parent == site_path]
+
+    if unsharable:
+        warnings.warn(f"package: {package.name} {package.version} will not be shared,"
+                      f" {len(unsharable)} unsharable records found: {', '.join(str(r) for r in unsharable)}")
+        return None
+
+    shared_path.mkdir(parents=True, exist_ok=True)
+    with tempfile.TemporaryDirectory(dir=shared_path, prefix='.') as tdir:
+        # copy site
+        building = Path(tdir) / 'shared'
+        (building / site).mkdir(parents=True)
+        _copy_records(site_path, building / site, site_records)
+
+        # copy scripts
+        _copy_records(bin_path, building / "bin", bin_records)
+        for script in (it for it in (building / "bin").rglob("*") if it.is_file()):
+            Executables.restore_generic_shabang(script, target.env.interpreter_path)
+
+        # copy dist-info
+        shutil.copytree(dist_info.path, building / 'dist-info')
+        DistInfo.load(building / 'dist-info', non_standard_name_ok=True).unmark_as_user_requested()
+
+        if shared_target.exists():
+            shutil.rmtree(shared_target)
+        building.rename(shared_target)
 
     # uninstall the original package
     InstalledPackage(dist_info, target.site_packages).uninstall()
@@ -219,7 +242,8 @@ def _move_to_shared(package: PackageDescriptor,
     return _SharedPackageArtifact(shared_target, dist_info.load_metadata_cfg(), shared_target.name)
 
 
-def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget):
+def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget,
+                 user_request: Optional[Dependency] = None):
     with CopyTransaction() as ct:
 
         package_prefix = f"{package.expected_src_package_name}-{package.version}"
@@ -229,29 +253,36 @@ def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, tar
 
         # first link the site data
         purelib_link = PthLink(site_path / f"{package_prefix}.pth", [shared.path / site_name])
+        ct.prepare_write(purelib_link.path)
         purelib_link.save()
-        ct.touch(purelib_link.path)
 
         # now create all script entrypoints
         shared_distinfo = DistInfo.load(shared.path / "dist-info", non_standard_name_ok=True)
         bin_dir = Path(target.scripts)
         for entrypoint in shared_distinfo.load_entrypoints_cfg().entrypoints:
             if entrypoint.is_script():
+                ct.prepare_write(Executables.path_of_entrypoint(target.env, entrypoint, bin_dir))
                 ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, bin_dir))
 
         # then, patch non entrypoint scripts
-        for script in (shared.path / 'bin').iterdir():
-            target_script = bin_dir / script.name
-            Executables.patch_shabang_for_interpreter(script, target_script, target.env.interpreter_path)
-            ct.touch(target_script)
+        if (shared_bin := shared.path / 'bin').exists():
+            ct.copy_tree(shared_bin, bin_dir, file_copy=lambda s, t: Executables.patch_shabang_for_interpreter(
+                s, t, target.env.interpreter_path))
 
         # we are almost done, copy dist-info
-        distinfo_path = site_path / f"{package_prefix}.dist-info"
-        ct.copy_tree(shared_distinfo.path, distinfo_path, lambda it: it.name != "RECORD")
-        shared_marker = (distinfo_path / "SHARED")
-        shared_marker.write_text(str(shared.path.absolute()))
-        ct.touch(shared_marker)
+        distinfo = DistInfo.load(site_path / f"{package_prefix}.dist-info")
+        ct.copy_tree(shared_distinfo.path, distinfo.path, lambda it: it != shared_distinfo.record_path())
+        shared_marker = (distinfo.path / "SHARED")
+        ct.prepare_write(shared_marker).write_text(str(shared.path.absolute()))
+
+        # these files may change after the installation, so they are listed with no signature
+        unsigned = [distinfo.installation_info_path(), ct.prepare_write(distinfo.record_path())]
+        if user_request:
+            unsigned.append(ct.prepare_write(distinfo.user_requested_path()))
+            distinfo.mark_as_user_requested(user_request)
 
         # and finally, sign the installation
-        record_path = distinfo_path / "RECORD"
-        RecordsFileConfiguration.load(record_path).sign_files(ct.copied_files, site_path).save()
+        records_file = distinfo.load_record_cfg()
+        records_file.sign_files([it for it in ct.copied_files if it not in unsigned], site_path)
+        records_file.records.extend(Record(str(path_to(site_path, file)), None, None) for file in unsigned)
+        records_file.save()
-- 
2.43.0


From 1a7604e8d9694eaae5e1afe63ea44b0caa190e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 46/78] fix: zoos keep excluded packages private, environments
 they create belong to them

---
 pkm/src/pkm/api/environments/environments_zoo.py      |  3 ++-
 pkm/src/pkm/api/repositories/repository_management.py |  5 +++--
 pkm/src/pkm/repositories/shared_pacakges_repo.py      | 10 ++++++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index bf27ff4..78cf035 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -49,7 +49,8 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         if (env_path := self.path / name).exists():
             raise FileExistsError(f"environment with name: {name} already exists in the zoo")
 
-        return EnvironmentBuilder.create_matching(env_path, python)
+        EnvironmentBuilder.create_matching(env_path, python)
+        return self.load_environment(name)
 
     def delete_environment(self, name: str):
         # shared repository gc
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index 96360c6..6edfa77 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -204,8 +204,9 @@ class ZooRepositoryManagement(RepositoryManagement):
         return [(pkm, True)]
 
     def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:
-        if self.zoo.config.package_sharing.enabled:
-            inherited = SharedPackagesRepository(self.zoo.path / ".zoo/shared", inherited)
+        sharing = self.zoo.config.package_sharing
+        if sharing.enabled:
+            inherited = SharedPackagesRepository(self.zoo.path / ".zoo/shared", inherited, sharing.exclude or ())
 
         return inherited
 
diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index b7f715a..2cbb5d0 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -24,10 +24,16 @@ from pkm.utils.iterators import first_or_none
 
 class SharedPackagesRepository(AbstractRepository):
 
-    def __init__(self, workspace: Path, base_repository: Repository):
+    def __init__(self, workspace: Path, base_repository: Repository, exclude: Iterable[str] = ()):
+        """
+        :param workspace: the directory to hold the shared packages in
+        :param base_repository: the repository to fetch the packages from
+        :param exclude: names of packages that should not be shared
+        """
         super().__init__("shared")
         self._workspace = workspace
         self._base_repo = base_repository
+        self._exclude = {PackageDescriptor.package_name_key(it) for it in exclude}
 
     def remove_unused_packages(self, package_users: Iterator[Environment]):
         if not self._workspace.exists():
@@ -63,7 +69,7 @@ class SharedPackagesRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         packages_dir = self._workspace / dependency.package_name
         packages = self._base_repo.match(dependency, env)
-        if dependency.required_url():
+        if dependency.required_url() or dependency.package_name_key in self._exclude:
             return packages  # (different urls may lead to different packages of the same version)
 
         return self._sort_by_priority([
-- 
2.43.0


From 1a4ae8585687b84e19eaed528e77db5db05fe51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 47/78] fix: a build requirement that is built from sources is
 not a build cycle

every build kept adding to the path of the build that needed it, so the second step of
building a requirement (metadata, then wheel) was reported as a cycle
---
 pkm/src/pkm/build/external_builders.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/build/external_builders.py b/pkm/src/pkm/build/external_builders.py
index 526008b..2bec627 100644
--- a/pkm/src/pkm/build/external_builders.py
+++ b/pkm/src/pkm/build/external_builders.py
@@ -8,7 +8,6 @@ from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.build_monitors import BuildPackageMonitoredOp, BuildPackageHookExecutionEvent
 from pkm.api.packages.package import PackageDescriptor
 from pkm.api.projects.pyproject_configuration import BuildSystemConfig
-from pkm.utils.dicts import put_if_absent
 from pkm.utils.files import temp_dir
 
 if TYPE_CHECKING:
@@ -92,16 +91,15 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
     from pkm.api.environments.environment_builder import EnvironmentBuilder
     target_dir = target_dir or (project.directories.dist / str(project.version))
 
-    if not target_env or (current_build_path := getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)) is None:
-        current_build_path = dict()
-
-    if not put_if_absent(current_build_path, project.descriptor, True):
+    # the packages whose builds led to this build, each build has its own path
+    current_build_path = getattr(target_env, _CURRENT_BUILD_PATH_ATTR, ())
+    if project.descriptor in current_build_path:
         def pstr(p: PackageDescriptor):
             return f"{p.name} {p.version}"
 
         raise BuildError(
             f"build cycle detected: "
-            f"{' -> '.join(pstr(it) for it in current_build_path.keys())} -> {pstr(project.descriptor)}")
+            f"{' -> '.join(pstr(it) for it in current_build_path)} -> {pstr(project.descriptor)}")
 
     interpreter_path = target_env.interpreter_path if target_env else project.attached_environment.interpreter_path
 
@@ -114,7 +112,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
         build_packages_repo = project.attached_repository
 
         build_env = EnvironmentBuilder.create(tdir / 'venv', interpreter_path)
-        setattr(build_env, _CURRENT_BUILD_PATH_ATTR, current_build_path)
+        setattr(build_env, _CURRENT_BUILD_PATH_ATTR, (*current_build_path, project.descriptor))
 
         if buildsys.requirements:
             build_env.install(buildsys.requirements, build_packages_repo)
-- 
2.43.0


From 671490cc1440b99cdd2c3f394296faff9baac032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 48/78] fix: the metadata of a source distribution whose
 backend can only build wheels

the path of the wheel was returned in place of the metadata
---
 pkm/src/pkm/build/source_build_cache.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index ae5fb75..e461ab6 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -81,11 +81,10 @@ class SourceBuildCache:
                 shutil.copy(wheel_metadata_path, metadata_file)
                 return PackageMetadata.load(wheel_metadata_path)
             else:
-                if not metadata_file.exists():
-                    metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
-                    metadata.save(metadata_file)
+                cache_dir.mkdir(parents=True, exist_ok=True)
+                wheel_metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
+                wheel_metadata.save(metadata_file)
 
                 cached_output = cache_dir / output.name
-                cache_dir.mkdir(parents=True, exist_ok=True)
                 shutil.move(output, cached_output)
-                return cached_output
+                return wheel_metadata if metadata else cached_output
-- 
2.43.0


From d0fed09085abeec8fde2e195579ab38e23fe2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 49/78] fix: building the same source distribution at the same
 time

a build removed the cache folder that another build of the same distribution was
writing to or installing from
---
 pkm/src/pkm/build/source_build_cache.py | 31 ++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index e461ab6..ddbe2e2 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -1,6 +1,8 @@
 import hashlib
+import os
 import shutil
 from pathlib import Path
+from tempfile import mkstemp
 from typing import Any
 
 import pkm.build.external_builders as ext_build
@@ -52,9 +54,6 @@ class SourceBuildCache:
             if wheel := single_or(cache_dir.glob("*.whl"), None):
                 return wheel
 
-        if base_cache_dir.exists():
-            shutil.rmtree(base_cache_dir)
-
         with temp_dir() as tdir:
             extract_archive(dist.archive, tdir)
             sdir = single_or_raise(tdir.iterdir())
@@ -77,14 +76,30 @@ class SourceBuildCache:
                 if not wheel_metadata_path.exists():
                     raise BuildError("build backend did not create a wheel METADATA file")
 
-                cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.copy(wheel_metadata_path, metadata_file)
+                _store(wheel_metadata_path, metadata_file)
+                _clean_previous(cache_dir)
                 return PackageMetadata.load(wheel_metadata_path)
             else:
-                cache_dir.mkdir(parents=True, exist_ok=True)
                 wheel_metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
-                wheel_metadata.save(metadata_file)
+                wheel_metadata.save(tdir / "METADATA")
+                _store(tdir / "METADATA", metadata_file)
 
                 cached_output = cache_dir / output.name
-                shutil.move(output, cached_output)
+                _store(output, cached_output)
+                _clean_previous(cache_dir)
                 return wheel_metadata if metadata else cached_output
+
+
+def _store(artifact: Path, cached: Path):
+    # the same distribution may be built concurrently, its artifacts should only be visible when they are complete
+    cached.parent.mkdir(parents=True, exist_ok=True)
+    fd, tmp = mkstemp(dir=cached.parent)
+    os.close(fd)
+    shutil.copy(artifact, tmp)
+    os.replace(tmp, cached)
+
+
+def _clean_previous(cache_dir: Path):
+    for other in cache_dir.parent.iterdir():
+        if other != cache_dir:
+            shutil.rmtree(other, ignore_errors=True)
-- 
2.43.0


From f9978d1068f93759a3bc739928d05f2079460da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 50/78] fix: tasks of the thread pool that wait for other tasks
 of the pool

source distributions that are built in the pool install their requirements through the
same pool, with enough of them all the workers waited forever
---
 pkm/src/pkm/utils/promises.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/promises.py b/pkm/src/pkm/utils/promises.py
index 46c6228..fb8946a 100644
--- a/pkm/src/pkm/utils/promises.py
+++ b/pkm/src/pkm/utils/promises.py
@@ -4,7 +4,7 @@ import typing
 import warnings
 from abc import ABC, abstractmethod
 from concurrent.futures import Future, ThreadPoolExecutor
-from threading import Lock, Condition
+from threading import Lock, Condition, local
 from typing import TypeVar, Generic, Callable, Any, Optional, List, Union, TYPE_CHECKING
 
 from pkm.utils.types import ParamSpec, Mapper, Supplier
@@ -16,6 +16,14 @@ _T = TypeVar("_T")
 _U = TypeVar("_U")
 _PARAMS: "typing.ParamSpec" = ParamSpec("_PARAMS")
 
+_worker = local()
+
+
+def _execute_in_worker(executor: ThreadPoolExecutor, mtd: Callable[_PARAMS, _T],
+                       *args: _PARAMS.args, **kwargs: _PARAMS.kwargs) -> _T:
+    _worker.executor = executor
+    return mtd(*args, **kwargs)
+
 
 class Promise(ABC, Generic[_T]):
 
@@ -81,7 +89,12 @@ class Promise(ABC, Generic[_T]):
                 return Promise.create_completed(err=e)
 
         if isinstance(executor, ThreadPoolExecutor):
-            return cls.wrap_future(executor.submit(mtd, *args, **kwargs), lambda fu: fu.result())
+            # a worker that waits for tasks of its own pool may wait forever (all the other workers may do the same)
+            if getattr(_worker, 'executor', None) is executor:
+                return cls.execute(None, mtd, *args, **kwargs)
+
+            return cls.wrap_future(
+                executor.submit(_execute_in_worker, executor, mtd, *args, **kwargs), lambda fu: fu.result())
 
         return executor.execute(mtd, *args, **kwargs)
 
-- 
2.43.0


From 6959b792a7bd0b6cd58be922025a1403cfd3f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 51/78] fix: processes with output which is not utf-8

---
 pkm/src/pkm/utils/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/processes.py b/pkm/src/pkm/utils/processes.py
index 26063e4..08749ac 100644
--- a/pkm/src/pkm/utils/processes.py
+++ b/pkm/src/pkm/utils/processes.py
@@ -29,7 +29,7 @@ def monitored_run(execution_name: str, cmd: List[str], **subprocess_run_kwargs)
         def decode(line):  # noqa
             nonlocal decode
             if hasattr(line, 'decode'):
-                decode = lambda line: line.decode()  # noqa
+                decode = lambda line: line.decode(errors='replace')  # noqa
             else:
                 decode = lambda line: line  # noqa
 
-- 
2.43.0


From e52ac5a3d6af0deae47ed5566d1b272ba81a547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 52/78] fix: source distributions of projects with a dynamic
 version

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 41af815..53a32f8 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -300,6 +300,8 @@ class PyProjectConfiguration(ConfigFile):
             pyproject.project = ProjectConfig(
                 dynamic=_LEGACY_PROJECT_DYNAMIC, name=(package or source_tree).name,
                 version=package.version if package else Version.parse('unknown_version'))
+        elif package and pyproject.project.version is None:  # may be dynamic
+            pyproject.project.version = package.version
 
         pyproject.project.name = PackageDescriptor.normalize_name(pyproject.project.name)
         return pyproject
-- 
2.43.0


From ee703c22eed65fe807e356834a7dc28f3bfc0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 53/78] fix: dynamic metadata of projects whose backend can
 only build wheels

also, computing it left a dist-info folder between the built distributions of the project
---
 pkm/src/pkm/api/projects/project.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 70014b4..14dcfa5 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -89,11 +89,22 @@ class Project(Package, HasAttachedRepository, Serializable):
     def compute_metadata(self, env: Environment) -> PackageMetadata:
         if self.config.project.dynamic:
             if not (computed := getattr(self, '_compute_metadata', None)):
-                dist_info = DistInfo.load(self.build_wheel(only_meta=True, target_env=env))
-                setattr(self, '_compute_metadata', computed := dist_info.load_metadata_cfg())
+                setattr(self, '_compute_metadata', computed := self._build_metadata(env))
             return computed
         return self.published_metadata
 
+    def _build_metadata(self, env: Environment) -> PackageMetadata:
+        from pkm.api.distributions.wheel_distribution import WheelDistribution
+        from pkm.build.external_builders import BuildError
+
+        with temp_dir() as tdir:
+            try:
+                return DistInfo.load(self.build_wheel(tdir, only_meta=True, target_env=env)).load_metadata_cfg()
+            except BuildError as e:
+                if not e.missing_hook:
+                    raise
+                return WheelDistribution(self.descriptor, self.build_wheel(tdir, target_env=env)).extract_metadata(env)
+
     @property
     def descriptor(self) -> PackageDescriptor:
         return self._descriptor
-- 
2.43.0


From 19da3c6687f2e45089c8b84be3e59aafc1dac56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 54/78] fix: the PKM_HOME environment variable

---
 pkm/src/pkm/api/pkm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/pkm.py b/pkm/src/pkm/api/pkm.py
index 7ed1ab8..199701d 100644
--- a/pkm/src/pkm/api/pkm.py
+++ b/pkm/src/pkm/api/pkm.py
@@ -155,5 +155,5 @@ def _default_home_directory():
     return (path / 'pkm').expanduser().resolve()
 
 
-pkm_home = os.environ.get(ENV_PKM_HOME) or _default_home_directory()
+pkm_home = Path(os.environ[ENV_PKM_HOME]) if os.environ.get(ENV_PKM_HOME) else _default_home_directory()
 pkm: Pkm = Pkm(pkm_home)
-- 
2.43.0


From 6ab9483016ab7ae3d286e2b53a69faed1e138a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 55/78] fix: exit status and names of the scripts of
 containerized applications

---
 .../api/environments/package_containers.py    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 284a062..ee1fc3b 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -207,10 +207,9 @@ class PackageContainers:
                 app_entrypoints_script.write_text(_entrypoints_script(script_entrypoints))
                 ct.touch(app_entrypoints_script)
                 scripts_path = Path(self._target.scripts)
-                for script_ep in script_entrypoints:
-                    epn = PackageDescriptor.normalize_src_package_name(script_ep.name)
-                    entrypoints.append(
-                        script_ep := replace(script_ep, ref=ObjectReference.parse(f"{app_dir.name}.entrypoints:{epn}")))
+                for i, script_ep in enumerate(script_entrypoints):
+                    ref = ObjectReference.parse(f"{app_dir.name}.entrypoints:{_entrypoint_function_name(i)}")
+                    entrypoints.append(script_ep := replace(script_ep, ref=ref))
                     ct.touch(Executables.generate_for_entrypoint(self._target.env, script_ep, scripts_path))
 
             app_entrypoints.entrypoints = entrypoints
@@ -282,13 +281,16 @@ class PackageContainers:
             return self.install(prj, store_mode, True)
 
 
+def _entrypoint_function_name(index: int) -> str:
+    return f"script_{index}"  # entrypoint names are free text: may be keywords, may be the same when normalized
+
+
 def _entrypoints_script(epoints: List[EntryPoint]):
-    def define_epfunc(ep: EntryPoint):
-        epn = PackageDescriptor.normalize_src_package_name(ep.name)
+    def define_epfunc(index: int, ep: EntryPoint):
         ref = ep.ref
-        return f"def {epn}():del sys.modules[__package__];" \
+        return f"def {_entrypoint_function_name(index)}():del sys.modules[__package__];" \
                f"import {ref.module_path};" \
-               f"{ref.module_path}.{ref.object_path}()"
+               f"return {ref.module_path}.{ref.object_path}()"
 
     prolog = dedent("""
     import sys
@@ -297,7 +299,7 @@ def _entrypoints_script(epoints: List[EntryPoint]):
     register()
     
     """)
-    return prolog + os.linesep.join([define_epfunc(ep) for ep in epoints])
+    return prolog + os.linesep.join([define_epfunc(i, ep) for i, ep in enumerate(epoints)])
 
 
 def _register_container_script(name: str) -> str:
-- 
2.43.0


From 63fbece9024740341cf4c9116f51aa8619a2e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 56/78] fix: one container per application, however its name is
 spelled

---
 pkm/src/pkm/api/environments/package_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index ee1fc3b..6d74522 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -132,7 +132,7 @@ class PackageContainers:
                 app = app.descriptor.to_dependency()
 
             pyprj.project = ProjectConfig(
-                name=app.package_name + _CONTAINERIZED_WRAPPER_SUFFIX,
+                name=app.package_name_key + _CONTAINERIZED_WRAPPER_SUFFIX,
                 version=Version.parse(_CONTAINERIZED_WRAPPER_VERSION)
             )
 
-- 
2.43.0


From 99d3f8787d7990e87aaa1bdc39bc53bc1c049ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 57/78] fix: containers that have .pth files come before the
 environment in sys.path

---
 pkm/src/pkm/api/environments/package_containers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 6d74522..bdec15a 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -320,8 +320,10 @@ def _register_container_script(name: str) -> str:
     
         container_path = Path(__file__).parent
         container_site = str(container_path / '{CONTAINERIZED_APP_SITE_PATH}')
+        old_sys_path = list(sys.path)
         site.addsitedir(container_site)
-        sys.path.insert(1, sys.path.pop())
+        # the container, including the paths that its .pth files adds, goes before the paths of the environment
+        sys.path[:] = [*old_sys_path[:1], *sys.path[len(old_sys_path):], *old_sys_path[1:]]
     
         old_path = os.environ.get('PATH')
         path = str(container_path / '{CONTAINERIZED_APP_BIN_PATH}')
-- 
2.43.0


From c7b47f0d7c57d30c8458fbcb7e9784b33c768fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 58/78] fix: updating a containerized application updates it
 and its dependencies, however they are spelled

---
 pkm/src/pkm/api/environments/package_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index bdec15a..8b19fa9 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -163,8 +163,8 @@ class PackageContainers:
             contained_target.install(
                 app_config.dependencies, dependencies_override=app_config.dependency_overwrites,
                 repository=app.attached_repository,
-                store_mode={d.package_name: store_mode for d in app_config.dependencies},
-                updates=[d.package_name for d in app_config.dependencies])
+                store_mode={d.package_name_key: store_mode for d in app_config.dependencies},
+                updates=[p.name_key for p in contained_site.installed_packages()])
 
             WheelDistribution(app.descriptor, build_wheel(app, tdir / "whl", editable=editable)) \
                 .install_to(contained_target, app.descriptor.to_dependency(),
-- 
2.43.0


From 43a4699fc5773e58f1bbed42cc6b8862c4686013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:14 +0000
Subject: [PATCH 59/78] fix: uninstalling a containerized application removes
 its plugins

---
 pkm/src/pkm/api/distributions/distinfo.py | 2 +-
 pkm/src/pkm/api/packages/site_packages.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index bf79e53..8c50ed3 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -71,7 +71,7 @@ class DistInfo(Serializable):
         :return: True if this package dist-info is marked as an app-container
         """
         mode_info = self.load_installation_info()
-        return mode_info and mode_info.containerized
+        return bool(mode_info and mode_info.containerized)
 
     def load_entrypoints_cfg(self) -> "EntrypointsConfiguration":
         """
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 4af4f2b..f6d7162 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -225,6 +225,12 @@ class InstalledPackage(Package, Serializable):
             if any(is_relative_to(f, d) for d in installation_dirs) and (f.is_symlink() or not f.is_dir())]
 
         parents_to_check = set()
+        if self._dist_info.is_app_container():
+            # what was installed in the container later (e.g., plugins) is not in its records
+            container_dir = self._dist_info.path.parent / self.descriptor.expected_src_package_name
+            shutil.rmtree(container_dir / "__container__", ignore_errors=True)
+            parents_to_check.add(container_dir)
+
         for installed_file in installed_files:
             installed_file.unlink(missing_ok=True)
             parents_to_check.add(installed_file.parent)
-- 
2.43.0


From 73dc65f311546702da2d6d085836ef2ce918f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 60/78] fix: a failing installation of a containerized
 application leaves its container as it was

---
 .../api/environments/package_containers.py    | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 8b19fa9..00ae131 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 from contextlib import contextmanager
 from dataclasses import replace
 from pathlib import Path
@@ -35,6 +36,22 @@ CONTAINERIZED_APP_SITE_PATH = "__container__/site"
 CONTAINERIZED_APP_BIN_PATH = "__container__/bin"
 
 
+@contextmanager
+def _restored_on_failure(path: Path) -> ContextManager[None]:
+    with temp_dir() as tdir:
+        backup = tdir / path.name
+        if path.exists():
+            shutil.copytree(path, backup, symlinks=True)
+
+        try:
+            yield
+        except BaseException:
+            shutil.rmtree(path, ignore_errors=True)
+            if backup.exists():
+                shutil.copytree(backup, path, symlinks=True)
+            raise
+
+
 class PackageContainer:
     def __init__(self, package: InstalledPackage, target: PackageInstallationTarget):
         self.package = package
@@ -149,7 +166,7 @@ class PackageContainers:
         contained_target = self._target_of(app.name)
         app_dir = Path(contained_target.purelib).parent.parent
 
-        with temp_dir() as tdir, CopyTransaction() as ct:
+        with temp_dir() as tdir, _restored_on_failure(app_dir), CopyTransaction() as ct:
 
             if Path(contained_target.purelib).exists():
                 contained_target.force_remove(app.name)
-- 
2.43.0


From 0a2b5a0eaabfbeeafebb9d15468c2030bbdb7622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:14 +0000
Subject: [PATCH 61/78] fix: installations next to installed packages that the
 repository does not have (e.g., application containers)

---
 pkm/src/pkm/api/packages/package_installation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 1dff994..97307c2 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -468,6 +468,9 @@ class _InstallationRepository(Repository, ABC):
 
         packages = self._repo.match(dependency, env)
         if installed:
+            if dependency.version_spec.allows_version(installed.version) \
+                    and not any(installed.version == it.version for it in packages):
+                packages = [installed, *packages]  # not in the repository (e.g., application containers)
             packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
         elif self._fast_plan_mode and packages and dependency.package_name_key in self._unspecified_spec_packages:
             max_version_package = max(packages, key=lambda it: it.version)
-- 
2.43.0


From a69e4fa49a386d71528498a0380570149eb9874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 62/78] fix: scripts and dist-info of the replaced version of a
 containerized application

---
 pkm/src/pkm/api/environments/package_containers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 00ae131..f024a4b 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -197,10 +197,21 @@ class PackageContainers:
 
             # now create the dist-info
             dist_info_path = app_dir.parent / contained_distinfo.path.name
+            replaced_scripts: List[EntryPoint] = []
+            if replaced := self._target.site_packages.installed_package(app.name):
+                replaced_scripts = [it for it in replaced.dist_info.load_entrypoints_cfg().entrypoints if it.is_script()]
+                ct.rm(replaced.dist_info.path)
             if dist_info_path.exists():
                 ct.rm(dist_info_path)
             dist_info = DistInfo.load(mkdir(dist_info_path))
 
+            # scripts that the replaced version had
+            for script_ep in replaced_scripts:
+                old_script = Executables.path_of_entrypoint(
+                    self._target.env, script_ep, Path(self._target.scripts))
+                if old_script.exists():
+                    ct.rm(old_script)
+
             ct.copy_tree(contained_distinfo.path, dist_info.path)
             ct.touch(app_dir / "__init__.py", True)
 
-- 
2.43.0


From 98840b3827d0acb0eb543a24bca5434b5722b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:05 +0000
Subject: [PATCH 63/78] fix: container_of an application that the environment
 has as an ordinary package too

---
 pkm/src/pkm/api/environments/package_containers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index f024a4b..3ddf651 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -126,9 +126,8 @@ class PackageContainers:
         """
 
         spacks = self._target.site_packages
-        package_cnt = package + _CONTAINERIZED_WRAPPER_SUFFIX
-        if (cnt := spacks.installed_package(package)) or (cnt := spacks.installed_package(package_cnt)):
-            if cnt.dist_info.is_app_container():
+        for name in (package, package + _CONTAINERIZED_WRAPPER_SUFFIX):
+            if (cnt := spacks.installed_package(name)) and cnt.dist_info.is_app_container():
                 return PackageContainer(cnt, self._target_of(cnt.name))
         return None
 
@@ -230,8 +229,10 @@ class PackageContainers:
             # submit script entrypoints
             app_entrypoints = dist_info.load_entrypoints_cfg()
             entrypoints = []
+            app_entrypoints_script = (app_dir / "entrypoints.py")
+            if app_entrypoints_script.exists():
+                ct.rm(app_entrypoints_script)
             if script_entrypoints:
-                app_entrypoints_script = (app_dir / "entrypoints.py")
                 app_entrypoints_script.write_text(_entrypoints_script(script_entrypoints))
                 ct.touch(app_entrypoints_script)
                 scripts_path = Path(self._target.scripts)
-- 
2.43.0


From c175425e2b453d74fd6239b6ac17b3b4eb9bd198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 64/78] fix: local projects can be installed as containerized
 applications

---
 pkm/src/pkm/api/environments/package_containers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 3ddf651..437a7d7 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -139,11 +139,9 @@ class PackageContainers:
 
             if isinstance(app, Project):
                 repocfg = RepositoriesConfiguration.load(tdir / REPOSITORIES_CONFIGURATION_PATH)
-                repocfg.repositories = [RepositoryInstanceConfig.from_config('wrapped-project', {
-                    'type': FILE_SYSTEM_REPOSITORY_TYPE,
-                    'path': app.path
-                })]
-
+                repocfg.repos = {
+                    'wrapped-project': RepositoryInstanceConfig(
+                        FILE_SYSTEM_REPOSITORY_TYPE, args={'path': str(app.path.absolute())})}
                 repocfg.save()
                 app = app.descriptor.to_dependency()
 
-- 
2.43.0


From ca95e47403b62e6be9c8d33c29cc6d21817afd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 65/78] fix: wheels of containerized applications have valid
 records and stay containers when they are installed

---
 pkm/src/pkm/api/distributions/wheel_distribution.py |  2 ++
 pkm/src/pkm/api/environments/package_containers.py  |  6 ++++--
 pkm/src/pkm/build/pkm_app_builders.py               | 13 ++++++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index de780c7..2a158b7 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -155,6 +155,8 @@ class WheelDistribution(Distribution):
                 marks.append(ct.prepare_write(new_dist_info.user_requested_path()))
                 new_dist_info.mark_as_user_requested(user_request)
             if installation_info:
+                if dist_info.is_app_container():  # the wheel was built from a containerized application
+                    installation_info = replace(installation_info, containerized=True)
                 marks.append(ct.prepare_write(new_dist_info.installation_info_path()))
                 new_dist_info.save_installation_info(installation_info)
 
diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 437a7d7..8c2d9c1 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -7,7 +7,7 @@ from textwrap import dedent
 from typing import List, Union, Optional, ContextManager, Dict
 
 from pkm.api.dependencies.dependency import Dependency
-from pkm.api.distributions.distinfo import DistInfo
+from pkm.api.distributions.distinfo import DistInfo, Record
 from pkm.api.packages.package_installation_info import StoreMode, PackageInstallationInfo
 from pkm.api.distributions.wheel_distribution import WheelDistribution
 from pkm.api.packages.package import PackageDescriptor
@@ -268,7 +268,9 @@ class PackageContainers:
                     path_relative_to_site = str(path_to(installation_site, record.absolute_path(pk.dist_info)))
                     precomputed_hashes[path_relative_to_site] = record.hash_signature
 
-            records.sign_files(ct.copied_files, installation_site, precomputed_hashes)
+            files_to_sign = [it for it in ct.copied_files if it != dist_info.record_path()]
+            records.sign_files(files_to_sign, installation_site, precomputed_hashes)
+            records.records.append(Record(str(path_to(installation_site, dist_info.record_path())), None, None))
             records.save()
 
         self._target.site_packages.reload()
diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index 7465ec4..435afa7 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -40,11 +40,22 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
 
         target.package_containers.install(project, store_mode=StoreMode.from_editable_flag(editable))
 
+        # these are decided by whoever installs the wheel
+        dist_info = next(it for it in target.site_packages.installed_packages() if it.dist_info.is_app_container()).dist_info
+        for installer_file in (dist_info.path / "INSTALLER", dist_info.user_requested_path()):
+            installer_file.unlink(missing_ok=True)
+
+        # the scripts are built from the entrypoints during installation
+        build_dir = Path(target.purelib)
+        records = dist_info.load_record_cfg()
+        records.records[:] = [
+            it for it in records.records if not it.file.startswith("..") and (build_dir / it.file).exists()]
+        records.save()
+
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
         target_dir.mkdir(parents=True, exist_ok=True)
         with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
-            build_dir = Path(target.purelib)
             for file in build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(build_dir))
 
-- 
2.43.0


From 6de892264a18d2060826447c9ef9816bc0f62dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 66/78] fix: the dependencies of a containerized application
 are not its plugins

---
 pkm/src/pkm/api/environments/package_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 8c2d9c1..b3043be 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -176,7 +176,7 @@ class PackageContainers:
 
             contained_target.install(
                 app_config.dependencies, dependencies_override=app_config.dependency_overwrites,
-                repository=app.attached_repository,
+                repository=app.attached_repository, user_requested=False,
                 store_mode={d.package_name_key: store_mode for d in app_config.dependencies},
                 updates=[p.name_key for p in contained_site.installed_packages()])
 
-- 
2.43.0


From 8b1eaa34bce6f7b895adcbe0a753f868509c28a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 67/78] fix: packages of containerized applications in child
 interpreters

---
 pkm/src/pkm/api/environments/package_containers.py | 5 +++++
 pkm/src/pkm/api/packages/site_packages.py          | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index b3043be..455c6f0 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -113,6 +113,11 @@ class PackageContainers:
 
     def _target_of(self, package: str) -> PackageInstallationTarget:
         app_base = Path(self._target.purelib) / PackageDescriptor.normalize_src_package_name(package)
+        if not app_base.name.endswith(_CONTAINERIZED_WRAPPER_SUFFIX) \
+                and not (app_base / CONTAINERIZED_APP_DATA_PATH).exists():
+            # should not have the name of the application own package, which the container's interpreters import
+            app_base = app_base.with_name(app_base.name + _CONTAINERIZED_WRAPPER_SUFFIX)
+
         app_site = str(app_base / CONTAINERIZED_APP_SITE_PATH)
         app_bin = str(app_base / CONTAINERIZED_APP_BIN_PATH)
         app_data = str(app_base / CONTAINERIZED_APP_DATA_PATH)
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index f6d7162..79a92d8 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -227,9 +227,9 @@ class InstalledPackage(Package, Serializable):
         parents_to_check = set()
         if self._dist_info.is_app_container():
             # what was installed in the container later (e.g., plugins) is not in its records
-            container_dir = self._dist_info.path.parent / self.descriptor.expected_src_package_name
-            shutil.rmtree(container_dir / "__container__", ignore_errors=True)
-            parents_to_check.add(container_dir)
+            for container_dir in {f.parent for f in installed_files if f.name == "register_container.py"}:
+                shutil.rmtree(container_dir / "__container__", ignore_errors=True)
+                parents_to_check.add(container_dir)
 
         for installed_file in installed_files:
             installed_file.unlink(missing_ok=True)
-- 
2.43.0


From 264906a2636d63f9083c05cd98fbb86bfdbb85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 68/78] fix: compiled scripts of the replaced version of a
 containerized application

---
 pkm/src/pkm/api/environments/package_containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 455c6f0..5a31e0d 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -235,6 +235,7 @@ class PackageContainers:
             app_entrypoints_script = (app_dir / "entrypoints.py")
             if app_entrypoints_script.exists():
                 ct.rm(app_entrypoints_script)
+                shutil.rmtree(app_dir / "__pycache__", ignore_errors=True)
             if script_entrypoints:
                 app_entrypoints_script.write_text(_entrypoints_script(script_entrypoints))
                 ct.touch(app_entrypoints_script)
-- 
2.43.0


From bbfedfecf6c45f2836e0d83ea3f678646f22a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 69/78] fix: looking for interpreters in directories that
 cannot be read

---
 .../environments/installed_pythons_locator.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index 19167da..0129ef3 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -89,14 +89,21 @@ _PYTHON_EXEC_RX = re.compile(r"python-?[\d.]*(.exe)?")
 
 
 def _as_python_executeable(file: Path) -> Optional[Path]:
-    if (not file.is_dir()) and _PYTHON_EXEC_RX.fullmatch(file.name.lower()) and is_executable(file):
-        try:
+    try:
+        if _PYTHON_EXEC_RX.fullmatch(file.name.lower()) and (not file.is_dir()) and is_executable(file):
             return file.resolve()
-        except:  # noqa
-            pass
+    except (OSError, RuntimeError):  # e.g., no permissions, symlink loops
+        pass
     return None
 
 
+def _iterdir(path: Path) -> List[Path]:
+    try:
+        return list(path.iterdir())
+    except OSError:  # does not exist, not a directory, no permissions, etc.
+        return []
+
+
 def _lookup_in_path(path: Path):
     return {
         executable
@@ -106,10 +113,10 @@ def _lookup_in_path(path: Path):
 
 
 def _lookup_in_env_path() -> Set[Path]:
-    path_parts = [path for it in (os.environ.get("PATH") or "").split(os.pathsep) if (path := Path(it)).exists()]
+    path_parts = [Path(it) for it in (os.environ.get("PATH") or "").split(os.pathsep)]
 
     return {
         executable
         for path in path_parts
-        for file in path.iterdir()
+        for file in _iterdir(path)
         if (executable := _as_python_executeable(file))}
-- 
2.43.0


From ba237c103c4f38a764149ba1c6b54702de1da7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:30 +0000
Subject: [PATCH 70/78] fix: lib64 of environments that are created at relative
 paths

The link's target is relative to the folder the link is in, not to the
working directory of the process that created it. It also stays valid now
when the environment is moved.
---
 pkm/src/pkm/api/environments/environment_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_builder.py b/pkm/src/pkm/api/environments/environment_builder.py
index e386473..7877cf0 100644
--- a/pkm/src/pkm/api/environments/environment_builder.py
+++ b/pkm/src/pkm/api/environments/environment_builder.py
@@ -76,7 +76,7 @@ class EnvironmentBuilder:
             path.mkdir(exist_ok=True, parents=True)
 
         if not ispc.is_32bit_interpreter and ispc['os']['name'] == 'posix' and sys_platform != 'darwin':
-            (env_path / 'lib64').symlink_to(env_path / 'lib')
+            (env_path / 'lib64').symlink_to('lib')
 
         # copy needed files
         if is_windows:
-- 
2.43.0


From 204f09aa38410b0a1a36ac19c4f3cd82df5d7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:30 +0000
Subject: [PATCH 71/78] fix: broken interpreters and programs which only look
 like ones

One file in PATH that is named like an interpreter and cannot be executed, or
whose output is not the expected one, made every search for interpreters
fail; a program that printed two lines of anything was listed as one.
---
 .../pkm/api/environments/installed_pythons_locator.py  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index 0129ef3..6b6748f 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -12,7 +12,7 @@ from typing import List, Optional, Set
 
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import PackageDescriptor
-from pkm.api.versions.version import Version
+from pkm.api.versions.version import StandardVersion, Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.properties import cached_property
 from pkm.utils.systems import is_executable
@@ -42,8 +42,12 @@ class InstalledPythonsLocator:
                 cmdout.check_returncode()
 
                 version_str, executable = cmdout.stdout.decode().strip().splitlines(keepends=False)
+                version = Version.parse(version_str.strip())
                 executable = Path(executable.strip()).resolve()
 
+                if not isinstance(version, StandardVersion) or not executable.is_file():
+                    continue  # not an interpreter
+
                 if executable in executeables_matched:
                     continue
 
@@ -51,9 +55,9 @@ class InstalledPythonsLocator:
 
                 result.append(InstalledInterpreter(
                     executable,
-                    PackageDescriptor("python", Version.parse(version_str.strip()))))
+                    PackageDescriptor("python", version)))
 
-            except (ChildProcessError, CalledProcessError):
+            except (OSError, ValueError, CalledProcessError):  # cannot be executed, unexpected output, failed, etc.
                 # import traceback
                 # traceback.print_exc()
                 pass  # skip this interpreter
-- 
2.43.0


From 0e7507818009e83f62f4b84f81dfcbbe281952ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:30 +0000
Subject: [PATCH 72/78] fix: files in a folder which is no environment were
 deleted

A project whose attached environment is configured to be at (or whose .venv
is) a folder with other files lost those files when its environment was
used. Only environments that do not work any more are replaced.
---
 pkm/src/pkm/api/projects/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 14dcfa5..22749c8 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -238,6 +238,8 @@ class Project(Package, HasAttachedRepository, Serializable):
 
         if not Environment.is_venv_path(env_path):
             if env_path.exists():
+                if not (env_path / "pyvenv.cfg").exists() and any(env_path.iterdir()):
+                    raise FileExistsError(f"{env_path} already exists and is not an environment")
                 shutil.rmtree(env_path)
 
             return EnvironmentBuilder.create_matching(
-- 
2.43.0


From dd987e486a7f2e4faffd3c9171d43c5e733de4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:58 +0000
Subject: [PATCH 73/78] fix: stale, damaged and unwritable stored information
 of environments

What pkm had stored about the interpreter of an environment was used after
the interpreter was replaced in place by another version; stored information
that is valid json but no object, or is not text, made the environment
unusable, and so did an environment that the user may not write to.
---
 .../environments/environment_introspection.py  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index ec04c4d..f868be3 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -6,7 +6,6 @@ import re
 import subprocess
 import warnings
 from dataclasses import dataclass
-from json import JSONDecodeError
 from pathlib import Path
 from struct import Struct
 from typing import Iterator, Tuple, List, Optional, Dict, IO, Callable, Any
@@ -404,11 +403,17 @@ class EnvironmentIntrospection:
 
         try:
             data = json.loads(path.read_text()) if path.exists() else {}
-        except JSONDecodeError as err:
+            if not isinstance(data, dict):
+                raise ValueError("unexpected content")
+        except ValueError as err:  # including json and unicode decoding errors
             warnings.warn(f"env introspection is corrupted, rebuilding it: {err}")
             data = {}
 
-        current_introspection_sentinal = hash((_INTROSPECTION_CODE, str(interpreter_path.absolute())))
+        # the interpreter may be replaced in place, e.g., by its next patch release
+        interpreter_stat = interpreter_path.stat()
+        current_introspection_sentinal = hash((
+            _INTROSPECTION_CODE, str(interpreter_path.absolute()), str(interpreter_path.resolve()),
+            interpreter_stat.st_mtime_ns, interpreter_stat.st_size))
         if (introspection_sentinal := data.get('introspection')) \
                 and introspection_sentinal == current_introspection_sentinal:
             return cls(data=data)
@@ -417,8 +422,11 @@ class EnvironmentIntrospection:
         if save_if_recomputed:
             data = result._data
             data['introspection'] = current_introspection_sentinal
-            path.parent.mkdir(exist_ok=True, parents=True)
-            path.write_text(json.dumps(data))
+            try:
+                path.parent.mkdir(exist_ok=True, parents=True)
+                path.write_text(json.dumps(data))
+            except OSError:  # the environment is not ours to write to
+                pass
 
         return result
 
-- 
2.43.0


From 38edc1b2a3ab1284ad27cf49dd160ce147e24336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:00 +0000
Subject: [PATCH 74/78] fix: installing into a container of a cnt-app source
 distribution removed its dependencies

When an installation has to change dependencies, the dependencies of what is
installed were taken from the repository's package of the same version, which
may have others: the source distribution of a containerized application has
none, the application in the container does.
---
 pkm/src/pkm/api/packages/package_installation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 97307c2..a706c71 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -468,10 +468,10 @@ class _InstallationRepository(Repository, ABC):
 
         packages = self._repo.match(dependency, env)
         if installed:
-            if dependency.version_spec.allows_version(installed.version) \
-                    and not any(installed.version == it.version for it in packages):
-                packages = [installed, *packages]  # not in the repository (e.g., application containers)
-            packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
+            # what is installed may not be in the repository or have there other dependencies (e.g., application containers)
+            packages = [it for it in packages if it.version != installed.version]
+            if dependency.version_spec.allows_version(installed.version):
+                packages.insert(0, installed)
         elif self._fast_plan_mode and packages and dependency.package_name_key in self._unspecified_spec_packages:
             max_version_package = max(packages, key=lambda it: it.version)
             if not isinstance(max_version_package.version, StandardVersion):
-- 
2.43.0


From 9b523a3f6cfc9394ba912636c21ac53e66397f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:46 +0000
Subject: [PATCH 75/78] fix: packages installed already were kept when they are
 required from a url

---
 .../pkm/api/packages/package_installation.py  | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index a706c71..0a1421d 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -219,9 +219,9 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         user_requests = {**pre_requested_deps}
         if user_requested:
-            user_requests.update(new_deps)
+            user_requests.update((key, d) for key, d in new_deps.items() if d.is_applicable_for(self.env, None))
 
-        return InstallationPlan(self, installation, user_requests)
+        return InstallationPlan(self, installation, user_requests, installation_repo.required_by_url)
 
 
 class PackageOperation(Enum):
@@ -233,8 +233,9 @@ class PackageOperation(Enum):
 
 class InstallationPlan:
     def __init__(self, target: PackageInstallationTarget, packages: List[Package],
-                 user_requests: Dict[str, "Dependency"]):
+                 user_requests: Dict[str, "Dependency"], required_by_url: Optional[Set[str]] = None):
         self.default_target = target
+        self._required_by_url = required_by_url or set()
         self.packages = packages
         self.user_requests = user_requests
         self.store_modes: Optional[Dict[str, StoreMode]] = None
@@ -263,7 +264,9 @@ class InstallationPlan:
         for name_key, package_to_install in toinstall.items():
 
             if preinstalled_package := preinstalled.pop(name_key, None):
-                if preinstalled_package.version == package_to_install.version:
+                # the same version may have a different content when it is required from a url
+                replaced = name_key in self._required_by_url and not isinstance(package_to_install, InstalledPackage)
+                if preinstalled_package.version == package_to_install.version and not replaced:
                     prev_store_mode = preinstalled_package.installation_info.store_mode
                     store_mode = store_modes.get(name_key, StoreMode.AUTO)
                     store_mode_matching = (store_mode == StoreMode.AUTO or store_mode == prev_store_mode)
@@ -453,6 +456,7 @@ class _InstallationRepository(Repository, ABC):
         self._fast_plan_mode = fast_plan_mode
         self._unspecified_spec_packages = unspecified_spec_packages
         self._repo = repo
+        self.required_by_url: Set[str] = set()  # keys of packages that are required from somewhere specific
 
     def match(self, dependency: Union["Dependency", str], env: Environment) -> List[Package]:
         if isinstance(dependency, str):
@@ -461,10 +465,18 @@ class _InstallationRepository(Repository, ABC):
         if dependency.package_name_key == self._user_request.name_key:
             return [self._user_request]
 
-        if installed := self._installed_packages.get(dependency.package_name_key):
-            # installed = _UpdatableInstalledPackage(installed, self._repo)
-            if self._fast_plan_mode:
+        installed = self._installed_packages.get(dependency.package_name_key)
+        if url := dependency.required_url():  # where a package came from is only known for the requested packages
+            if installed and installed.user_request and installed.user_request.required_url() == url:
                 return [installed]
+            if installed and self._fast_plan_mode:
+                return []
+            self.required_by_url.add(dependency.package_name_key)
+            return self._repo.match(dependency, env)
+
+        # installed = _UpdatableInstalledPackage(installed, self._repo)
+        if installed and self._fast_plan_mode:
+            return [installed]
 
         packages = self._repo.match(dependency, env)
         if installed:
-- 
2.43.0


From b51d8c2fe1ee6d82dec1a9de142d11da4726b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:46 +0000
Subject: [PATCH 76/78] fix: content of direct urls was not verified and never
 refreshed, files of other packages were accepted

---
 pkm/src/pkm/api/packages/standard_package.py |  3 +++
 pkm/src/pkm/repositories/file_repository.py  |  9 +++++++--
 pkm/src/pkm/repositories/url_repository.py   | 14 +++++++++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/standard_package.py b/pkm/src/pkm/api/packages/standard_package.py
index 8425b75..58aba00 100644
--- a/pkm/src/pkm/api/packages/standard_package.py
+++ b/pkm/src/pkm/api/packages/standard_package.py
@@ -141,5 +141,8 @@ class AbstractPackage(Package):
             info = SourceDistribution(self.descriptor, resource) \
                 .extract_metadata(environment)
 
+        if PackageDescriptor.package_name_key(info.package_name) != self.name_key:
+            raise ValueError(f"{filename} is of another package: {info.package_name}, expecting: {self.name}")
+
         self._dependencies_per_artifact_id[id(artifact)] = info.dependencies
         return info.dependencies
diff --git a/pkm/src/pkm/repositories/file_repository.py b/pkm/src/pkm/repositories/file_repository.py
index cc70290..63776c5 100644
--- a/pkm/src/pkm/repositories/file_repository.py
+++ b/pkm/src/pkm/repositories/file_repository.py
@@ -1,5 +1,6 @@
 from pathlib import Path
 from typing import List, Optional, Iterable
+from urllib.parse import unquote
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.distribution import Distribution
@@ -18,8 +19,12 @@ class FileRepository(AbstractRepository):
         if not (vurl := dependency.required_url()):
             return []
 
-        package = load_package_from_filesystem(Path(without_prefix(vurl.url, "file://")))
-        return [package] if package else []
+        location = Path(without_prefix(vurl.url, "file://"))
+        if not location.exists():
+            location = Path(unquote(str(location)))
+
+        package = load_package_from_filesystem(location)
+        return [package] if package and package.name_key == dependency.package_name_key else []
 
     def accepted_url_protocols(self) -> Iterable[str]:
         return 'file',
diff --git a/pkm/src/pkm/repositories/url_repository.py b/pkm/src/pkm/repositories/url_repository.py
index 528fc69..02ec513 100644
--- a/pkm/src/pkm/repositories/url_repository.py
+++ b/pkm/src/pkm/repositories/url_repository.py
@@ -1,12 +1,16 @@
+import hashlib
 from pathlib import Path
 from typing import List, Iterable
+from urllib.parse import parse_qsl
 
 from pkm.api.dependencies.dependency import Dependency
+from pkm.api.distributions.wheel_distribution import InstallationException
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.standard_package import PackageArtifact, AbstractPackage
 from pkm.api.pkm import pkm
 from pkm.api.repositories.repository import AbstractRepository
+from pkm.utils.http.cache_directive import CacheDirective
 from pkm.utils.http.http_client import Url
 from pkm.utils.types import Serializable
 
@@ -41,4 +45,12 @@ class UrlPackage(AbstractPackage, Serializable):
         self.__init__(*state)
 
     def _retrieve_artifact(self, artifact: PackageArtifact) -> Path:
-        return pkm.httpclient.fetch_resource(str(self._url)).data
+        # what is published under this url may change, unlike what repositories publish for a specific version
+        resource = pkm.httpclient.fetch_resource(str(self._url), CacheDirective.ask_for_update())
+
+        for hash_function, hash_value in parse_qsl(Url.parse(self._url).fragment):
+            if hash_function in hashlib.algorithms_available \
+                    and not resource.is_hash_valid(hash_function, hash_value):
+                raise InstallationException(f"Invalid hash for a resource received from {self._url}")
+
+        return resource.data
-- 
2.43.0


From ba140667e1863a828863696e6f0ab2f78cfb8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:46 +0000
Subject: [PATCH 77/78] fix: git references: ssh urls, moved branches,
 interrupted and colliding clones, groups, shared workspace

---
 pkm/src/pkm/repositories/git_repository.py | 50 +++++++++++++---------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 18e32f3..42a40cc 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -1,6 +1,8 @@
 import shutil
 from pathlib import Path
-from typing import List, Optional, cast, TYPE_CHECKING, Iterable
+from typing import List, Optional, TYPE_CHECKING, Iterable
+from urllib.parse import quote
+from uuid import uuid4
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import StoreMode
@@ -9,9 +11,7 @@ from pkm.api.packages.package_installation import PackageInstallationTarget
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
 from pkm.api.repositories.repository import AbstractRepository
-from pkm.api.versions.version import NamedVersion
 from pkm.utils.commons import NoSuchElementException
-from pkm.utils.http.http_client import Url
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import single_or_raise
 from pkm.utils.processes import monitored_run
@@ -37,7 +37,7 @@ class _Git:
         :return: True if the repository directory is in a detached head state, False if it in a branch
         """
         head = (dir_ / '.git/HEAD').read_text()
-        return not (dir_ / '.git/heads' / head).exists()
+        return not head.startswith('ref:')
 
     def update(self, package_name: str, repo_dir: Path):
         if self._is_detached(repo_dir):
@@ -49,16 +49,21 @@ class _Git:
     def clone(self, package_name: str, repository_url: str, branch_or_commit: Optional[str], target_dir: Path):
         # TODO: the monitoring should probably run as part of a larger "match" monitored operation
 
+        # an interrupted clone must never be mistaken for a complete one
+        partial_dir = target_dir.with_name(f"{target_dir.name}.{uuid4().hex}.part")
+
         try:
             monitored_run(
-                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(target_dir)]).check_returncode()
+                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(partial_dir)]).check_returncode()
 
             if branch_or_commit:
                 monitored_run(
                     f'fetch {package_name}', [self._git_cmd, 'checkout', branch_or_commit],
-                    cwd=str(target_dir)).check_returncode()
+                    cwd=str(partial_dir)).check_returncode()
+
+            partial_dir.rename(target_dir)
         except Exception:
-            shutil.rmtree(target_dir, ignore_errors=True)
+            shutil.rmtree(partial_dir, ignore_errors=True)
             raise
 
 
@@ -80,32 +85,33 @@ class GitRepository(AbstractRepository):
         if not (version := dependency.required_url()) or version.protocol != 'git':
             return []
 
-        parts = version.url.split("@")
-        url = Url.parse(parts[0])
-        if (sz := len(parts)) == 1:
-            branch = None
-        elif sz == 2:
-            branch = parts[1]
-        else:
-            raise ValueError(f"malformed git url: {url}")
+        # only what comes after the authority may specify a branch, e.g., in ssh://user@host/path@branch
+        base, sep, path = version.url.partition("://")
+        authority, slash, path = path.partition("/")
+        path, _, branch = path.partition("@")
+        if "@" in branch:
+            raise ValueError(f"malformed git url: {version.url}")
+
+        repository_url = f"{base}{sep}{authority}{slash}{path}"
 
-        target_dir = self._workspace / dependency.package_name / url.host / url.path.lstrip('/')
-        if branch:
-            target_dir /= branch
+        target_dir = self._workspace / dependency.package_name / quote(f"{base}{sep}{authority}", safe='') / path
+        if branch:  # must not reside inside the clone of another branch
+            target_dir = target_dir.with_name(f"{target_dir.name}@{quote(branch, safe='')}")
 
         if target_dir.exists():
             self._git_client.update(dependency.package_name, target_dir)
         else:
-            self._git_client.clone(dependency.package_name, str(url), branch, target_dir)
+            self._git_client.clone(dependency.package_name, repository_url, branch or None, target_dir)
 
         desc = PackageDescriptor(dependency.package_name, version)
 
         if ProjectGroup.is_valid(target_dir):
             project = single_or_raise(p for p in ProjectGroup.load(target_dir).project_children_recursive
-                                      if p.name == dependency.package_name)
-            project.bump_version('name', cast(NamedVersion, desc.version).name, save=False)
+                                      if p.name_key == dependency.package_name_key)
         else:
             project = Project.load(target_dir, package=desc)
+            if project.name_key != dependency.package_name_key:
+                return []
 
         return [_GitPackageWrapper(project)]
 
@@ -136,4 +142,6 @@ class _GitPackageWrapper(Package, Serializable):
     def install_to(
             self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
             store_mode: StoreMode = StoreMode.AUTO):
+        # the workspace is shared between environments, and follows the updates of the required branch
+        store_mode = StoreMode.COPY if store_mode == StoreMode.AUTO else store_mode
         return self._project.install_to(target, user_request, store_mode=store_mode)
-- 
2.43.0


From 963c855cb17c39918deec3dcd7b2b0d1daebdaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:46 +0000
Subject: [PATCH 78/78] fix: projects whose build backend does not support
 editable installs could not be installed

---
 pkm/src/pkm/api/projects/project.py    | 10 +++++++++-
 pkm/src/pkm/build/external_builders.py |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 22749c8..bd547b2 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -131,8 +131,16 @@ class Project(Package, HasAttachedRepository, Serializable):
         editable = store_mode != StoreMode.COPY
 
         from pkm.api.distributions.wheel_distribution import WheelDistribution
+        from pkm.build.external_builders import BuildError
         with temp_dir() as tdir:
-            wheel = self.build_wheel(tdir, editable=editable, target_env=target.env)
+            try:
+                wheel = self.build_wheel(tdir, editable=editable, target_env=target.env)
+            except BuildError as e:
+                if store_mode != StoreMode.AUTO or not e.missing_hook:
+                    raise
+                editable = False  # the build backend does not support editable installations (it is optional: pep660)
+                wheel = self.build_wheel(tdir, target_env=target.env)
+
             distribution = WheelDistribution(self.descriptor, wheel)
             distribution.install_to(
                 target, user_request,
diff --git a/pkm/src/pkm/build/external_builders.py b/pkm/src/pkm/build/external_builders.py
index 2bec627..5f8c8a0 100644
--- a/pkm/src/pkm/build/external_builders.py
+++ b/pkm/src/pkm/build/external_builders.py
@@ -151,7 +151,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
 
         if wheel_output.status == 'success':
             return target_dir / wheel_output.result
-        raise BuildError(f"build backend did not produced expected wheel (project={project.name} {project.version})")
+        raise BuildError(f"build backend did not produced expected wheel (project={project.name} {project.version})", True)
 
 
 @dataclass
-- 
2.43.0

