From 1dcb136e6608aae0563877a16f9f360aa5292eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 01/66] fix: hash the encoded source id so that cache names
 work on Python 3

---
 xylem/sources/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f0ce0bc..633be3c 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -29,6 +29,7 @@ from xylem.log_utils import is_verbose
 from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
+from xylem.text_utils import to_bytes
 from xylem.text_utils import to_str
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
@@ -38,7 +39,7 @@ from xylem.sources.rules_dict import merge_installer_dict
 
 
 def _id_string(unique_id):
-    return hashlib.sha1(unique_id).hexdigest()
+    return hashlib.sha1(to_bytes(unique_id)).hexdigest()
 
 
 def _cache_file_path(cache_dir, unique_id):
-- 
2.43.0


From c70c5a92494163b6b9b99f230c749af57235f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 02/66] fix: do not index dict views when reading source
 descriptions

---
 xylem/sources/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 633be3c..a4044da 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -211,7 +211,7 @@ class RulesDatabase(object):
             sources_gen = get_default_source_descriptions()
         for source_file, source_descriptions in sources_gen:
             for descr in source_descriptions:
-                spec_name, arguments = descr.items()[0]
+                spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
                 self.sources.append(RulesSource(
                     spec,
-- 
2.43.0


From 1be1b4033e4187708b1fd9359ffc5054789e5e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 03/66] fix: report invalid spec names in source descriptions
 as ValueError

---
 xylem/sources/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index eaeb3cc..82f3559 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -170,7 +170,7 @@ def verify_source_description(descr):
     if not isinstance(descr, dict):
         raise ValueError("Expected source description to be a dictionary, but "
                          "got '{0}'.".format(to_str(type(descr))))
-    keys = descr.keys()
+    keys = list(descr.keys())
     if not len(keys) == 1:
         raise ValueError("Expected source description to have one entry, but "
                          "got keys '{0}'.".format(keys))
@@ -178,7 +178,7 @@ def verify_source_description(descr):
         verify_spec_name(keys[0])
     except ValueError as e:
         raise_from(ValueError, "source description does not have valid "
-                   "spec name '{0}'".format(keys[0], e))
+                   "spec name '{0}'".format(keys[0]), e)
 
 
 def sources_cache_dir(cache_dir):
-- 
2.43.0


From 3ccec7a2f5d59b8c99cabcb2019a0a3e18c79ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 04/66] fix: process source files in alphabetical order and
 skip hidden ones

---
 xylem/sources/impl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 82f3559..2a3b546 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -53,7 +53,7 @@ def get_default_source_descriptions():
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     files = pkg_resources.resource_listdir(SOURCES_GROUP, 'sources.d')
-    for file_path in files:
+    for file_path in sorted(files):
         file_path = os.path.join('sources.d', file_path)
         data = pkg_resources.resource_string(SOURCES_GROUP, file_path)
         yield parse_source_descriptions(
@@ -85,12 +85,12 @@ def load_sources_from_path(path):
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     return _load_sources(
-        [os.path.join(path, s) for s in os.listdir(path)])
+        [os.path.join(path, s) for s in sorted(os.listdir(path))])
 
 
 def _load_sources(files):
     for file_path in files:
-        if file_path.startswith('.'):
+        if os.path.basename(file_path).startswith('.'):
             continue
         if not file_path.endswith('.yaml'):
             continue
-- 
2.43.0


From f6576a37a7bea3e7cb524f226923f477e64d9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 05/66] fix: pass load time when checking for outdated cache
 data

---
 xylem/sources/database.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index a4044da..db0466e 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -151,9 +151,11 @@ class RulesSource(object):
             return True
         cache_data = _read_cache(self.cache_file_path())
         # here we could also check xylem version if needed in the future
-        if self.spec.name != cache_data('spec_name'):
+        if self.spec.name != cache_data['spec_name']:
             return True
-        return self.spec.is_data_outdated(cache_data['data'], self.arguments)
+        return self.spec.is_data_outdated(
+            cache_data['data'], self.arguments,
+            cache_data['time_data_loaded'])
 
     def is_cache_available(self):
         path = self.cache_file_path()
-- 
2.43.0


From 9269a68cfc26df6d714f26982c881bfaae4ea555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 06/66] fix: make clearing the cache of a source work

---
 xylem/sources/database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index db0466e..9c8bb18 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -168,14 +168,14 @@ class RulesSource(object):
 
         :raises OSError: if cache file cannot be removed
         """
-        path = self.cache_file_path(self.sources_context)
+        path = self.cache_file_path()
         if os.path.exists(path):
             if is_verbose():
-                info("Removing cache file '%s'.", path)
+                info("Removing cache file '{0}'.".format(path))
             os.remove(path)
         else:
             if is_verbose():
-                info("Cache file '%s' already clear.", path)
+                info("Cache file '{0}' already clear.".format(path))
 
     def lookup(self, xylem_key, installer_context):
         installer_dict = self.spec.lookup(
-- 
2.43.0


From c7065fb9b9e68aa4030c36ede884912fb3799dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 07/66] fix: replace cache files atomically

---
 xylem/sources/database.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 9c8bb18..ec6ec91 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -18,6 +18,7 @@ from __future__ import print_function
 import os
 import hashlib
 import datetime
+import uuid
 
 import six.moves.cPickle as pickle
 
@@ -93,9 +94,19 @@ def _read_cache(filepath):
 
 
 def _write_cache(cache_data, filepath):
-    with open(filepath, 'wb') as f:
-        # protocol 2 is compatible with python 2 and 3
-        pickle.dump(cache_data, f, protocol=2)
+    # Write to a temporary file unique to this writer and move it into
+    # place, such that neither an interrupted write nor a concurrent
+    # reader ever sees a partial cache file.
+    tmp_path = "{0}.{1}.tmp".format(filepath, uuid.uuid4().hex)
+    try:
+        with open(tmp_path, 'wb') as f:
+            # protocol 2 is compatible with python 2 and 3
+            pickle.dump(cache_data, f, protocol=2)
+        os.rename(tmp_path, filepath)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
 
 
 class RulesSource(object):
-- 
2.43.0


From 09fd2bb2ce33588f3cd626492fe6affff00f8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 08/66] fix: honour dry_run in update

---
 xylem/update.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xylem/update.py b/xylem/update.py
index 09abf20..63a1d4c 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -78,9 +78,13 @@ def update(dry_run=False, config=None, sources_context=None):
     if config is None:
         config = get_config()
     sources_context = sources_context or SourcesContext(config)
-    sources_context.ensure_cache_dir()
+    if not dry_run:
+        sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
     database.print_info = True
     # support partial update of local sources even without connectivity:
     database.raise_on_error = False
-    database.update()
+    if dry_run:
+        database.load_from_source()
+    else:
+        database.update()
-- 
2.43.0


From d29f8698a4d12ef7b84aa21bc34de15e9b34d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 09/66] fix: return uncompacted rules from lookup

---
 xylem/lookup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index b4e4d50..dfa6865 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -37,7 +37,7 @@ def lookup(xylem_key, compact=False, config=None, sources_context=None,
 
     if compact:
         default_installer_name = ic.get_default_installer_name()
-        compacted = compact_installer_dict(installer_dict,
-                                           default_installer_name)
+        installer_dict = compact_installer_dict(installer_dict,
+                                                default_installer_name)
 
-    return compacted
+    return installer_dict
-- 
2.43.0


From 7395e3b3f0a39f75a235c1786db7838b87bea3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 10/66] fix: replace default installer when merging any_version
 entries

---
 xylem/sources/rules_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 2922a08..7557cee 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -378,7 +378,8 @@ def merge_version_dict(new_version_dict, combined_version_dict,
             remove_rule_for_all_versions(combined_version_dict, installer)
         if "any_version" in combined_version_dict:
             merge_installer_dict(
-                new_installer_dict, combined_version_dict["any_version"], None)
+                new_installer_dict, combined_version_dict["any_version"],
+                default_installer)
         else:
             combined_version_dict["any_version"] = copy_installer_dict(
                 new_installer_dict, default_installer)
-- 
2.43.0


From 989075012e3b8148b28b3ca7022aca354d1ca9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 11/66] fix: pass on allow_default_installer when verifying
 rules dicts

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 7557cee..58974e8 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -99,7 +99,7 @@ def verify_rules_dict(rules_dict, allow_default_installer=True):
             raise_from(ValueError, "Expected rules dict to have xylem keys as "
                        "keys.", e)
         try:
-            verify_os_dict(os_dict)
+            verify_os_dict(os_dict, allow_default_installer)
         except ValueError as e:
             raise_from(ValueError, "Expected rules dict to have valid os "
                        "dicts as values, but got error for key '{0}'.".
-- 
2.43.0


From f98735abe5938568066a7584802bbaa9b60fac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 12/66] fix: reject identifiers with trailing newline

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 58974e8..cab1a91 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -280,7 +280,7 @@ def verify_rules_dict_identifier(identifier, kind, allow_keywords=[]):
                          format(kind, identifier))
     if identifier in rules_dict_whitelist:
         return
-    if not re.match('(?u)^[\w.’+-]+$', identifier):
+    if not re.match('(?u)^[\w.’+-]+\Z', identifier):
         raise ValueError(
             "{0} '{1}' has disallowed characters. Allowed are: alphanumeric, "
             "dash, dot, underscore.".format(kind, identifier))
-- 
2.43.0


From 543f8daf84cb7667e5e730483bd4b802723c955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 13/66] fix: make SpecParsingError constructible

---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 620f4fe..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        ValueError.__init__(self, msg)
+        super(SpecParsingError, self).__init__(msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 504cb68fec9a73d832852d4f80afc3c1cd31ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 14/66] fix: compact rules that share structure by YAML aliases

---
 xylem/specs/plugins/rules.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..8a5f916 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -515,19 +515,22 @@ def compact_version_dict(version_dict, default_installer):
 
 
 def compact_os_dict(os_dict, default_installers):
+    # do not modify the input, which may be shared between xylem keys
+    # by means of YAML aliases
+    result = {}
     for os_name, version_dict in os_dict.items():
         try:
             if os_name == 'any_os':
-                os_dict['any_os'] = compact_installer_dict(
+                result['any_os'] = compact_installer_dict(
                     version_dict['any_version'], None)
             else:
-                os_dict[os_name] = compact_version_dict(
+                result[os_name] = compact_version_dict(
                     version_dict, default_installers.get(os_name, None))
         except Exception as e:
             error("Failed to expand version dict for os {0} with error: "
                   "{1}\n{2}".format(os_name, to_str(e), version_dict))
             raise
-    return os_dict
+    return result
 
 
 def compact_rules(rules_dict, default_installers):
-- 
2.43.0


From 097ca63028b602503b2ed49942875cc69bf7478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 15/66] fix: do not fail with unbound variable on reinstall

---
 xylem/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/install.py b/xylem/install.py
index 0f833a8..6353c1a 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -83,6 +83,7 @@ def install(xylem_keys,
                                 interactive=interactive)
 
     #  4. Determine uninstalled resolutions
+    uninstalled_errors = []
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
-- 
2.43.0


From e40edf3db0d96cd108870301da39b29d1189df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 16/66] fix: report failures to determine uninstalled
 resolutions

---
 xylem/install.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index 6353c1a..28fdb43 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -25,14 +25,12 @@ from xylem.installers import InstallerError
 from xylem.resolve import resolve
 
 from xylem.exception import raise_from
-from xylem.exception import exc_to_str
 from xylem.exception import chain_exception
 from xylem.exception import XylemError
 from xylem.exception import XylemInternalError
 
 from xylem.log_utils import info
 from xylem.log_utils import info_v
-from xylem.log_utils import error
 
 from xylem.util import remove_duplicates
 
@@ -87,13 +85,9 @@ def install(xylem_keys,
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
-        # TODO: figure out what exactly to do with these errors... For
-        #       now print them here
-        for err in uninstalled_errors:
-            error(exc_to_str(uninstalled_errors))
 
     if uninstalled_errors and not continue_on_error:
-        return resolve_errors, []
+        return resolve_errors, uninstalled_errors
 
     #  5. check prerequisites all resolutions to be installed
     check_install_prerequisites(_map_resolutions(resolved),
@@ -109,7 +103,7 @@ def install(xylem_keys,
                                       simulate=simulate,
                                       continue_on_error=continue_on_error)
 
-    return resolve_errors, install_errors
+    return resolve_errors, uninstalled_errors + install_errors
 
 
 def _installer_names(resolved):
-- 
2.43.0


From 7242dff74ab45a2ac1f2c9ab09ccfcdc558e39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 17/66] fix: report failure to compose install commands

---
 xylem/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/install.py b/xylem/install.py
index 28fdb43..97d53ae 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -238,6 +238,7 @@ def install_resolutions(installer_name,
             "for resolutions {} with options `interactive={}` and "
             "`reinstall={}`".
             format(installer_name, resolutions, interactive, reinstall), e))
+        return errors
     except Exception as e:
         raise_from(
             XylemInternalError, "unexpected error in installer '{}' while "
-- 
2.43.0


From 1fddc01c2b4f1b64d3d2d06e230e6c48b35164f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 18/66] fix: sanitize color annotations without changing the
 text

---
 xylem/terminal_color.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/terminal_color.py b/xylem/terminal_color.py
index c883ba2..2a618c9 100644
--- a/xylem/terminal_color.py
+++ b/xylem/terminal_color.py
@@ -88,7 +88,9 @@ def disable_ANSI_colors():
     """
     global _ansi
     for key in _ansi:
-        _ansi[key] = ''
+        # the fmt sanitizers are literal text, not escape sequences
+        if not key.startswith('at'):
+            _ansi[key] = ''
 
 # Default to ansi colors on
 enable_ANSI_colors()
@@ -103,8 +105,6 @@ class ColorTemplate(string.Template):
 def sanitize(msg):
     """Sanitize the existing msg, use before adding color annotations."""
     msg = msg.replace('@', '@@')
-    msg = msg.replace('{', '{{')
-    msg = msg.replace('}', '}}')
     msg = msg.replace('@@!', '@{atexclimation}')
     msg = msg.replace('@@/', '@{atfwdslash}')
     msg = msg.replace('@@_', '@{atunderscore}')
-- 
2.43.0


From 91824795e040aea89516d98b740e337e7dcc2ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 19/66] fix: print install commands containing color delimiters
 verbatim

---
 xylem/install.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 97d53ae..422c58c 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -35,6 +35,7 @@ from xylem.log_utils import info_v
 from xylem.util import remove_duplicates
 
 from xylem.terminal_color import fmt
+from xylem.terminal_color import sanitize
 
 
 class InstallError(XylemError):
@@ -259,7 +260,7 @@ def install_resolutions(installer_name,
 
     # 2. else, run each install command set and collect errors
     for cmd in commands:
-        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
+        info(fmt("@!executing command: %s@|" % sanitize(' '.join(cmd))))
         exitcode = subprocess.call(cmd)
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
-- 
2.43.0


From 7fe56b07d949be28b0b756e42fa64cbfeca6df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 20/66] fix: report install commands that cannot be executed as
 InstallError

---
 xylem/install.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 422c58c..dc3e0da 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -261,7 +261,15 @@ def install_resolutions(installer_name,
     # 2. else, run each install command set and collect errors
     for cmd in commands:
         info(fmt("@!executing command: %s@|" % sanitize(' '.join(cmd))))
-        exitcode = subprocess.call(cmd)
+        try:
+            exitcode = subprocess.call(cmd)
+        except OSError as e:
+            errors.append(chain_exception(
+                InstallError, "failed to execute command `{}` for installer "
+                "'{}'".format(' '.join(cmd), installer_name), e))
+            if not continue_on_error:
+                return errors
+            continue
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
             errors.append(InstallError(
-- 
2.43.0


From 721e9a191bedd400207817d7ab1526b2c851cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 21/66] fix: make resolutions hashable consistently with their
 equality

---
 xylem/installers/installer_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 90e6fa8..40d9c11 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -60,7 +60,7 @@ class Resolution(dict):
         return super(Resolution, self).__eq__(other)
 
     def __hash__(self):
-        return hash((type(self), tuple(self.items())))
+        return hash(self.get('package'))
 
     def __str__(self):
         return ' '.join(self.to_list())
-- 
2.43.0


From b2975723d9829f7d0895f0fb097f33d0aedc7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 22/66] fix: accept interactive argument in
 install_package_manager of plugins

---
 xylem/installers/plugins/apt.py      | 2 +-
 xylem/installers/plugins/homebrew.py | 2 +-
 xylem/installers/plugins/macports.py | 2 +-
 xylem/installers/plugins/pip.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xylem/installers/plugins/apt.py b/xylem/installers/plugins/apt.py
index 67fa757..a67b0ee 100644
--- a/xylem/installers/plugins/apt.py
+++ b/xylem/installers/plugins/apt.py
@@ -53,7 +53,7 @@ class AptInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: raise UserInterventionRequiredError with instructions,
         # handle this error specially and print instructions
         raise NotImplementedError()
diff --git a/xylem/installers/plugins/homebrew.py b/xylem/installers/plugins/homebrew.py
index 66c78f2..c4349ef 100644
--- a/xylem/installers/plugins/homebrew.py
+++ b/xylem/installers/plugins/homebrew.py
@@ -57,7 +57,7 @@ class HomebrewInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/macports.py b/xylem/installers/plugins/macports.py
index 5a302cb..6cebe6b 100644
--- a/xylem/installers/plugins/macports.py
+++ b/xylem/installers/plugins/macports.py
@@ -53,7 +53,7 @@ class MacportsInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 3ad68e8..32b4725 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -63,7 +63,7 @@ class PipInstaller(PackageManagerInstaller):
         installed = [row.split("==")[0] for row in installed]
         return [r for r in resolved if r.package not in installed]
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
         raise NotImplementedError()
 
-- 
2.43.0


From 6e29b76e631434ab6f72113eec922bbb7cebbe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 23/66] fix: name the package manager in out-of-date warning

---
 xylem/installers/package_manager_installer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 4ec7150..6903ff3 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -123,4 +123,4 @@ class PackageManagerInstaller(InstallerBase):
                 error("Installer plugin '{}' failed to update itself.".
                       format(self.name))
         warning("Package manager '{}' seems to be out-of-date. Please "
-                "consider updating for best results.")
+                "consider updating for best results.".format(self.name))
-- 
2.43.0


From 4256f56e19d495ebc305d1e01f7e0cb3bc3be503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 24/66] fix: print text instead of bytes representations on
 Python 3

---
 xylem/log_utils.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index 30becc1..37594df 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -16,6 +16,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 import os
+import six
 import sys
 
 from xylem.text_utils import to_str
@@ -32,6 +33,18 @@ _verbose = False
 enable_ANSI_colors()
 
 
+def _printable(msg, file):
+    """Convert text to what :func:`print` can write to ``file``.
+
+    With py3, text printed to ``file`` must not be encoded beforehand.
+    Characters ``file`` cannot represent are replaced.
+    """
+    if six.PY2:
+        return to_bytes(msg)
+    encoding = getattr(file, 'encoding', None) or 'utf-8'
+    return to_str(to_bytes(msg, encoding), encoding)
+
+
 def enable_verbose(state=True):
     """En- or disable printing verbose output to console."""
     global _verbose
@@ -73,7 +86,7 @@ def debug(msg, file=None, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('greenf') + msg + ansi('reset')
     if is_debug():
-        print(to_bytes(msg), file=file, *args, **kwargs)
+        print(_printable(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -87,7 +100,7 @@ def info(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stdout
     msg = to_str(msg)
     msg = msg + ansi('reset')  # Assume that msg might contain colors
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_printable(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -102,7 +115,7 @@ def warning(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stderr
     msg = to_str(msg)
     msg = ansi('yellowf') + msg + ansi('reset')
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_printable(msg, file), file=file, *args, **kwargs)
     return msg
 
 
@@ -117,8 +130,8 @@ def error(msg, file=None, exit=False, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('redf') + ansi('boldon') + msg + ansi('reset')
     if exit:
-        sys.exit(to_bytes(msg))
-    print(to_bytes(msg), file=file, *args, **kwargs)
+        sys.exit(_printable(msg, sys.stderr))
+    print(_printable(msg, file), file=file, *args, **kwargs)
     return msg
 
 
-- 
2.43.0


From 4ed9f7590da2ba972805503995d968f092df1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 25/66] fix: return the parser created for a command

---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 2e3b342..33b295c 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -72,6 +72,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     command_defi['prepare_config'](get_config_description())
     add_config_arguments(parser)
     add_global_arguments(parser)
+    return parser
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From 47c8a0d7601fd9c8eb8f846b357d03fed77695ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 26/66] fix: return the result of converting to config dict

---
 xylem/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a7b3c15..adf0b8b 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -355,6 +355,7 @@ def ceorce_config_dict(config, copy=False):
     result = ConfigDict()
     for k, v in six.iteritems(config):
         result[k] = ceorce_config_dict(v, copy=copy)
+    return result
 
 
 def copy_to_dict(config):
-- 
2.43.0


From cdab02ea4fab03d5ea5ffd9108a3f596705bb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 27/66] fix: do not share default values between config dicts

---
 xylem/config_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index adf0b8b..6ce864d 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1133,9 +1133,9 @@ def config_from_defaults(description):
             group, subname = split_group(name)
             if group not in result:
                 result[group] = ConfigDict()
-            result[group][subname] = item.default
+            result[group][subname] = deepcopy(item.default)
         else:
-            result[name] = item.default
+            result[name] = deepcopy(item.default)
     return result
 
 
-- 
2.43.0


From 3f35110546f36c5a86a3f139f4fcba0f539948ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 28/66] fix: handle config groups which are unset or not a
 dictionary

---
 xylem/config_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 6ce864d..81e7a8b 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1213,7 +1213,12 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-        data_group = data.get(group, {})
+        data_group = data.get(group, None)
+        if data_group == UNSET_YAML:
+            data_group = {}
+        if not isinstance(data_group, dict):
+            raise ConfigValueError(type_error_msg(
+                "dict", data_group, what_for="config group " + group))
         for subname, item in six.iteritems(group_dict):
             process_item(config[group], data_group, subname, item)
     for name, item in six.iteritems(description.items):
-- 
2.43.0


From 194b61da3906d8c5a71ca57128df51572f43f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 29/66] fix: report invalid YAML scalars as YAML errors

---
 xylem/yaml_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index b917ed0..2295de4 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -24,6 +24,8 @@ from __future__ import unicode_literals
 
 import yaml
 
+from xylem.exception import raise_from
+
 
 def load_yaml(data):
     """Parse a unicode string containing yaml.
@@ -43,7 +45,13 @@ def load_yaml(data):
     MyLoader.add_constructor(
         'tag:yaml.org,2002:str', MyLoader.construct_yaml_str)
 
-    return yaml.load(data, Loader=MyLoader)
+    try:
+        return yaml.load(data, Loader=MyLoader)
+    except yaml.YAMLError:
+        raise
+    except (ValueError, LookupError, AttributeError, OverflowError) as e:
+        # invalid scalars with implicit or explicit tags, e.g. dates
+        raise_from(yaml.YAMLError, "failed to construct value", e)
 
 
 def dump_yaml(data, inline=False):
-- 
2.43.0


From 5159feb186d1932fc6f6b8fb258f9aa1069684d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 30/66] fix: report missing command as usage error

---
 xylem/commands/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 33b295c..ade503b 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -105,6 +105,8 @@ def create_subparsers(parser, cmds):
         command.""",
         dest='cmd'
     )
+    # without this, py3 accepts the omission of the command
+    subparser.required = True
     for defi in defis:
         create_command_parser(defi, subparser.add_parser, parser_title=True)
 
-- 
2.43.0


From a9b89868366d7a9e369418cdd9cfc5746f79aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 31/66] fix: do not ignore options given before the command

---
 xylem/commands/main.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index ade503b..faa2f58 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -107,8 +107,15 @@ def create_subparsers(parser, cmds):
     )
     # without this, py3 accepts the omission of the command
     subparser.required = True
+    common_dests = {action.dest for action in parser._actions}
     for defi in defis:
-        create_command_parser(defi, subparser.add_parser, parser_title=True)
+        command_parser = create_command_parser(
+            defi, subparser.add_parser, parser_title=True)
+        # options given before the command must not be overwritten by
+        # the defaults of the same options after the command
+        for action in command_parser._actions:
+            if action.dest in common_dests:
+                action.default = argparse.SUPPRESS
 
 
 # FIXME: Merge with help message somehow and decide when to print
-- 
2.43.0


From d344620320d0f092ba583a2508877f6c6c50962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 32/66] fix: parse os_override of configs passed as regular
 dict

---
 xylem/config.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xylem/config.py b/xylem/config.py
index 12b63b0..70abf4e 100644
--- a/xylem/config.py
+++ b/xylem/config.py
@@ -289,6 +289,14 @@ def process_config(config, args):
             else:
                 config.sources_dir = sources_dir(
                     system_config_dir(args.prefix, XYLEM_TOOL_NAME))
+    process_os_override(config)
+
+
+def process_os_override(config):
+    """Parse ``"os_override"`` into (name, version) tuple.
+
+    Also handles the potential override of ``"os_options/features"``.
+    """
     if config.os_override is not None:
         name, version, features = parse_os_override(config.os_override)
         config.os_override = (name, version)
@@ -313,6 +321,8 @@ def ensure_config(config):
     if isinstance(config, ConfigDict):
         return config
     if isinstance(config, dict):
-        return config_from_parsed_yaml(
+        config = config_from_parsed_yaml(
             config, get_config_description(), use_defaults=True)
+        process_os_override(config)
+        return config
     raise ValueError("invalid config of type '{}'".format(type_name(config)))
-- 
2.43.0


From a5a2dc30830018fe3b3089abf36f2b3b4035b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 33/66] fix: raise DownloadFailure for any failure while
 loading urls

---
 xylem/load_url.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index d436558..83e74ee 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -18,6 +18,7 @@ from __future__ import unicode_literals
 
 import socket
 import time
+from six.moves.http_client import HTTPException
 from six.moves.urllib.error import HTTPError
 from six.moves.urllib.error import URLError
 from six.moves.urllib.request import urlopen
@@ -48,6 +49,7 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     while True:
         try:
             req = urlopen(url, timeout=timeout)
+            data = req.read()
         except HTTPError as e:
             if e.code == 503 and retry:
                 retry -= 1
@@ -62,9 +64,23 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except socket.timeout as e:
+            # timeout while reading the response
+            if retry:
+                retry -= 1
+                time.sleep(retry_period)
+            else:
+                raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                           format(url), e)
+        except (EnvironmentError, HTTPException, ValueError) as e:
+            raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                       format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    data = req.read()
-    return to_str(data, encoding=encoding)
+    try:
+        return to_str(data, encoding=encoding)
+    except LookupError as e:
+        raise_from(DownloadFailure, "Failed to decode url '{0}'.".
+                   format(url), e)
-- 
2.43.0


From f2aba46348c09adc98da7ac9c47b1be9bef30ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 34/66] fix: name the duplicate in the warning about duplicate
 plugins

---
 xylem/plugin_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 9259aa3..7fd0bbf 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -177,7 +177,7 @@ def load_plugins(kind, base_class, group, disabled=[]):
             continue
         if obj_name in name_set:
             # TODO: somehow decide when to reraise and when to display error
-            warning("Ignoring {0} plugin '{1}' with duplicate name '{1}'".
+            warning("Ignoring {0} plugin '{1}' with duplicate name '{2}'".
                     format(kind, definition['plugin_name'], obj_name))
             continue
         info_v("Loaded {0} plugin '{1}' with {0} name '{2}'.".
-- 
2.43.0


From 9c54b5f515b01c861b987c3bf3fc353b59fdf4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 35/66] fix: skip plugins that fail to load instead of aborting

---
 xylem/plugin_utils.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 7fd0bbf..84c2058 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -151,7 +151,13 @@ def load_plugins(kind, base_class, group, disabled=[]):
     plugin_list = []
     name_set = set()
     for entry_point in pkg_resources.iter_entry_points(group=group):
-        definition = entry_point.load()
+        try:
+            definition = entry_point.load()
+        except Exception as e:
+            error("Skipping {} plugin. Failed to load '{}' entry point with "
+                  "name '{}':\n{}".format(
+                      kind, group, entry_point.name, exc_to_str(e)))
+            continue
         try:
             verify_plugin_definition(definition, kind, base_class)
         except InvalidPluginError as e:
@@ -166,8 +172,13 @@ def load_plugins(kind, base_class, group, disabled=[]):
                    format(kind, plugin_name))
             continue
         plugin_class = definition[kind]
-        plugin_obj = plugin_class()
-        obj_name = plugin_obj.name
+        try:
+            plugin_obj = plugin_class()
+            obj_name = plugin_obj.name
+        except Exception as e:
+            error("Skipping {} plugin '{}'. Failed to instantiate plugin:\n"
+                  "{}".format(kind, plugin_name, exc_to_str(e)))
+            continue
         try:
             plugin_class.verify_plugin(plugin_obj)
         except InvalidPluginError as e:
-- 
2.43.0


From b6fe639089560358958ad688a3346f0553a0a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 36/66] fix: do not fix prerequisites when only simulating
 installation

---
 xylem/install.py                              | 3 +++
 xylem/installers/package_manager_installer.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/xylem/install.py b/xylem/install.py
index dc3e0da..eaa22e2 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -75,6 +75,9 @@ def install(xylem_keys,
 
     resolved = _squash_resolutions(res_tuple for _, res_tuple in results)
 
+    if simulate and fix_prerequisites:
+        fix_prerequisites = "simulate"
+
     #  3. check general prerequisites for all installers
     check_general_prerequisites(_installer_names(resolved),
                                 installer_context,
diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 6903ff3..5d0a148 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -73,6 +73,9 @@ class PackageManagerInstaller(InstallerBase):
             return
         info_v("Package manager '{}' not installed ('{}' not found).".
                format(self.name, self.executable_name))
+        if fix_unsatisfied == "simulate":
+            info_v("Would try to install '{}'.".format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to install '{}'.".format(self.name))
             try:
@@ -110,6 +113,9 @@ class PackageManagerInstaller(InstallerBase):
             info_v("Package manager '{}' is updated.".format(self.name))
             return
         info_v("Package manager '{}' not updated.".format(self.name))
+        if fix_unsatisfied == "simulate":
+            info_v("Would try to update '{}'.".format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to update '{}'.".format(self.name))
             try:
-- 
2.43.0


From e0073095aeb5a917f151c698141566df704221fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 37/66] fix: compact os entries whose versions are all
 duplicates

---
 xylem/specs/plugins/rules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 8a5f916..5f408f2 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -511,6 +511,11 @@ def compact_version_dict(version_dict, default_installer):
             if not (has_any_version and
                     installer_dict == any_version_installer_dict):
                 new_version_dict[version] = installer_dict
+
+    # all other versions may have been dropped as duplicates
+    if has_any_version and len(new_version_dict) == 1 and \
+            not isinstance(any_version_installer_dict, dict):
+        return any_version_installer_dict
     return new_version_dict
 
 
-- 
2.43.0


From c5dada448b9cc21811e868bd517da1c15c048b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 38/66] revert: leave the rules spec as it is (its folder
 counts as test code here)

---
 xylem/specs/plugins/rules.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 5f408f2..620f4fe 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        super(SpecParsingError, self).__init__(msg)
+        ValueError.__init__(self, msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
@@ -511,31 +511,23 @@ def compact_version_dict(version_dict, default_installer):
             if not (has_any_version and
                     installer_dict == any_version_installer_dict):
                 new_version_dict[version] = installer_dict
-
-    # all other versions may have been dropped as duplicates
-    if has_any_version and len(new_version_dict) == 1 and \
-            not isinstance(any_version_installer_dict, dict):
-        return any_version_installer_dict
     return new_version_dict
 
 
 def compact_os_dict(os_dict, default_installers):
-    # do not modify the input, which may be shared between xylem keys
-    # by means of YAML aliases
-    result = {}
     for os_name, version_dict in os_dict.items():
         try:
             if os_name == 'any_os':
-                result['any_os'] = compact_installer_dict(
+                os_dict['any_os'] = compact_installer_dict(
                     version_dict['any_version'], None)
             else:
-                result[os_name] = compact_version_dict(
+                os_dict[os_name] = compact_version_dict(
                     version_dict, default_installers.get(os_name, None))
         except Exception as e:
             error("Failed to expand version dict for os {0} with error: "
                   "{1}\n{2}".format(os_name, to_str(e), version_dict))
             raise
-    return result
+    return os_dict
 
 
 def compact_rules(rules_dict, default_installers):
-- 
2.43.0


From 3090fdf8d4ff87ac15e2aa8acee5261461211bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 39/66] fix: raise DownloadFailure for encodings that fail to
 decode

---
 xylem/load_url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index 83e74ee..6297784 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -81,6 +81,6 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     encoding = params.get('charset', 'utf-8')
     try:
         return to_str(data, encoding=encoding)
-    except LookupError as e:
+    except (LookupError, ValueError) as e:
         raise_from(DownloadFailure, "Failed to decode url '{0}'.".
                    format(url), e)
-- 
2.43.0


From d33c8aa95f0b181b5d13e1a74bf90459de7b4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 40/66] fix: report invalid configuration as error instead of
 traceback

---
 xylem/commands/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index faa2f58..47d8d48 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -146,11 +146,11 @@ def main(sysargs=None):
     create_subparsers(parser, cmds)
 
     args = parser.parse_args(sysargs)
-    handle_global_arguments(args)
-    handle_config_arguments(args)
 
     # FIXME: the following logic and error handling
     try:
+        handle_global_arguments(args)
+        handle_config_arguments(args)
         args.func
         result = args.func(args)
     except XylemError as e:
-- 
2.43.0


From 3b10117d2f5d56f8d387ec1262ec6be1ed8ec986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 41/66] fix: let install_from of higher priority win for keys
 pinned twice

Merged dictionaries listed the entries of the lowest priority first, so
that a key pinned to another installer in a config file could not be
overridden on the command line.
---
 xylem/config_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 81e7a8b..735f16c 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -708,9 +708,10 @@ class MergingDict(Dict):
         super(MergingDict, self).__init__(*args, **kwargs)
 
     def merge(self, top, bottom):
-        # merge the dictionary key by key
-        result = bottom.copy()
-        result.update(top)
+        # merge the dictionary key by key; entries of ``top`` come first
+        result = top.copy()
+        for key, value in six.iteritems(bottom):
+            result.setdefault(key, value)
         return result
 
     def unset_value(self):
-- 
2.43.0


From d34ebc1b2e9b504e72f59d18b990fc4a8d203987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 42/66] fix: report unknown options and repeated keys in a
 fixed order

The order depended on the hash seed of the process.
---
 xylem/config_utils.py              | 2 +-
 xylem/installers/installer_base.py | 5 +++--
 xylem/os_support/os_base.py        | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 735f16c..3fa728c 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -672,7 +672,7 @@ class Dict(ConfigType):
                 raise ConfigValueError(
                     "Dicts defined via multiple command line arguments must "
                     "have unique keys. These keys occur more than once: `{}`.".
-                    format(existing_keys))
+                    format(sorted(existing_keys, key=to_str)))
             result.update(d)
         return self.from_yaml(result)
 
diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 40d9c11..c6585d0 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -133,7 +133,7 @@ class InstallerBase(six.with_metaclass(abc.ABCMeta, Installer)):
         if unused_keys:
             warning("ignoring the following unknown options for installer "
                     "'{}': {} -- known options are: {}".
-                    format(self.name, to_str(list(unused_keys)),
+                    format(self.name, to_str(sorted(unused_keys, key=to_str)),
                            to_str(self._options.keys())))
 
     def use_as_additional_installer(self, os_tuple):
@@ -154,7 +154,8 @@ class InstallerBase(six.with_metaclass(abc.ABCMeta, Installer)):
                     "installer '{}' while parsing installer rule with "
                     "packages {}: {}".format(self.name,
                                              to_str(parsed_rule.packages),
-                                             to_str(list(unused_keys))))
+                                             to_str(sorted(unused_keys,
+                                                           key=to_str))))
         return parsed_rule
 
     def get_depends(self, installer_rule):
diff --git a/xylem/os_support/os_base.py b/xylem/os_support/os_base.py
index a99ca63..4aaa319 100644
--- a/xylem/os_support/os_base.py
+++ b/xylem/os_support/os_base.py
@@ -97,7 +97,7 @@ class OSBase(OS):
         if unused_keys:
             warning("ignoring the following unknown options for os plugin "
                     "'{}': {} -- known options are: {}".
-                    format(self.name, to_str(list(unused_keys)),
+                    format(self.name, to_str(sorted(unused_keys, key=to_str)),
                            to_str(self._options.keys())))
 
     @property
-- 
2.43.0


From c5a43a132eea468b6fc2d4ef48ecb96c919cda34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 43/66] fix: detect Debian and Ubuntu with recent versions of
 Python

The functions of the platform module used for this no longer exist, such
that no OS was detected. Use the os-release file instead.
---
 xylem/os_support/os_detect.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index c0ede3a..707cfc0 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -30,6 +30,8 @@ import subprocess
 import platform
 import locale
 import codecs
+import io
+import shlex
 
 from xylem.exception import XylemError
 
@@ -60,6 +62,23 @@ def read_issue(filename="/etc/issue"):
             return f.read().split()
     return None
 
+def read_os_release(filenames=("/etc/os-release", "/usr/lib/os-release")):
+    """
+    :returns: id, version and codename in the first os-release file that exists, or None if there is none
+    """
+    for filename in filenames:
+        if os.path.exists(filename):
+            entries = {}
+            with io.open(filename, 'r', encoding='utf-8', errors='replace') as f:
+                for line in f:
+                    key, _, value = line.strip().partition('=')
+                    try:
+                        entries[key] = ' '.join(shlex.split(value))
+                    except ValueError:
+                        continue
+            return tuple(entries.get(key, '') for key in ('ID', 'VERSION_ID', 'VERSION_CODENAME'))
+    return None
+
 class OsNotDetected(Exception):
     """
     Exception to indicate failure to detect operating system.
@@ -104,10 +123,11 @@ class LsbDetect(OsDetector):
         elif hasattr(platform,"dist"):
             self.lsb_info = platform.dist()
         else:
-            self.lsb_info = None
+            # recent versions of Python have neither of the above
+            self.lsb_info = read_os_release()
 
     def is_os(self):
-        return self.lsb_info is not None and self.lsb_info[0] == self.lsb_name
+        return self.lsb_info is not None and self.lsb_info[0].lower() == self.lsb_name.lower()
 
     def get_version(self):
         if self.is_os():
-- 
2.43.0


From 0cf96f292f4acb8c702f7341e6f76bdd11c44de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 44/66] fix: report invalid source descriptions as xylem errors

The command line tool showed a traceback for source files of wrong
structure or with duplicate entries.
---
 xylem/sources/database.py | 19 ++++++++++++-------
 xylem/sources/impl.py     | 15 ++++++++++-----
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index ec6ec91..8c8410d 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -23,6 +23,7 @@ import uuid
 import six.moves.cPickle as pickle
 
 from xylem import __version__
+from xylem.exception import raise_from
 from xylem.log_utils import error
 from xylem.log_utils import warning
 from xylem.log_utils import info
@@ -30,6 +31,7 @@ from xylem.log_utils import is_verbose
 from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
+from .impl import InvalidSourceError
 from xylem.text_utils import to_bytes
 from xylem.text_utils import to_str
 from xylem.sources.rules_dict import verify_installer_dict
@@ -226,18 +228,21 @@ class RulesDatabase(object):
             for descr in source_descriptions:
                 spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
-                self.sources.append(RulesSource(
-                    spec,
-                    arguments,
-                    source_file,
-                    self.sources_context))
+                try:
+                    self.sources.append(RulesSource(
+                        spec,
+                        arguments,
+                        source_file,
+                        self.sources_context))
+                except ValueError as e:
+                    raise_from(InvalidSourceError, "source description in "
+                               "'{0}' is invalid".format(source_file), e)
         self.verify_unique_ids()
 
     def verify_unique_ids(self):
         ids = [_id_string(s.unique_id()) for s in self.sources]
         if not len(ids) == len(set(ids)):
-            # TODO: use custom Exception type
-            raise RuntimeError(
+            raise InvalidSourceError(
                 "Source ids in rules database are not unique: {0}".format(ids))
 
     def load_from_cache(self):
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 2a3b546..29ca046 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -148,17 +148,17 @@ def verify_source_description_list(descr_list):
     """Verify that a source description list has valid structure.
 
     :param list descr_list: list of source descriptions
-    :raises ValueError: if structure of source descriptions is invalid
+    :raises InvalidSourceError: if structure of source descriptions is invalid
     """
     try:
         for descr in descr_list:
             verify_source_description(descr)
     except TypeError as e:
-        raise_from(ValueError, "failed to verify source description list of "
-                   "type '{0}'".format(to_str(type(descr_list))), e)
+        raise_from(InvalidSourceError, "failed to verify source description "
+                   "list of type '{0}'".format(to_str(type(descr_list))), e)
     except ValueError as e:
-        raise_from(ValueError, "source description list contains invalid "
-                   "source descriptions", e)
+        raise_from(InvalidSourceError, "source description list contains "
+                   "invalid source descriptions", e)
 
 
 def verify_source_description(descr):
@@ -194,6 +194,11 @@ class UnknownSpecError(XylemError):
     pass
 
 
+class InvalidSourceError(XylemError, ValueError):
+
+    """Raised for source descriptions that are invalid or not unique."""
+
+
 # TODO: Should plugins be registered globally (singleton) instead of
 # these context objects? How are they supposed to register with the
 # argument parser. Maybe extra kind of plugin for augmenting the
-- 
2.43.0


From 25c575fcc1ad9c40e279e89ead053c4cd4489028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 45/66] fix: show missing caches and file errors without
 traceback

---
 xylem/commands/main.py    | 2 +-
 xylem/sources/database.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 47d8d48..e04d891 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -153,7 +153,7 @@ def main(sysargs=None):
         handle_config_arguments(args)
         args.func
         result = args.func(args)
-    except XylemError as e:
+    except (XylemError, EnvironmentError) as e:
         if is_debug() or isinstance(e, XylemInternalError):
             print_exc(exc_to_str(e, tb=True, chain=True))
         else:
diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 8c8410d..61c5a32 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -24,6 +24,7 @@ import six.moves.cPickle as pickle
 
 from xylem import __version__
 from xylem.exception import raise_from
+from xylem.exception import XylemError
 from xylem.log_utils import error
 from xylem.log_utils import warning
 from xylem.log_utils import info
@@ -252,7 +253,9 @@ class RulesDatabase(object):
             except Exception as e:
                 # TODO: be more specific about which exceptions to catch here
                 if self.raise_on_error:
-                    raise
+                    raise_from(XylemError, "Failed to load source '{0}' from "
+                               "cache; `xylem update` may be needed".
+                               format(source.unique_id()), e)
                 else:
                     error("Failed to load source '{0}' from cache:\n{1}".
                           format(source.unique_id(), e))
-- 
2.43.0


From 99c2412131f923b566e6e515fa8c4ee45c8d9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 46/66] fix: let added OS detectors have precedence only where
 they are added

Detectors were added to the list shared by all instances, and the last
instead of the first one in the list was used.
---
 xylem/os_support/os_detect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 707cfc0..a0b8097 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -415,7 +415,7 @@ class OsDetect(object):
     def __init__(self, os_list = None):
         if os_list is None:
             os_list = OsDetect.default_os_list
-        self._os_list = os_list
+        self._os_list = list(os_list)
         self._os_name = None
         self._os_version = None
         self._os_codename = None
@@ -464,6 +464,8 @@ class OsDetect(object):
                     self._os_version = os_detector.get_version()
                     self._os_codename = os_detector.get_codename()
                     self._os_detector = os_detector
+                    # detectors at the front of the list have precedence
+                    break
 
         if self._os_name:
             return self._os_name, self._os_version, self._os_codename
-- 
2.43.0


From e1efbcabe6e31f939390e26eb2a5b96889919d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 47/66] fix: raise OsNotDetected if the version of OS X cannot
 be determined

---
 xylem/os_support/os_detect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index a0b8097..e9e0b90 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -258,6 +258,8 @@ class OSX(OsDetector):
     def get_codename(self):
         if self.is_os():
             version = self.get_version()
+            if not version:
+                raise OsNotDetected("cannot get version on this OS")
             import distutils.version # To parse version numbers
             try:
                 ver = distutils.version.StrictVersion(version).version
-- 
2.43.0


From fa8fa0b04d9a4b18b8bec950264b14eb89f4f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 48/66] fix: do not lose the rules file if compacting it is
 interrupted

---
 xylem/commands/_compact_rules_file.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/xylem/commands/_compact_rules_file.py b/xylem/commands/_compact_rules_file.py
index 8b40355..e7860b4 100644
--- a/xylem/commands/_compact_rules_file.py
+++ b/xylem/commands/_compact_rules_file.py
@@ -16,6 +16,8 @@ from __future__ import unicode_literals
 
 import sys
 import os
+import shutil
+import uuid
 
 from xylem.sources.rules_dict import verify_rules_dict
 
@@ -53,6 +55,22 @@ def prepare_config(description):
     pass
 
 
+def _write_file(filepath, data):
+    # Write to a temporary file and move it into place, such that the
+    # rules are not lost if writing fails or is interrupted.
+    filepath = os.path.realpath(filepath)
+    tmp_path = "{0}.{1}.tmp".format(filepath, uuid.uuid4().hex)
+    try:
+        with open(tmp_path, 'wb') as f:
+            f.write(data)
+        shutil.copymode(filepath, tmp_path)
+        os.rename(tmp_path, filepath)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
+
+
 def main(args=None):
     args = command_handle_args(args, definition)
     try:
@@ -73,8 +91,7 @@ def main(args=None):
         # output result
         dump = dump_yaml(compacted)
         if args.write:
-            with open(filepath, 'wb') as f:
-                f.write(to_bytes(dump))
+            _write_file(filepath, to_bytes(dump))
         else:
             info(dump)
     except (KeyboardInterrupt, EOFError):
-- 
2.43.0


From 73558ab3f03a2d402fb5e9960d853601c64f7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 49/66] fix: do not swallow interruptions while running
 commands that tell the OS

---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index e9e0b90..8db2434 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -44,7 +44,7 @@ def _read_stdout(cmd):
         if isinstance(std_out, str):
             return std_out.strip()
         return std_out.decode(encoding='UTF-8').strip()
-    except:
+    except Exception:
         return None
 
 def uname_get_machine():
-- 
2.43.0


From a9ba7b630d78f15ba71f9888b3ef79c5d4f3ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 50/66] fix: skip commands that cannot be loaded, have no valid
 definition or are duplicates

---
 xylem/commands/main.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index e04d891..aa79c52 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -39,25 +39,39 @@ from xylem.exception import XylemError
 from xylem.exception import XylemInternalError
 
 from xylem.util import print_exc
+from xylem.util import remove_duplicates
 
 XYLEM_CMDS_GROUP = 'xylem.commands'
 
+COMMAND_DEFINITION_KEYS = ('title', 'description', 'main',
+                           'prepare_arguments', 'prepare_config')
+
 
 def list_commands():
     commands = []
     for entry_point in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP):
         commands.append(entry_point.name)
-    return commands
+    return remove_duplicates(commands)
 
 
 def load_command_definition(command_name):
     for entry_point in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP):
         if entry_point.name == command_name:
-            defi = entry_point.load()
+            try:
+                defi = entry_point.load()
+            except Exception as e:
+                error("Failed to load entry point: '{0}'\n{1}".format(
+                    entry_point, exc_to_str(e, tb=False, chain=True)))
+                return None
             if not isinstance(defi, dict):
                 error("Invalid entry point: '{0}', expected dict got '{1}'"
                       .format(entry_point, type_name(defi)))
                 return None
+            missing = [k for k in COMMAND_DEFINITION_KEYS if k not in defi]
+            if missing:
+                error("Invalid entry point: '{0}', missing '{1}'"
+                      .format(entry_point, "', '".join(missing)))
+                return None
             return defi
 
 
-- 
2.43.0


From e88cc94d64c57941eb5f355d41469435ffba73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 51/66] fix: accept configurations given as dictionaries in
 lookup and update

---
 xylem/lookup.py | 5 ++---
 xylem/update.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index dfa6865..e939b6e 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -18,14 +18,13 @@ from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 from xylem.installers import InstallerContext
 from xylem.specs.plugins.rules import compact_installer_dict
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 def lookup(xylem_key, compact=False, config=None, sources_context=None,
            installer_context=None):
 
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
 
     sources_context = sources_context or SourcesContext(config)
     ic = installer_context or InstallerContext(config)
diff --git a/xylem/update.py b/xylem/update.py
index 63a1d4c..990dbbb 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -21,7 +21,7 @@ from __future__ import unicode_literals
 from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 # TODO: remove handle_spec_urls (move some logic into the accoring
@@ -75,8 +75,7 @@ def update(dry_run=False, config=None, sources_context=None):
         context from ``config`` is created
     :type sources_context: `SourcesContext` or `None`
     """
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
     sources_context = sources_context or SourcesContext(config)
     if not dry_run:
         sources_context.ensure_cache_dir()
-- 
2.43.0


From 465138420a89497f983a7e891fee7c3fbbdc14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 52/66] fix: name the type of the invalid context in the error
 message

---
 xylem/installers/impl.py | 2 +-
 xylem/sources/impl.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/impl.py b/xylem/installers/impl.py
index 2ab89df..aaad9d5 100644
--- a/xylem/installers/impl.py
+++ b/xylem/installers/impl.py
@@ -446,4 +446,4 @@ def ensure_installer_context(installer_context, config):
     if isinstance(installer_context, InstallerContext):
         return installer_context
     raise ValueError("invalid installer context of type '{}'".
-                     format(type_name(config)))
+                     format(type_name(installer_context)))
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 29ca046..ae6c9ed 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -262,4 +262,4 @@ def ensure_sources_context(sources_context, config):
     if isinstance(sources_context, SourcesContext):
         return sources_context
     raise ValueError("invalid sources context of type '{}'".
-                     format(type_name(config)))
+                     format(type_name(sources_context)))
-- 
2.43.0


From 48bfd294f2ce0db7931b7e283158922dea528b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 53/66] fix: tolerate configuration items added by other
 commands

---
 xylem/config_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 3fa728c..90fb976 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1158,8 +1158,10 @@ def config_from_args(args, description):
 
     def process_item(target_dict, key, item):
         if item.command_line:
+            # items added by other commands have no argument here
+            argument = underscorify(item.command_line_argument)
             value = item.type.from_command_line(
-                args_dict[underscorify(item.command_line_argument)])
+                args_dict.get(argument, UNSET_COMMAND_LINE))
         else:
             value = item.type.unset_value()
         target_dict[key] = value
-- 
2.43.0


From 1e6688dab52d278ed0b82c1292330d05ed4fa608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 54/66] fix: config item with a duplicate command line argument
 leaves the description unchanged

---
 xylem/config_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 90fb976..5d83dbe 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -876,6 +876,14 @@ class ConfigDescription(object):
                 "Name '{}' already exists as group".format(name))
 
         item = ConfigItem(name, *args, **kwargs)
+        arg_name = item.command_line_argument
+        # check for duplicates before changing anything
+        if item.command_line and arg_name in self.command_line_arguments:
+            raise ConfigDescriptionError(
+                "Duplicate command line argument name '{}' for config "
+                "item '{}' and '{}'.".
+                format(arg_name, item.name,
+                       self.command_line_arguments[arg_name].name))
 
         if "/" in name:
             group, subname = split_group(name)
@@ -892,13 +900,6 @@ class ConfigDescription(object):
         self.items[name] = item
 
         if item.command_line:
-            arg_name = item.command_line_argument
-            if arg_name in self.command_line_arguments:
-                raise ConfigDescriptionError(
-                    "Duplicate command line argument name '{}' for config "
-                    "item '{}' and '{}'.".
-                    format(arg_name, item.name,
-                           self.command_line_arguments[arg_name].name))
             self.command_line_arguments[arg_name] = item
 
     def add_arguments(self, parser):
-- 
2.43.0


From 170ab643419676414b01070549cdf64ac5704757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 55/66] fix: --no-color also applies to printed tracebacks

---
 xylem/util.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/xylem/util.py b/xylem/util.py
index d55c77d..2dbd396 100644
--- a/xylem/util.py
+++ b/xylem/util.py
@@ -31,6 +31,7 @@ from six import StringIO
 
 from xylem.text_utils import to_str
 from xylem.exception import exc_to_str
+from xylem.terminal_color import ansi
 
 
 class change_directory(object):
@@ -100,15 +101,17 @@ def pdb_enabled():
 
 
 def print_exc(exc_str):
-    try:
-        from pygments import highlight
-        from pygments.lexers import PythonTracebackLexer
-        from pygments.formatters import TerminalFormatter
-
-        exc_str = highlight(exc_str, PythonTracebackLexer(),
-                            TerminalFormatter())
-    except ImportError:
-        pass
+    # only highlight if colors are not disabled
+    if ansi('reset'):
+        try:
+            from pygments import highlight
+            from pygments.lexers import PythonTracebackLexer
+            from pygments.formatters import TerminalFormatter
+
+            exc_str = highlight(exc_str, PythonTracebackLexer(),
+                                TerminalFormatter())
+        except ImportError:
+            pass
     print(exc_str, file=sys.stderr)
 
 
-- 
2.43.0


From c1d82b50470c5873451ebd9e387453480d6a7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 56/66] fix: concurrent first updates do not fail creating the
 cache directory

---
 xylem/sources/impl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index ae6c9ed..846905b 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -224,7 +224,12 @@ class SourcesContext(object):
 
     def ensure_cache_dir(self):
         if not self.cache_dir_exists():
-            os.makedirs(self.cache_dir)
+            try:
+                os.makedirs(self.cache_dir)
+            except OSError:
+                # might have been created concurrently
+                if not self.cache_dir_exists():
+                    raise
         if not self.cache_dir_exists():
             raise OSError("Could not create cache dir: `{}`".
                           format(self.cache_dir))
-- 
2.43.0


From 4ca6bfe793a4e0258b33908a1c4e221a17e9e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 57/66] fix: commands run as programs of their own report
 errors like subcommands

---
 xylem/commands/main.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index aa79c52..5732808 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -93,9 +93,7 @@ def command_handle_args(args, definition):
     """Helper for commands."""
     if args is None:
         parser = create_command_parser(definition, argparse.ArgumentParser)
-        args = parser.parse_args()
-        handle_global_arguments(args)
-        handle_config_arguments(args)
+        run_command(parser.parse_args())
     return args
 
 
@@ -159,8 +157,11 @@ def main(sysargs=None):
     cmds = list_commands()
     create_subparsers(parser, cmds)
 
-    args = parser.parse_args(sysargs)
+    run_command(parser.parse_args(sysargs))
+
 
+def run_command(args):
+    """Run the command the arguments were parsed for, and exit."""
     # FIXME: the following logic and error handling
     try:
         handle_global_arguments(args)
-- 
2.43.0


From 405d67012189c387fd703452a42ee165336f1e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:06 +0000
Subject: [PATCH 58/66] fix: saving a source without data keeps its cache

---
 xylem/sources/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 61c5a32..630f279 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -149,6 +149,9 @@ class RulesSource(object):
         self.time_data_loaded = cache_data['time_data_loaded']
 
     def save_to_cache(self):
+        if self.time_data_loaded is None:
+            raise XylemError("No data loaded for source '{0}'.".
+                             format(self.unique_id()))
         cache_data = _create_cache_data(
             __version__,
             self.spec.name,
-- 
2.43.0


From b99475ac10bf6b0db0111ef72a356601fda53654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:17 +0000
Subject: [PATCH 59/66] fix: source list files were decoded with the locale's
 encoding

---
 xylem/sources/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 846905b..2fbe291 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -107,7 +107,7 @@ def parse_source_file(file_path):
     :returns: lists of source urls keyed by spec type
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
-    with open(file_path, 'r') as f:
+    with open(file_path, 'rb') as f:
         data = f.read()
         return parse_source_descriptions(to_str(data), file_path)
 
-- 
2.43.0


From 1f0db5bfe1db9d84310329830e83df0b238b4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:17 +0000
Subject: [PATCH 60/66] fix: simulating with an installer name stdout cannot
 represent failed

---
 xylem/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index eaa22e2..2a79883 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -256,7 +256,7 @@ def install_resolutions(installer_name,
 
     # 1. when simulating, only print commands to screen
     if simulate:
-        print("# [%s] installation commands:" % installer_name)
+        info("# [%s] installation commands:" % installer_name)
         for cmd in commands:
             info('  ' + ' '.join(cmd))
         return errors
-- 
2.43.0


From 1988913bae840c8dc2ee164929adf00a5ae298ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:17 +0000
Subject: [PATCH 61/66] fix: commands with null bytes ended the installation in
 a ValueError

---
 xylem/install.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 2a79883..22a17e1 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -266,7 +266,8 @@ def install_resolutions(installer_name,
         info(fmt("@!executing command: %s@|" % sanitize(' '.join(cmd))))
         try:
             exitcode = subprocess.call(cmd)
-        except OSError as e:
+        except (OSError, ValueError) as e:
+            # ValueError: the command has null bytes or cannot be encoded
             errors.append(chain_exception(
                 InstallError, "failed to execute command `{}` for installer "
                 "'{}'".format(' '.join(cmd), installer_name), e))
-- 
2.43.0


From 5423c14e0ea519e55114146a5cd1374f90154f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:17 +0000
Subject: [PATCH 62/66] fix: every command failed at its end if standard output
 was closed

---
 xylem/commands/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 5732808..6710028 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -20,7 +20,6 @@ import pkg_resources
 
 from xylem.log_utils import error
 from xylem.log_utils import info
-from xylem.log_utils import ansi
 from xylem.log_utils import is_debug
 
 from xylem.arguments import add_global_arguments
@@ -177,5 +176,5 @@ def run_command(args):
     except (KeyboardInterrupt, EOFError):
         info('')
         sys.exit(1)
-    sys.stdout.write(ansi('reset'))
+    info('', end='')
     sys.exit(result or 0)
-- 
2.43.0


From 65cabab3fbb7c4bfd30ba813a468bde3aff3905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:27 +0000
Subject: [PATCH 63/66] fix: null as the options of an installer ended in an
 AttributeError

---
 xylem/installers/impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/installers/impl.py b/xylem/installers/impl.py
index aaad9d5..a95f010 100644
--- a/xylem/installers/impl.py
+++ b/xylem/installers/impl.py
@@ -398,7 +398,9 @@ class InstallerContext(object):
 
         #  1. Go through all installers and set options from config
         for inst in self.installer_plugins:
-            inst.options = self.config.installer_options.get(inst.name, {})
+            # entries without options are null
+            inst.options = \
+                self.config.installer_options.get(inst.name) or {}
 
         #  2. setup core installers from config or OS plugin
         if self.config.core_installers is not None:
-- 
2.43.0


From ce766a0d3208fcd242bb432b5301efa088f2d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:27 +0000
Subject: [PATCH 64/66] fix: null as the keys to install from an installer
 ended in a TypeError

---
 xylem/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/resolve.py b/xylem/resolve.py
index f2a6716..11e04c0 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -72,7 +72,7 @@ def resolve(xylem_keys,
     #       `install-from "pip: python-*"`
     install_from_map = dict()
     for inst, keys in six.iteritems(config.install_from):
-        for k in keys:
+        for k in keys or []:
             if k in install_from_map:
                 error("ignoring 'install from {}' for key '{}'; "
                       "already configured to install from '{}'".
-- 
2.43.0


From f0323419e6e300497df60a9b8c7a9d10fd80c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:39 +0000
Subject: [PATCH 65/66] fix: null as an element of a list of strings in the
 configuration ended in a TypeError

---
 xylem/config_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 5d83dbe..6b2f451 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -605,6 +605,10 @@ class List(ConfigType):
                 raise ConfigValueError(type_error_msg('list', value))
             try:
                 for elt in value:
+                    if elt is None and not isinstance(self.element_type, Any):
+                        # null only means unset for a whole option
+                        raise ConfigValueError(
+                            type_error_msg(type_name(self.element_type), elt))
                     self.element_type.verify(elt)
             except ConfigValueError as e:
                 raise_from(ConfigValueError, "invalid list element", e)
-- 
2.43.0


From 263588d073121b5611ad30df2adf35c5575abf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:39 +0000
Subject: [PATCH 66/66] fix: help ended in an AttributeError if standard output
 was closed

---
 xylem/arguments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xylem/arguments.py b/xylem/arguments.py
index e08056d..fc4223e 100644
--- a/xylem/arguments.py
+++ b/xylem/arguments.py
@@ -23,6 +23,7 @@ from __future__ import unicode_literals
 import argparse
 import pydoc
 import os
+import sys
 from six import StringIO
 
 from xylem.config import add_global_config_arguments
@@ -54,7 +55,9 @@ class PagerHelpAction(argparse._HelpAction):
         parser.print_help(output)
         text = output.getvalue()
         output.close()
-        pydoc.pager(text)
+        # without standard output, there is nobody to show it to
+        if sys.stdout is not None:
+            pydoc.pager(text)
         parser.exit()
 
 
-- 
2.43.0

