From f9eec19bb5273de8e25082e77067edc908b83029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 01/10] fix: accept spaces around property identifiers in
 templates

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 82a5c90..4184906 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -61,7 +61,7 @@ class Substitution(object):
     def parse_properties(cls, text):
         properties = []
         for slug in text.split(','):
-            slug.strip()
+            slug = slug.strip()
 
             if not slug:
                 continue
-- 
2.43.0


From 7ae1d46a9c3484ece0f376437ae293815b8b7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 02/10] fix: report whitespace-only substitution ids as wrong
 dependency format

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4184906..359c8b4 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -35,7 +35,7 @@ class Substitution(object):
     def parse(cls, variable, externals):
         slugs = variable[1:-1].split('|')
 
-        if not slugs[0]:
+        if not slugs[0].strip():
             raise exceptions.WrongDependencyFormatError(dependency=variable)
 
         s = cls()
-- 
2.43.0


From 1665b0cbd49fb784eb7564ffe1a8d0363dec65cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 03/10] fix: find dictionary words and variables with percent
 sign in name

---
 utg/templates.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 359c8b4..4458457 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -156,15 +156,12 @@ class Template(object):
 
     def parse(self, text, externals):
 
-        text = text.replace('%', '%%')
-
         variables = _VARIABLE_REGEX.findall(text)
 
-        for i, variable in enumerate(variables):
+        for variable in variables:
             self._substitutions.append(Substitution.parse(variable, externals=externals))
-            text = text.replace(variable, '%s', 1)
 
-        self.template = text
+        self.template = '%s'.join(part.replace('%', '%%') for part in _VARIABLE_REGEX.split(text))
 
     def substitute(self, externals, dictionary):
         substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
-- 
2.43.0


From bc7ed4ac396c47c52af0048649237fa1d85470a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 04/10] fix: do not keep substitutions of previous or failed
 parse in template

---
 utg/templates.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4458457..a2e3e0a 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -158,8 +158,7 @@ class Template(object):
 
         variables = _VARIABLE_REGEX.findall(text)
 
-        for variable in variables:
-            self._substitutions.append(Substitution.parse(variable, externals=externals))
+        self._substitutions = [Substitution.parse(variable, externals=externals) for variable in variables]
 
         self.template = '%s'.join(part.replace('%', '%%') for part in _VARIABLE_REGEX.split(text))
 
-- 
2.43.0


From 3e12976638227d8ca0fc21609282f68988f22253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 05/10] fix: return text instead of bytes from
 Properties.__str__

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 058143c..f71d7cb 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -58,7 +58,7 @@ class Properties(object):
                                   if property.relation in self._data))
 
     def __str__(self):
-        return self.__unicode__().encode('utf-8')
+        return self.__unicode__()
 
     def __eq__(self, other):
         return (isinstance(other, Properties) and
-- 
2.43.0


From 7467cd95b24c1ad00a9892460d58c45f50843da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 06/10] fix: make hash of WordForm consistent with equality

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index f71d7cb..13520d6 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -242,7 +242,7 @@ class WordForm(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((self.word, self.form_properties))
+        return hash((self.word, self.properties))
 
 
 _INVERTED_WORDS_CACHES__PROPERTIES = {}
-- 
2.43.0


From f1a992cad8c0c42e407790cc8d7bd4334f8ba85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 07/10] fix: do not fail on unspecified (empty) forms

---
 utg/transformators.py | 6 +++---
 utg/words.py          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index cde463a..1539c86 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -23,7 +23,7 @@ def _preposition_any(properties, slave_word, master_form):
 
     slave = slave_word.normal_form()
 
-    if slave[-1] in data.CONSONANTS:
+    if slave[-1:] in data.CONSONANTS:
         return _consonant_preposition_any(slave, properties, slave_word, master_form)
 
     return _vowels_preposition_any(slave, properties, slave_word, master_form)
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[0] and
+        slave == master[:1] and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -72,7 +72,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-    if master[0] in data.NOT_J_VOWELS:
+    if master[:1] in data.NOT_J_VOWELS:
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
     # Прелоги участвуют в управлении В.п. или П.п. Для В.п. характерен предлог ОБ: удариться об дерево, об стену,
diff --git a/utg/words.py b/utg/words.py
index 13520d6..238dfa8 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -220,7 +220,7 @@ class WordForm(object):
         form = word._form(properties)
 
         if properties.get(r.WORD_CASE).is_UPPER:
-            form = form[0].upper() + form[1:]
+            form = form[:1].upper() + form[1:]
 
         return form
 
@@ -231,7 +231,7 @@ class WordForm(object):
     @utils.lazy_property
     def starts_with_consonant_cluster(self):
         form = self.form
-        return (form[0] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
+        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
 
 
     def __eq__(self, other):
-- 
2.43.0


From d3b79861e92948aee588815568982ac80204c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 08/10] fix: ignore capitalization of master word when choosing
 preposition form

---
 utg/transformators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index 1539c86..d3ad4b7 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[:1] and
+        slave == master[:1].lower() and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -68,7 +68,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
     # а именно с некоторыми местоимениями: обо мне, обо всех, обо всём (П.п.), обо что (В.п.), но: о тебе, о других, о чём.
     # Это традиционный принцип. Возможно, эти исключения связаны с влиянием беглых гласных, например: меня - обо мне (вместо "об мене"), сравнить: тебя - о тебе.
     if ( slave == 'о' and
-         master in ('всех', 'мне', 'всём', 'что', 'всей')):
+         master.lower() in ('всех', 'мне', 'всём', 'что', 'всей')):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-- 
2.43.0


From 84dca8229b6de780ba7e77de0156724b5ba2e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 09/10] fix: reset cached phonetic properties of word after
 autofill of missed forms

---
 utg/words.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utg/words.py b/utg/words.py
index 238dfa8..3b65a25 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -204,6 +204,9 @@ class Word(object):
 
             self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
 
+        del self.number_of_syllables
+        del self.has_fluent_vowel
+
 
 
 class WordForm(object):
-- 
2.43.0


From c7881333fdbeccdf6e4d42ee89fe0a9fb8c0a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 10/10] fix: keep comparative form of adjectives when reducing
 number of forms

The only comparative form of the reduced layout was filled with the short
plural form (its key has more common unspecified positions), so the stored
comparative forms were lost.
---
 utg/migrations/m_0007_reduce_words_forms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utg/migrations/m_0007_reduce_words_forms.py b/utg/migrations/m_0007_reduce_words_forms.py
index c8075f0..c885586 100644
--- a/utg/migrations/m_0007_reduce_words_forms.py
+++ b/utg/migrations/m_0007_reduce_words_forms.py
@@ -22,7 +22,12 @@ def migrate_forms(word_data, old_cache, new_cache):
 
 
 def get_nearest_old_index(new_key, old_cache):
-    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))
+    # reduced form must be got from one of the forms, that it replaces (None means «any value of property»)
+    replaced_keys = [key
+                     for key in old_cache.keys()
+                     if all(new in (None, old) for new, old in zip(new_key, key))]
+
+    old_key = logic.get_nearest_key(new_key, replaced_keys or list(old_cache.keys()))
     return old_cache[old_key]
 
 
-- 
2.43.0

