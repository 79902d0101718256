From 3a3ff47239db608fe97223c19b879d6f7f143c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 01/54] fix: find the next container of a file by the end of
 the last block, not by a size estimate

Containers whose documents are fragmented, whose table of contents takes several
blocks, or whose blocks have spare capacity were measured wrongly: the containers
that follow were silently skipped, or the file could not be extracted at all.
---
 src/v8unpack/container.py     |  4 ----
 src/v8unpack/container_doc.py | 15 ++++-----------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 23ec4c6..498cc3d 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -164,19 +164,16 @@ class Container:
         :return: словарь файлов в контейнере
         :rtype: OrderedDict
         """
-        size = 0
         # Первый документ после заголовка содержит оглавление
         doc = Document(self)
         doc_data = doc.read(file, self.header_size, self.index_block_size)
         table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in
                              doc_data.split(pack(self.index_fmt, self.end_marker))[:-1]]
-        self.size += self.header_size + doc.full_size
 
         files = collections.OrderedDict()
         for file_description_offset, file_data_offset in table_of_contents:
             doc = Document(self)
             doc_data = doc.read(file, file_description_offset)
-            self.size += doc.full_size
             fmt = ''.join(['QQi', str(doc.data_size - calcsize('QQi')), 's'])
             file_description = unpack(fmt, doc_data)
             # Из описания формата длина имени файла определяется точно, поэтому, теоретически, мусора быть не должно
@@ -186,7 +183,6 @@ class Container:
 
             doc = Document(self)
             file_data = doc.read_chunk(file, file_data_offset, self.default_block_size)
-            self.size += doc.full_size
 
             inner_file = File(name, doc.data_size, self.parse_datetime(file_description[0]),
                               self.parse_datetime(file_description[1]), file_data)
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 1c0b601..369a54c 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -25,7 +25,6 @@ BUFFER_CHUNK_SIZE = 512
 class Document:
     def __init__(self, container):
         self.container = container
-        self.full_size = 0  # include all header size
         self.data_size = 0
 
     def read(self, file, offset, min_block_size=0):
@@ -65,15 +64,6 @@ class Document:
         :return: генератор чтения данных документа
         """
         header_block = self.read_block(file, offset)
-        doc_size = max(header_block.doc_size, min_block_size)
-        if doc_size > header_block.current_block_size:
-            self.full_size = doc_size + math.ceil(
-                header_block.doc_size / header_block.current_block_size) * min_block_size
-            if min_block_size == self.container.index_block_size:
-                self.full_size += self.container.index_block_size
-        else:
-            self.full_size = doc_size + self.container.block_header_size
-
         if header_block is None:
             return
         else:
@@ -83,7 +73,7 @@ class Document:
             left_bytes = header_block.doc_size - len(header_block.data)
             next_block_offset = header_block.next_block_offset
 
-            while left_bytes > 0 and next_block_offset != self.container.end_marker:
+            while next_block_offset != self.container.end_marker:  # в т.ч. пустые блоки в конце цепочки
                 block = self.read_block(file, next_block_offset, left_bytes)
                 left_bytes -= len(block.data)
                 yield block.data
@@ -113,6 +103,9 @@ class Document:
         current_block_size = int(header[3], 16)
         next_block_offset = int(header[5], 16)
 
+        # контейнер заканчивается там, где заканчивается последний из его блоков
+        self.container.size = max(self.container.size, offset + header_size + current_block_size)
+
         if max_data_length is None:
             max_data_length = min(current_block_size, doc_size)
 
-- 
2.43.0


From 19057403366b3fb62a1be2b5e917f1023f24b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 02/54] fix: write block offsets of the second container
 relative to the start of that container

---
 src/v8unpack/container.py     | 2 +-
 src/v8unpack/container_doc.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 498cc3d..59eac0f 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -237,7 +237,7 @@ class Container:
                 doc.write_block(f, doc_size=doc_size, offset=self.header_size)
             else:
                 f.seek(0)
-                next_block_offset = file_size(self.file)
+                next_block_offset = file_size(self.file) - self.offset
                 doc.write_block(io.BytesIO(f.read(self.index_block_size)),
                                 doc_size=doc_size, offset=self.header_size,
                                 min_block_size=self.index_block_size,
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 369a54c..8fd6228 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -136,9 +136,9 @@ class Document:
         :rtype: int
         """
         if offset is not None:
-            self.container.file.seek(offset)
+            self.container.file.seek(self.container.offset + offset)
         else:
-            offset = file_size(self.container.file)
+            offset = file_size(self.container.file) - self.container.offset
         block_size = file_size(data)
         min_block_size = max(min_block_size, block_size)
         if not next_block_offset:
-- 
2.43.0


From a292e368d9683079757fe2a8b796a77fbfe24847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 03/54] fix: add a nested container to its parent before its
 temporary file is closed

---
 src/v8unpack/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 59eac0f..d1fd9c1 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -201,7 +201,7 @@ class Container:
                 with tempfile.TemporaryFile() as tmp2:
                     _container = Container()
                     _container.build(tmp2, file_path, nested=True)
-                self.add_file(tmp2, file_name, inflate=not nested)
+                    self.add_file(tmp2, file_name, inflate=not nested)
             else:
                 with open(file_path, 'rb') as entry_file:
                     self.add_file(entry_file, file_name, inflate=not nested)
-- 
2.43.0


From 568c73f8c68740814435fe529ca1311e2e35ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 04/54] fix: do not wrap quoted strings that happen to decode
 as base64

---
 src/v8unpack/json_container_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index c560d0e..5e67db6 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -333,7 +333,7 @@ class JsonContainerDecoder:
                 else:
                     j = len(elem)
                     is_base64 = False
-                    if j > 64:  # base64 нужно переносить
+                    if j > 64 and not elem.startswith('"'):  # base64 нужно переносить, строки в кавычках - нельзя
                         try:
                             b64decode(elem)
                             is_base64 = True
-- 
2.43.0


From 3ec452b0a454493f3818c3eba02d537b44f277e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 05/54] fix: read parameters that follow wrapped base64 data

---
 src/v8unpack/json_container_decoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index 5e67db6..25204f6 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -228,12 +228,15 @@ class JsonContainerDecoder:
         #     self.current_value = ''
 
     def decode_b64_line(self, line, start_pos):
-        end_pos = line.find('}')
+        end_pos = min((pos for pos in (line.find('}'), line.find(',')) if pos >= 0), default=-1)
         if end_pos >= 0:
             self.current_value += line[start_pos:end_pos]
             if start_pos == 1:  # b64 не зарбит на строки
                 self.current_value = "#" + self.current_value
-            self._end_current_object()
+            if line[end_pos] == ',':  # за данными следует ещё параметр
+                self._end_value()
+            else:
+                self._end_current_object()
             self.decode_object(line[end_pos + 1:])
             return True
         else:
-- 
2.43.0


From dbc92eba6575fcd480230abbdd570ed3bfb2f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 06/54] fix: save an area with a single name next to the file
 that includes it

---
 src/v8unpack/organizer_code.py | 2 +-
 src/v8unpack/organizer_file.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 19f0c2a..ae22d16 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -44,7 +44,7 @@ class OrganizerCode:
                                 #     raise Exception(
                                 #         f'В {path}{file_name} ссылка на один и тот же файл у разных областей {key}')
                                 self.code_areas[_include_path[-1]]['data'] += line
-                                self.code_areas[key] = dict(data='', area_type=area_type)
+                                self.code_areas[key] = dict(data='', area_type=area_type, parent=_include_path[-1])
                                 _include_path.append(key)
                                 _path.append(key)
                             else:
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index db2b2c9..50fa098 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -87,10 +87,12 @@ class OrganizerFile:
                 if elem == 'root':
                     _file['path'], _file['file_name'] = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
+                    # область с одним именем лежит рядом с файлом, в который она вложена, там её ищет сборка
+                    parent_path = code_areas[_file['parent']].get('path', path)
+                    _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
+                        elem, parent_path, file_name, index.get('Области include') if index else None, descent)
                     if _file['area_type'] == 'includr':
                         continue
-                    _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
-                        elem, path, file_name, index.get('Области include') if index else None, descent)
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
                 if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
-- 
2.43.0


From d4865b1837005be47f2975f3350aea3db401581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 07/54] fix: an include area named root no longer replaces the
 module it belongs to

---
 src/v8unpack/organizer_code.py      | 4 ++--
 src/v8unpack/organizer_file.py      | 2 +-
 src/v8unpack/organizer_form_elem.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index ae22d16..372736a 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -21,9 +21,9 @@ class OrganizerCode:
     def unpack(cls, params):
         src_dir, path, file_name, dest_dir, index, descent = params
         self = cls()
-        self.code_areas = {'root': dict(data='')}
+        self.code_areas = {None: dict(data='')}  # None - сам модуль, область может называться и root
         _path = ['']
-        _include_path = ['root']
+        _include_path = [None]
         with open(os.path.join(src_dir, path, file_name), 'r', encoding='utf-8-sig') as file:
             line = file.readline()
             while line:
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 50fa098..d6f54a7 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -84,7 +84,7 @@ class OrganizerFile:
             code_areas = OrganizerCode.unpack(params)
             for elem in code_areas:
                 _file = code_areas[elem]
-                if elem == 'root':
+                if elem is None:
                     _file['path'], _file['file_name'] = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
                     # область с одним именем лежит рядом с файлом, в который она вложена, там её ищет сборка
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 0c2978f..3a16fed 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -17,7 +17,7 @@ class OrganizerFormElem:
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
-        areas['root'] = elements
+        areas[None] = elements  # область может называться и root
         cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
 
     @staticmethod
@@ -111,7 +111,7 @@ class OrganizerFormElem:
     def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
         try:
             for elem in areas:
-                if elem == 'root':
+                if elem is None:
                     dest_entry_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
                     dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
-- 
2.43.0


From 80796e3bb5bd59cd599a01fc7296780bf9ba50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 08/54] fix: version suffixes are matched by whole file names,
 names with other numbers are kept

---
 src/v8unpack/helper.py | 43 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 109a329..6cd1aea 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -361,20 +361,17 @@ def get_near_descent_file_name(path, file_name, descent):
         entities = []
     descents = []
     for entity in entities:
-        if entity.startswith(startswith) and entity.endswith(endswith):
-            _entity = entity.split('.')
-            if entity == file_name:
-                is_without_descent = True
-                continue
-
-            if len(_entity) - 1 != size:
-                continue
-            full_path = os.path.join(path, entity)
-            if os.path.isfile(full_path):
-                try:
-                    descents.append(int(_entity[-2]))
-                except ValueError:  # если во втором разряде не число, значит не наш вариант
-                    pass
+        if entity == file_name:
+            is_without_descent = True
+            continue
+        _entity = entity.split('.')
+        # имя должно совпадать целиком, а не только началом: Форма.json и Форма2.5.json разные файлы
+        if len(_entity) - 1 != size or _entity[:-2] != name[:-1] or _entity[-1] != endswith:
+            continue
+        if not is_descent(_entity[-2]):  # если во втором разряде не число, значит не наш вариант
+            continue
+        if os.path.isfile(os.path.join(path, entity)):
+            descents.append(int(_entity[-2]))
     if not descents:
         if is_without_descent:
             return path, file_name
@@ -387,16 +384,18 @@ def get_near_descent_file_name(path, file_name, descent):
     return path, f'{startswith}.{descents[0]}.{endswith}'
 
 
+def is_descent(value):
+    try:
+        return str(int(value)) == value
+    except ValueError:
+        return False
+
+
 def remove_descent_from_filename(file_name):
     _name = file_name.split('.')
-    try:
-        if len(_name) < 3:
-            return file_name
-        _descent = _name.pop(-2)
-        if str(int(_descent)) == _descent:
-            return '.'.join(_name)
-    except Exception:
-        return file_name
+    if len(_name) >= 3 and is_descent(_name.pop(-2)):
+        return '.'.join(_name)
+    return file_name
 
 
 def makedirs(name, exist_ok=False):
-- 
2.43.0


From 817a4b509b4d340b7e9c6e3197eb9190c1afcd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 09/54] fix: unpacking a version keeps the files of the other
 versions

---
 src/v8unpack/organizer_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index d6f54a7..d42265b 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -17,7 +17,10 @@ class OrganizerFile:
         print(f'{"Организуем код":30}')
         tasks_code_file = []
         tasks_form_elem = []
-        helper.clear_dir(dest_dir)
+        if descent is None:
+            helper.clear_dir(dest_dir)
+        else:
+            helper.makedirs(dest_dir, exist_ok=True)  # файлы других версий должны остаться
         cls._unpack(src_dir, os.path.abspath(dest_dir), '', tasks_code_file, tasks_form_elem, index,
                     descent)
         helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool,
-- 
2.43.0


From 5a38115dc736d04376140698dd7574c564c0c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 10/54] fix: a folder whose name begins with the name of the
 source folder is not inside it

---
 src/v8unpack/helper.py         | 4 ++++
 src/v8unpack/organizer_code.py | 4 ++--
 src/v8unpack/organizer_file.py | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 6cd1aea..06bb353 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -384,6 +384,10 @@ def get_near_descent_file_name(path, file_name, descent):
     return path, f'{startswith}.{descents[0]}.{endswith}'
 
 
+def is_inside(path, folder):
+    return path == folder or path.startswith(os.path.join(folder, ''))
+
+
 def is_descent(value):
     try:
         return str(int(value)) == value
diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 372736a..a6ab520 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -79,7 +79,7 @@ class OrganizerCode:
         try:
             data = ''
             _src_abs_path = os.path.abspath(os.path.join(src_dir, path))
-            if _src_abs_path.startswith(src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
+            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
             with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
@@ -100,7 +100,7 @@ class OrganizerCode:
                             _path, _file_name = cls.parse_include_path(include_path, path, file_name, index_code_areas,
                                                                        descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
-                            if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
+                            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
                                                   pack_get_descent_filename, current_dynamic_directive)
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index d42265b..e853151 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -65,7 +65,7 @@ class OrganizerFile:
             src_full_path = os.path.join(src_path, src_file_name)
 
             # файлы вне папки исходников не версионируются
-            if dest_full_path.startswith(dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
+            if helper.is_inside(dest_full_path, dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
                 descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(src_path, src_file_name,
                                                                                             None,
                                                                                             dest_full_path,
@@ -97,7 +97,7 @@ class OrganizerFile:
                     if _file['area_type'] == 'includr':
                         continue
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
-                if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
+                if helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
                         None, None, _file['data'], _file['dest_path'], _file['file_name'], descent,
                         cls.equal_code_file)
-- 
2.43.0


From 81bbd7ee5635804366c80f3dcd47e691b005be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 11/54] fix: single-name areas are saved next to their file in
 descent mode too

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index a6ab520..6e4c923 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -131,6 +131,6 @@ class OrganizerCode:
         if size_tmp > 1:
             tmp = ['..' if elem == '' else elem for elem in tmp[:-1]]
             _path = os.path.join(_path, *tmp)
-        if _path == '..':
+        if size_tmp == 1:
             _path = path
         return _path, _file_name
-- 
2.43.0


From dafb06abac204b867cc03a04d5a3d5b10555b711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 12/54] fix: a module or form moved by the index is not also
 taken from the sources

---
 src/v8unpack/organizer_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index e853151..1fe0824 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -148,7 +148,9 @@ class OrganizerFile:
             if index:
                 cls._pack_index(src_dir, dest_dir, tasks_code_file, tasks_form_elem, index, index_code_areas, [''],
                                 descent)
-            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent)
+            overridden = {task[4:6] for task in tasks_code_file + tasks_form_elem}
+            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent,
+                      overridden)
             helper.run_in_pool(OrganizerCode.pack, tasks_code_file, pool=pool, title=f'{"Собираем код из файлов":30}')
             helper.run_in_pool(OrganizerFormElem.pack, tasks_form_elem, pool=pool,
                                title=f'{"Собираем элементы форм":30}')
@@ -256,7 +258,8 @@ class OrganizerFile:
         return os.listdir(os.path.join(src_dir, path))
 
     @classmethod
-    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None):
+    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None,
+              overridden=()):
         if path:
             helper.makedirs(os.path.join(dest_dir, path), exist_ok=True)
         entries = cls.list_descent_dir(src_dir, path, descent)
@@ -266,12 +269,13 @@ class OrganizerFile:
 
                 if os.path.isdir(os.path.normcase(src_entry_path)):
                     cls._pack(src_dir, dest_dir, os.path.join(path, entry), tasks_code_file, tasks_form_elem, index,
-                              index_code_areas, descent)
+                              index_code_areas, descent, overridden)
                     continue
                 _src_path = os.path.join(src_dir, path)
                 descent_full_src_path, descent_file_name = cls.pack_get_descent_filename(
                     _src_path, entry, descent)
-                if os.path.isfile(os.path.normcase(os.path.join(dest_dir, path, entry))):
+                if (path, entry) in overridden or os.path.isfile(
+                        os.path.normcase(os.path.join(dest_dir, path, entry))):
                     # если файл уже есть, значит он был переопределен в индексе и делать ничего не надо
                     continue
                 if entry.endswith('.bsl'):
-- 
2.43.0


From bb0921ee789070d1f4854dff6fdf0509a49f8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 13/54] fix: a whole folder of the index is found from the root
 of the repository and leaves alone the files that stay in place

---
 src/v8unpack/organizer_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 1fe0824..f4d9895 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -214,10 +214,13 @@ class OrganizerFile:
                 if entry == 'Области include':
                     continue
                 if not index[entry]:
+                    completed_entry.append(entry)  # остаётся на месте, "*" на него не распространяется
                     continue
                 if entry.startswith("*"):
                     all_path = index[entry]
-                    all_files = os.listdir(all_path)
+                    # путь относительно корня, как и у остальных файлов, а не относительно текущей папки
+                    root_dir = os.path.join(src_dir, '..', '' if descent is None else '..')
+                    all_files = os.listdir(os.path.join(root_dir, all_path))
                     excluded = entry.split('-')[1:]
                     for file_name in all_files:
                         # пропускаем все что были до
@@ -226,7 +229,7 @@ class OrganizerFile:
                         if file_name in excluded:
                             continue
                         file_path = os.path.join(all_path, file_name)
-                        if not os.path.isfile(os.path.normcase(file_path)):
+                        if not os.path.isfile(os.path.normcase(os.path.join(root_dir, file_path))):
                             continue
                         cls._pack_index_elem(file_name, src_dir, dest_dir, tasks_code_file, tasks_form_elem, file_path,
                                              index_code_areas, path, descent)
-- 
2.43.0


From fe61e14a5d59e819f98269a115768944d601fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 14/54] fix: form elements are saved per version like the other
 files of the sources

---
 src/v8unpack/organizer_file.py      |  3 ++-
 src/v8unpack/organizer_form_elem.py | 33 +++++++++++++++++++++--------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index f4d9895..8a134f6 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -43,7 +43,8 @@ class OrganizerFile:
                 if entry.endswith('.bsl'):
                     tasks_code_file.append((src_dir, path, entry, dest_dir, index, descent))
                 elif entry.endswith('.elem.json'):
-                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent))
+                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent,
+                                            cls.unpack_get_descent_filename))
                 else:
                     src_path = os.path.join(src_dir, path)
                     cls.unpack_file(src_path, entry, dest_dir, path, entry, index, descent)
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 3a16fed..53171f7 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -1,3 +1,4 @@
+import json
 import os
 
 from . import helper
@@ -13,12 +14,12 @@ class OrganizerFormElem:
 
     @classmethod
     def unpack(cls, params):
-        src_dir, path, file_name, dest_dir, index, descent = params
+        src_dir, path, file_name, dest_dir, index, descent, unpack_get_descent_filename = params
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
         areas[None] = elements  # область может называться и root
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
+        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename)
 
     @staticmethod
     def is_area(name):
@@ -108,7 +109,11 @@ class OrganizerFormElem:
             raise ExtException(parent=err)
 
     @staticmethod
-    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
+    def equal_file(src_path, src_file_name, src_data, near_descent_path, near_descent_file_name):
+        return helper.txt_read(near_descent_path, near_descent_file_name) == src_data
+
+    @classmethod
+    def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename):
         try:
             for elem in areas:
                 if elem is None:
@@ -116,10 +121,17 @@ class OrganizerFormElem:
                 else:
                     dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
                         elem, path, elem, index.get('Области include') if index else None, descent,
-                        file_extension=file_name[-9::])
+                        file_extension='elem.json')
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
+                data = json.dumps(areas[elem], ensure_ascii=False, indent=2)
+
+                # файлы вне папки исходников не версионируются
+                if helper.is_inside(dest_path, dest_dir):
+                    dest_path, dest_file_name = unpack_get_descent_filename(
+                        None, None, data, dest_path, dest_file_name, descent, cls.equal_file)
 
-                helper.json_write(areas[elem], dest_path, dest_file_name)
+                if dest_file_name:
+                    helper.txt_write(data, dest_path, dest_file_name)
         except Exception as err:
             raise ExtException(
                 parent=err,
@@ -134,7 +146,7 @@ class OrganizerFormElem:
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
             cls._pack_get_areas(src_dir, src_path, src_file_name, elements['tree'], '', elements['data'],
-                                index_code_areas, descent)
+                                index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
                                detail=f'{os.path.join(src_path, src_file_name)}')
@@ -147,7 +159,8 @@ class OrganizerFormElem:
         return elem_class.get_class_form_elem(elem_type)
 
     @classmethod
-    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent):
+    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
+                        pack_get_descent_filename):
         for elem in tree:
             try:
                 name: str = elem['name']
@@ -156,8 +169,10 @@ class OrganizerFormElem:
                 if area_type:
                     area_name = name[8:]
                     _path, _file_name = OrganizerCode.parse_include_path(
-                        area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
+                        area_name, src_path, file_name, index_code_areas, descent, file_extension='elem.json')
                     _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
+                    if helper.is_inside(_src_abs_path, src_dir):
+                        _src_abs_path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
 
                     include_elements = helper.json_read(_src_abs_path, _file_name)
                     cls._append_area_data(include_elements['tree'], name, root_data, include_elements['data'],
@@ -167,7 +182,7 @@ class OrganizerFormElem:
                 child = elem.get('child')
                 if child:
                     cls._pack_get_areas(src_dir, src_path, file_name, child, new_path, root_data, index_code_areas,
-                                        descent)
+                                        descent, pack_get_descent_filename)
             except Exception as err:
                 raise ExtException(parent=err, message='Ошибка сборки области формы', detail=elem['name'])
 
-- 
2.43.0


From dcc81d811e5edb2ff91a92de8fbb0920e691a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 15/54] fix: single-name areas of form elements are saved next
 to the form when the index moves it

---
 src/v8unpack/organizer_form_elem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 53171f7..2ddd458 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -115,12 +115,13 @@ class OrganizerFormElem:
     @classmethod
     def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename):
         try:
+            root_path, root_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
             for elem in areas:
                 if elem is None:
-                    dest_entry_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
+                    dest_entry_path, dest_file_name = root_path, root_file_name
                 else:
                     dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
-                        elem, path, elem, index.get('Области include') if index else None, descent,
+                        elem, root_path, elem, index.get('Области include') if index else None, descent,
                         file_extension='elem.json')
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
                 data = json.dumps(areas[elem], ensure_ascii=False, indent=2)
-- 
2.43.0


From 48a862706a045fda6671d7a5bc90b60b7c578de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 16/54] fix: building a version leaves out the files that only
 later versions have

---
 src/v8unpack/organizer_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 8a134f6..2a6957e 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -276,8 +276,11 @@ class OrganizerFile:
                               index_code_areas, descent, overridden)
                     continue
                 _src_path = os.path.join(src_dir, path)
-                descent_full_src_path, descent_file_name = cls.pack_get_descent_filename(
-                    _src_path, entry, descent)
+                try:
+                    descent_full_src_path, descent_file_name = cls.pack_get_descent_filename(
+                        _src_path, entry, descent)
+                except FileNotFoundError:  # файл есть только у более поздних версий
+                    continue
                 if (path, entry) in overridden or os.path.isfile(
                         os.path.normcase(os.path.join(dest_dir, path, entry))):
                     # если файл уже есть, значит он был переопределен в индексе и делать ничего не надо
-- 
2.43.0


From bb1faffab07c909c742c65c37e39deb0db063125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 17/54] fix: areas without elements, pages of childless panels
 and of includr_ panels are not lost

---
 src/v8unpack/organizer_form_elem.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 2ddd458..84480ae 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -57,7 +57,7 @@ class OrganizerFormElem:
                         data={
                             # new_path: root_data.pop(old_path)
                         },
-                        tree=elem.pop('child', [])
+                        tree=elem.pop('child', None) or []
                     )
                     # в пути детей includr не используется.
                     name: str = f'include_{area_name}'
@@ -88,9 +88,7 @@ class OrganizerFormElem:
                         data[new_path] = root_data.pop(old_path)
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
-                    child = elem.get('child')
-                    if child:
-                        cls._pop_area_data(child, old_path, root_data, data, remove_path)
+                    cls._pop_area_data(elem.get('child'), old_path, root_data, data, remove_path)
 
             pages = root_data.pop(f'{path}/-pages-', None)
             if pages is not None:
@@ -200,16 +198,14 @@ class OrganizerFormElem:
                         root_data[new_path] = data.pop(old_path)
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
-                    child = elem.get('child')
-                    if child:
-                        cls._append_area_data(child, old_path, root_data, data, append_path)
+                    cls._append_area_data(elem.get('child'), old_path, root_data, data, append_path)
 
-            pages = data.pop(f'{path}/-pages-', None)
+            pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
                 new_path = f'{append_path}/{_path}/-pages-' if append_path else f'{_path}/-pages-'
                 root_data[new_path] = pages
                 for name in pages:
-                    old_path = f'{path}/{name}'
+                    old_path = f'{_path}/{name}'
                     new_path = f'{append_path}/{_path}/{name}' if append_path else f'{_path}/{name}'
                     try:
                         root_data[new_path] = data.pop(old_path)
-- 
2.43.0


From 480dfda940266a44c32728e7eca652ca313a33d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 18/54] fix: with auto_include objects of a kind the owner had
 none of were left out of the built product, and removing the last object of a
 kind left the name of the kind in the owner's list

---
 src/v8unpack/MetaDataObject/__init__.py           | 4 ++--
 src/v8unpack/MetaObject/Configuration.py          | 4 ++--
 src/v8unpack/MetaObject/ConfigurationExtension.py | 4 ++--
 src/v8unpack/MetaObject/ExternalDataProcessor.py  | 4 ++--
 src/v8unpack/MetaObject/__init__.py               | 5 +++++
 5 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index d0ef541..f8d1a0d 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -154,8 +154,8 @@ class MetaDataObject(MetaObject):
             self.name = self.header['name']
             self.uuid = data_id['uuid']
             self.obj_version = self.header['obj_version']
-            if include_index:
-                self.fill_header_includes(include_index)  # todo dynamic index
+            if include_index or self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})  # todo dynamic index
             self.encode_object(src_dir, src_file_name, dest_dir)
             self.write_encode_object(dest_dir)
             return dict(
diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index bc88c1f..ce680a1 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -114,8 +114,8 @@ class Configuration(MetaObject):
             except KeyError:
                 pass
 
-        if include_index and self.get_options('auto_include'):
-            self.fill_header_includes(include_index)  # todo dynamic index
+        if self.get_options('auto_include'):
+            self.fill_header_includes(include_index or {})  # todo dynamic index
 
         helper.brace_file_write(self.header["root"], dest_dir, 'root')
         file_list.append('root')
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 0c93808..2d62082 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -84,8 +84,8 @@ class ConfigurationExtension(Configuration):
 
             helper.check_version(__version__, self.header.get('v8unpack', ''))
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             # self.header['copyinfo'][2] = b64encode(bytes.fromhex(self.header['copyinfo'][2]+md5().digest().hex())).decode()
             root = [
diff --git a/src/v8unpack/MetaObject/ExternalDataProcessor.py b/src/v8unpack/MetaObject/ExternalDataProcessor.py
index fa3b75f..b3955d1 100644
--- a/src/v8unpack/MetaObject/ExternalDataProcessor.py
+++ b/src/v8unpack/MetaObject/ExternalDataProcessor.py
@@ -73,8 +73,8 @@ class ExternalDataProcessor(MetaObject):
 
             self.set_product_info(src_dir, file_name)
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             helper.brace_file_write(self.encode_root(), dest_dir, 'root')
             file_list.append('root')
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f7e9ce2..84e778c 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -171,6 +171,11 @@ class MetaObject:
                 internal_data = include_index.get(metadata_type.name)
                 if not internal_data:
                     return
+                if not _count_obj and self.get_options('auto_include'):
+                    # объектов этого типа при разборке не было, они добавлены в исходники
+                    include[i + 3] = [_metadata_type_uuid, str(len(internal_data)),
+                                      *[elem[2] for elem in sorted(internal_data, key=lambda d: d[1])]]
+                    return
                 # данные простых объектов пришли из внешних файлов и нужно поместить из в объект
                 internal_data_uuid = {}
                 for i, elem in enumerate(internal_data):
-- 
2.43.0


From b6e47754f6c2e9a7aa2d1f9c67fa834816bdf72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 19/54] fix: keep modules that are stored encrypted

---
 src/v8unpack/MetaDataObject/Form/FormCore.py |  7 +++++--
 src/v8unpack/MetaObject/__init__.py          | 22 +++++++++-----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 1ed03de..9d0b3d3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -343,8 +343,11 @@ class FormCore(SimpleNameFolder):
             helper.makedirs(_code_dir, exist_ok=True)
             helper.brace_file_write(self.form[0], _code_dir, 'form')
             _encoding = self.header.get('code_encoding_obj', 'utf-8-sig')
-            self.write_raw_code(self.code.get('obj', ''), _code_dir, 'module', encoding=_encoding,
-                                comment_directive=True)
+            if _encoding in self.encrypted_types:
+                helper.bin_write(self.code.get('obj', b''), _code_dir, 'module')
+            else:
+                self.write_raw_code(self.code.get('obj', ''), _code_dir, 'module', encoding=_encoding,
+                                    comment_directive=True)
 
     @classmethod
     def get_last_level_array(cls, data):
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 84e778c..f249ada 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -16,6 +16,7 @@ class MetaObject:
     _obj_info = None
     _obj_name = None
 
+    re_not_text = re.compile('[\x00-\x08\x0e-\x1f]')
     re_meta_data_obj = re.compile('^[^.]+\.json$')
     directive_1c_uncomment = re.compile('(?P<n>\\n)(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)')
     directive_1c_comment = re.compile('(?P<n>\\n)(?P<c>// v8unpack )(?P<d>[#|&])')
@@ -275,6 +276,8 @@ class MetaObject:
             try:
                 encoding = 'windows-1251'
                 code = helper.txt_read(src_dir, file_name, encoding=encoding)
+                if self.re_not_text.search(code):
+                    raise UnicodeDecodeError(encoding, b'', 0, 0, 'not a text')
             except UnicodeDecodeError:
                 encoding = 'bin'
                 code = helper.bin_read(src_dir, file_name)
@@ -301,21 +304,16 @@ class MetaObject:
                 continue
             if os.path.isdir(_obj_code_dir):
                 self.header[f'code_info_{code_name}'] = helper.brace_file_read(_obj_code_dir, 'info')
-                try:
-                    self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
-                                                                        uncomment_directive=uncomment_directive)
-                    self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
-                except FileNotFoundError as err:
-                    # todo могут быть зашифрованные модули тогда файл будет # image.json - зашифрованный контент
-                    not_encrypted = True
+                self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
+                                                                    uncomment_directive=uncomment_directive)
+                if self.code[code_name] is None:
+                    # могут быть зашифрованные модули тогда файл будет # image - зашифрованный контент
                     for encrypted_type in self.encrypted_types:
                         if os.path.isfile(os.path.join(_obj_code_dir, encrypted_type)):
                             self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
-                            self.header[f'code_encoding_{code_name}'] = encrypted_type
-                            not_encrypted = False
+                            encoding = encrypted_type
                             break
-                    if not_encrypted:
-                        raise err from err
+                self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
@@ -363,7 +361,7 @@ class MetaObject:
                 helper.makedirs(_code_dir)
                 helper.brace_file_write(self.header[f'code_info_{code_name}'], _code_dir, 'info')
                 if encoding in self.encrypted_types:
-                    helper.bin_write(self.code[code_name], _code_dir, 'text')
+                    helper.bin_write(self.code[code_name], _code_dir, 'image' if encoding == 'image' else 'text')
                 else:
                     self.write_raw_code(self.code[code_name], _code_dir, 'text', encoding=encoding,
                                         comment_directive=comment_directive)
-- 
2.43.0


From 9fdd7080cd1c1bc347a06493202fd79adadb7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 20/54] fix: source files of modules may start with a byte
 order mark

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 6e4c923..aad744e 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -82,7 +82,7 @@ class OrganizerCode:
             if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
-            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
+            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8-sig') as file:
                 line = file.readline()
                 while line:
                     _line = line.strip()
-- 
2.43.0


From 4eafccdb6420976a004657d1c094dca07eb39a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 21/54] fix: keep the entry of a common picture without a
 picture

---
 src/v8unpack/MetaDataObject/CommonPicture.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/CommonPicture.py b/src/v8unpack/MetaDataObject/CommonPicture.py
index 3f1c8e9..02654b2 100644
--- a/src/v8unpack/MetaDataObject/CommonPicture.py
+++ b/src/v8unpack/MetaDataObject/CommonPicture.py
@@ -33,11 +33,14 @@ class CommonPicture(Simple):
         super().encode_object(src_dir, file_name, dest_dir)
 
         extension = helper.get_extension_from_comment(self.header['comment'])
+        if self.header.get('info') is None:
+            return
         try:
             bin_data = helper.bin_read(src_dir, f'{file_name}.{extension}')
-            self.header['info'][0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
-            file_name = f'{self.header["uuid"]}.0'
-            helper.brace_file_write(self.header['info'], dest_dir, file_name)
-            self.file_list.append(file_name)
         except FileNotFoundError:
-            pass
+            bin_data = None
+        if bin_data:
+            self.header['info'][0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
+        file_name = f'{self.header["uuid"]}.0'
+        helper.brace_file_write(self.header['info'], dest_dir, file_name)
+        self.file_list.append(file_name)
-- 
2.43.0


From 2084316b9765cf30c8252b94154702c5083ae703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 22/54] fix: keep text templates in an unknown encoding

---
 src/v8unpack/MetaDataObject/Template.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Template.py b/src/v8unpack/MetaDataObject/Template.py
index db5bfac..45afdf9 100644
--- a/src/v8unpack/MetaDataObject/Template.py
+++ b/src/v8unpack/MetaDataObject/Template.py
@@ -101,6 +101,9 @@ class Template2(Simple):
             self.data, encoding = helper.txt_read_detect_encoding(src_dir, f'{self.header["uuid"]}.0')
         except FileNotFoundError:
             return
+        except UnicodeDecodeError:  # кодировка неизвестна, сохраняем как есть
+            self.decode_scheme_data(src_dir, dest_dir, write)
+            return
         if write:
             helper.txt_write(self.data, self.new_dest_dir, f'{self.new_dest_file_name}.txt', encoding=encoding)
 
@@ -190,7 +193,8 @@ class Template2(Simple):
             helper.txt_write(raw_data, dest_dir, file_name, encoding=encoding)
             self.file_list.append(file_name)
         except FileNotFoundError:
-            pass
+            if os.path.isfile(os.path.join(src_dir, f'{file_name}.bin')):
+                self.encode_scheme_data(src_dir, file_name, dest_dir)
 
     def encode_extension_data(self, src_dir, file_name, dest_dir):
         self.encode_base64_data(src_dir, file_name, dest_dir)
-- 
2.43.0


From 0eb8213c4ee8eebe27dc7c92996f5f3c55ab6649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 23/54] fix: a comment may not name binary data like the
 description or the code

---
 src/v8unpack/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 06bb353..a7ed72b 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -323,7 +323,7 @@ def get_extension_from_comment(comment: str) -> str:
     res = 'bin'
     if comment:
         ext = comment.split(" ")[-1]
-        if len(ext) < 6 and ext.isalnum():
+        if len(ext) < 6 and ext.isalnum() and ext.lower() not in ('json', 'bsl'):  # заняты описанием объекта и кодом
             return ext
     return res
 
-- 
2.43.0


From 05f84415947f86e9474cb3ac15f51afc640db27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 24/54] fix: the version option is honoured at extraction and
 may be a number

---
 src/v8unpack/MetaObject/Configuration.py          | 8 +++++---
 src/v8unpack/MetaObject/ConfigurationExtension.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index ce680a1..c4f31b6 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -54,11 +54,13 @@ class Configuration(MetaObject):
         self.header['versions'] = helper.brace_file_read(src_dir, 'versions')
         # shutil.copy2(os.path.join(src_dir, 'versions.json'), os.path.join(dest_dir, 'versions.json'))
 
+        if version is None:
+            version = self.get_options('version')
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][26]
         else:
-            self.header['compatibility_version'] = version
-            self.header['header'][0][3][1][1][26] = version
+            self.header['compatibility_version'] = str(version)
+            self.header['header'][0][3][1][1][26] = str(version)
 
 
         self.decode_code(src_dir, uncomment_directive=self.obj_version in ['802', '801'])
@@ -107,7 +109,7 @@ class Configuration(MetaObject):
         # установка режима совместимости
         version = self.get_options('version')
         if version is not None:
-            self.header['header'][0][3][1][1][26] = version
+            self.header['header'][0][3][1][1][26] = str(version)
         else:
             try:
                 self.header['header'][0][3][1][1][26] = self.header['compatibility_version']
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 2d62082..e82259b 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -31,11 +31,13 @@ class ConfigurationExtension(Configuration):
         _form_header = self.get_decode_header(self.header['header'])
         helper.decode_header(self, _form_header, id_in_separate_file=False)
         product_version = self.header['header'][0][3][1][1][15]
+        if version is None:
+            version = self.get_options('version')
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][43]
         else:
-            self.header['compatibility_version'] = version
-            self.header['header'][0][3][1][1][43] = version
+            self.header['compatibility_version'] = str(version)
+            self.header['header'][0][3][1][1][43] = str(version)
 
         self.decode_code(src_dir)
 
@@ -67,7 +69,7 @@ class ConfigurationExtension(Configuration):
             # установка режима совместимости
             version = self.get_options('version')
             if version is not None:
-                self.header['header'][0][3][1][1][43] = version
+                self.header['header'][0][3][1][1][43] = str(version)
             else:
                 try:
                     self.header['header'][0][3][1][1][43] = self.header['compatibility_version']
-- 
2.43.0


From 00bc9529110104dd06cecc0b824cb42cf0acfac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 25/54] fix: do not write into the options of the caller

---
 src/v8unpack/v8unpack.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 4bd1cc6..71dadb2 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -20,8 +20,7 @@ from .version import __version__
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = dict()
+        options = dict(options or {})
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
@@ -73,8 +72,7 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = {}
+        options = dict(options or {})
 
         print(f"saby v8unpack {__version__}")
 
-- 
2.43.0


From dbb44777a96372cc393a4aae9f6ec744873ac656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 26/54] fix: do not name the product twice in the version of an
 extension

---
 src/v8unpack/MetaObject/Configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index c4f31b6..ed4d088 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -82,7 +82,7 @@ class Configuration(MetaObject):
     def set_product_version(self, product_version):
         _version = product_version
         product = self.options.get('product')
-        if product:
+        if product and not product_version.startswith(f'{product}_'):
             _version = f'{product}_{_version}'
         self.header['header'][0][3][1][1][15] = helper.str_encode(_version)
 
-- 
2.43.0


From 0aea521b77584e113483850c266862725fbf6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 27/54] fix: take the prefix away only from names the build
 gives it to

---
 src/v8unpack/MetaDataObject/__init__.py | 1 +
 src/v8unpack/MetaObject/__init__.py     | 1 +
 src/v8unpack/helper.py                  | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index f8d1a0d..9e1051c 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -51,6 +51,7 @@ class MetaDataObject(MetaObject):
             header_data = cls.brace_file_read(src_dir, file_name)
             self = cls.get_handler(header_data, options)
             self.parent_container_uuid = parent_container_uuid
+            self.top_level = os.sep not in dest_path
             # self = cls()
             # if parent_type:
             #     self.title = parent_type
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f249ada..0c0b0df 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -28,6 +28,7 @@ class MetaObject:
         self.name = None
         self.container_uuid = None
         self.parent_container_uuid = None
+        self.top_level = False  # объект верхнего уровня разбираемой конфигурации
         self.code = {}
         self.file_list = []
         self.obj_version = obj_version
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index a7ed72b..f10b3e8 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -122,7 +122,8 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
 
     prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
-    if prefix and obj['name'].startswith(prefix):
+    # как и при сборке, префикс есть только у собственных объектов верхнего уровня
+    if prefix and meta_obj.top_level and (len(header) < 6 or header[5] == '0') and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
         header[2] = str_encode(obj['name'])
     obj['name2'] = {}
-- 
2.43.0


From 26bf7cc084578adf964a6d765a7c3727195ac7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 28/54] fix: partly read form leaves nothing of it in the
 elements file

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 9d0b3d3..5ccb3a0 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -195,6 +195,9 @@ class FormCore(SimpleNameFolder):
                 form_element_decoder(self).decode(src_dir, dest_dir, dest_path, self.form[0][0])
             except Exception as err:
                 self.form = json.loads(backup)
+                # форма сохраняется как есть, в файле элементов не должно остаться разобранной части
+                self.props, self.params, self.commands = [], [], []
+                self.elements_tree, self.elements_data = [], {}
                 pass  # todo если какие то елементы формы не разбираются, не прерываем
                 # raise ExtException(parent=err, message='Ошибка при разборе формы')
 
-- 
2.43.0


From 21b8de107d5f85caf4ca6fab8205cf7b0c69b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 29/54] fix: elements, attributes and commands added to a form
 that had none are built

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py   | 2 +-
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 9506912..1745794 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -286,7 +286,7 @@ class _FormRoot:
         raw_data = raw_data[cls.index]
         result = []
         index_element_count = 1
-        if raw_data[index_element_count] == 'Дочерние элементы отдельно':
+        if raw_data[index_element_count] in ('Дочерние элементы отдельно', '0'):
             items = getattr(form.form, cls.name)  # helper.json_read(src_dir, f'{file_name}.{cls.name}{version}.json')
             if items:
                 for item in items:
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
index 10c8b9c..4df669a 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
@@ -128,7 +128,7 @@ class FormElements4:
             #     self.command_panels = helper.json_read(src_dir, f'{file_name}.panels{version}.json')
 
             index_root_element_count = index[0]
-            if root_data[index_root_element_count] == 'Дочерние элементы отдельно':
+            if root_data[index_root_element_count] in ('Дочерние элементы отдельно', '0'):
                 # root_data[index_root_element_count] = str(len(self.elements_tree))
                 FormElement.encode_list(self, self.form.elements_tree, root_data, index_root_element_count)
         except Exception as err:
-- 
2.43.0


From ef15743563c4eb2958c541af26986da301c4e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 30/54] fix: emptied form, groups and tables of a form are
 built without the placeholder text

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 4 ++++
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py       | 2 --
 src/v8unpack/MetaDataObject/Form/FormElements4/Table.py       | 2 --
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 1745794..5f49732 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -152,6 +152,10 @@ class FormElement:
     def encode_list(cls, form, items, raw_data, index_element_count, path=''):
         try:
             result = []
+            if not items:
+                if raw_data[index_element_count] == 'Дочерние элементы отдельно':
+                    raw_data[index_element_count] = '0'  # все дочерние элементы убраны
+                return result
             for item in items:
                 try:
                     metadata_type = FormItemTypes[item['type']]
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 33b38d2..d5f0d3a 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -37,8 +37,6 @@ class Group(FormElement):
             except KeyError:
                 child = []
             raw_data = super().encode(form, path, data)
-            if not child:
-                return raw_data
             index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
             name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
             new_path = f"{path}/{name_for_child}" if path else name_for_child
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
index 739930d..fb77ad2 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
@@ -46,8 +46,6 @@ class Table(FormElement):
             except KeyError:
                 child = []
             raw_data = super().encode(form, path, data)
-            if not child:
-                return raw_data
             cls.encode_columns(form, child, raw_data, data, f"{path}")
             return raw_data
         except Exception as err:
-- 
2.43.0


From 1d961c84c5e9944bb5b45b56b4f857469e660080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 31/54] fix: attribute of a form with all its columns removed
 is built without the placeholder text

---
 .../MetaDataObject/Form/FormElements4/FormElement.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 5f49732..41ea98f 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -359,7 +359,10 @@ class FormProps(_FormRoot):
         if pattern and len(pattern) > 1 and pattern[1][0] == '"#"' and \
                 pattern[1][1] == 'Родитель' and form.form.parent_container_uuid:
             pattern[1][1] = form.form.parent_container_uuid
-        if data.get('child'):
+        if not data.get('child'):
+            if raw_data[cls.child_offset] == 'отдельно':
+                raw_data[cls.child_offset] = '0'  # все колонки убраны
+        else:
             child_count = len(data['child'])
             raw_data[cls.child_offset] = str(child_count)
             childs = []
-- 
2.43.0


From b27d0f8d7ce7eae0c1b3ffd26334252bb3063a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 32/54] fix: attribute of the owner's type on a form without an
 owner's type is told, not built as text

---
 .../MetaDataObject/Form/FormElements4/FormElement.py      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 41ea98f..ae80c00 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -357,7 +357,13 @@ class FormProps(_FormRoot):
         raw_data = data['raw']
         pattern = raw_data[5]
         if pattern and len(pattern) > 1 and pattern[1][0] == '"#"' and \
-                pattern[1][1] == 'Родитель' and form.form.parent_container_uuid:
+                pattern[1][1] == 'Родитель':
+            if not form.form.parent_container_uuid:
+                raise ExtException(
+                    message='Нет типа владельца формы',
+                    detail=f'{data["name"]} на форме {form.form.name}',
+                    action=f'{cls.__name__} FormElement.encode'
+                )
             pattern[1][1] = form.form.parent_container_uuid
         if not data.get('child'):
             if raw_data[cls.child_offset] == 'отдельно':
-- 
2.43.0


From 1632071b04eb9b008b543825b2f37b0c5335ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 33/54] fix: name of an addition item of a form with settings
 of visibility is read from its place

---
 src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
index d9376f1..15c93b3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
@@ -5,4 +5,4 @@ from v8unpack.helper import calc_offset
 class ItemAddition(FormElement):
     @classmethod
     def get_name_node_offset(cls, raw_data):
-        return calc_offset([(3, 1), (3, 0)], raw_data)
+        return calc_offset([(3, 1), (1, 1), (2, 0)], raw_data)
-- 
2.43.0


From d75600b4a8d041205f3f5dd9b8d19af4a291b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:41 +0000
Subject: [PATCH 34/54] fix: an empty index file does not make extract and
 build do nothing

---
 src/v8unpack/v8unpack.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 71dadb2..f0d16a0 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -24,8 +24,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
@@ -77,8 +75,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
-- 
2.43.0


From bbb10b654e7a3c92ef1d7acd463eaea65c04533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:41 +0000
Subject: [PATCH 35/54] fix: sources are kept when the file to extract is
 missing or damaged

---
 src/v8unpack/v8unpack.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index f0d16a0..92b2fc1 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -29,8 +29,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
 
         descent = options.get('descent') if options else None
 
-        if descent is None:
-            helper.clear_dir(os.path.normpath(out_dir_name))
         clear_temp_dir = False
         if temp_dir is None:
             clear_temp_dir = True
-- 
2.43.0


From 23d76d774849be2081bdfd567e2ce856b536d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 36/54] fix: the temporary folder is removed and the pool
 closed also when extract or build fails

---
 src/v8unpack/v8unpack.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 92b2fc1..696aea4 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -18,6 +18,8 @@ from .version import __version__
 
 
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
+    clear_temp_dir = False
+    pool = None
     try:
         begin0 = datetime.now()
         options = dict(options or {})
@@ -29,7 +31,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
 
         descent = options.get('descent') if options else None
 
-        clear_temp_dir = False
         if temp_dir is None:
             clear_temp_dir = True
             temp_dir = tempfile.mkdtemp()
@@ -56,16 +57,19 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
 
         end = datetime.now()
         print(f'{"Готово":30}: {end - begin0}')
-
-        helper.close_pool(pool)
-        if clear_temp_dir:
-            shutil.rmtree(temp_dir, ignore_errors=True)
     except Exception as err:
         raise ExtException(parent=err) from None
+    finally:
+        if pool is not None:
+            helper.close_pool(pool)
+        if clear_temp_dir:
+            shutil.rmtree(temp_dir, ignore_errors=True)
 
 
 def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
+    clear_temp_dir = False
+    pool = None
     try:
         begin0 = datetime.now()
         options = dict(options or {})
@@ -76,7 +80,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
 
         print(f"Начали")
 
-        clear_temp_dir = False
         if temp_dir is None:
             clear_temp_dir = True
             temp_dir = tempfile.mkdtemp()
@@ -102,15 +105,16 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         compress_and_build(dir_stage1, dir_stage0, pool=pool)
         container_build(dir_stage0, out_file_name, True)
 
-        helper.close_pool(pool)
-        if clear_temp_dir:
-            shutil.rmtree(temp_dir, ignore_errors=True)
-
         end = datetime.now()
         print(f'{"Готово":30}: {end - begin0}')
 
     except Exception as err:
         raise ExtException(parent=err) from None
+    finally:
+        if pool is not None:
+            helper.close_pool(pool)
+        if clear_temp_dir:
+            shutil.rmtree(temp_dir, ignore_errors=True)
 
 
 def build_all(product_file_name: str, product_code: str = None, processes=None):
-- 
2.43.0


From ecdf4f010549bdbc6d05a1bfc876b707ec0d1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 37/54] fix: --descent 0 is not dropped

---
 src/v8unpack/v8unpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 696aea4..7bd8f14 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -251,7 +251,7 @@ def main():
     options_name = ['prefix', 'auto_include', 'descent', 'version']
     for elem in options_name:
         value = getattr(args, elem, None)
-        if value:
+        if value is not None:
             options[elem] = value
 
     try:
-- 
2.43.0


From ade28b25d27cbad9d7243159639358eb0aa49b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 38/54] fix: --processes of the command line is not ignored

---
 src/v8unpack/v8unpack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 7bd8f14..0c3ed82 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -257,20 +257,20 @@ def main():
     try:
         if args.E is not None:
             extract(os.path.abspath(args.E[0]), os.path.abspath(args.E[1]),
-                    index=args.index, temp_dir=args.temp, options=options)
+                    index=args.index, temp_dir=args.temp, options=options, processes=args.processes)
             return
 
         if args.B is not None:
             build(os.path.abspath(args.B[0]), os.path.abspath(args.B[1]),
-                  index=args.index, temp_dir=args.temp, options=options)
+                  index=args.index, temp_dir=args.temp, options=options, processes=args.processes)
             return
 
         if args.BA is not None:
-            build_all(args.BA[0], args.index)
+            build_all(args.BA[0], args.index, processes=args.processes)
             return
 
         if args.EA is not None:
-            extract_all(args.EA[0], args.index)
+            extract_all(args.EA[0], args.index, processes=args.processes)
             return
 
         if args.I is not None:
-- 
2.43.0


From c388950f6f25c828b273fd765079da4218a8e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 39/54] fix: build into a file of the current folder told by
 its bare name

---
 src/v8unpack/container_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container_writer.py b/src/v8unpack/container_writer.py
index 7a70aa2..d66aa37 100644
--- a/src/v8unpack/container_writer.py
+++ b/src/v8unpack/container_writer.py
@@ -30,7 +30,7 @@ def build(src_dir, filename, nested=False):
     """
     begin = datetime.now()
     print(f'{"Запаковываем бинарник":30}:', end="")
-    helper.makedirs(os.path.dirname(filename), exist_ok=True)
+    helper.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
 
     containers = os.listdir(src_dir)
     _src_dir = containers[-1]
-- 
2.43.0


From 7a1a98f4716fbc21e5f907106a82d9489950e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:41 +0000
Subject: [PATCH 40/54] fix: entries of an index after "*" are exceptions of it
 in building, as in extraction

---
 src/v8unpack/organizer_file.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 2a6957e..7690778 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -209,14 +209,12 @@ class OrganizerFile:
     def _pack_index(cls, src_dir: str, dest_dir: str, tasks_code_file: list, tasks_form_elem, index: dict,
                     index_code_areas: dict, path: list,
                     descent=None):
-        completed_entry = []
         for entry in index:
             try:
                 if entry == 'Области include':
                     continue
                 if not index[entry]:
-                    completed_entry.append(entry)  # остаётся на месте, "*" на него не распространяется
-                    continue
+                    continue  # остаётся на месте, "*" на него не распространяется
                 if entry.startswith("*"):
                     all_path = index[entry]
                     # путь относительно корня, как и у остальных файлов, а не относительно текущей папки
@@ -224,8 +222,8 @@ class OrganizerFile:
                     all_files = os.listdir(os.path.join(root_dir, all_path))
                     excluded = entry.split('-')[1:]
                     for file_name in all_files:
-                        # пропускаем все что были до
-                        if file_name in completed_entry:
+                        # пропускаем все указанные явно, как и при разборке
+                        if file_name in index:
                             continue
                         if file_name in excluded:
                             continue
@@ -243,7 +241,6 @@ class OrganizerFile:
                     path.pop()
                     pass
                 elif isinstance(index[entry], str):
-                    completed_entry.append(entry)
                     cls._pack_index_elem(entry, src_dir, dest_dir, tasks_code_file, tasks_form_elem, index[entry],
                                          index_code_areas, path, descent)
                 else:
-- 
2.43.0


From 10790688332a073e207723f6dd7376c334170118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:41 +0000
Subject: [PATCH 41/54] fix: update_index can be called without a core folder,
 as documented

---
 src/v8unpack/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/index.py b/src/v8unpack/index.py
index dde9dda..6ae467f 100644
--- a/src/v8unpack/index.py
+++ b/src/v8unpack/index.py
@@ -26,7 +26,7 @@ def get_from_index(index: dict, path: str, file_name: str):
         )
 
 
-def update_index(src_dir: str, index_file_name: str, dest_dir: str):
+def update_index(src_dir: str, index_file_name: str, dest_dir: str = None):
     def _update_index(_src_dir, _index, _dest_dir, _path):
         entries = os.listdir(os.path.join(_src_dir, _path))
         for entry in entries:
-- 
2.43.0


From a8f5d874a1524134e4e3bc12156e2042b63520ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 42/54] fix: a file such as Role.0.c1brace is not taken for a
 file with a descent number

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index f10b3e8..1ea8977 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -391,7 +391,8 @@ def is_inside(path, folder):
 
 def is_descent(value):
     try:
-        return str(int(value)) == value
+        # 0 это часть имени (Role.0.c1brace): файлы без descent номера не получают
+        return int(value) > 0 and str(int(value)) == value
     except ValueError:
         return False
 
-- 
2.43.0


From 77322c3f1184a512466573624dd1b4d8a78309ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:51 +0000
Subject: [PATCH 43/54] fix: the container with the product is the last one, in
 whatever order the file system lists the folders

---
 src/v8unpack/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 445971c..bd7ab3f 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -196,7 +196,7 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
 
 
 def decode(src_dir, dest_dir, *, pool=None, options=None):
-    containers = os.listdir(src_dir)
+    containers = sorted(os.listdir(src_dir))  # порядок в списке зависит от файловой системы
     containers_count = len(containers)
     if containers_count not in [1, 2]:
         raise NotImplementedError(f'Количество контейнеров {containers_count}')
-- 
2.43.0


From 0419ab3c9498997fd486fdb4af49413b360e50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 44/54] fix: dummy.zip is the same for the same product,
 whenever it is extracted

---
 src/v8unpack/decoder.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index bd7ab3f..e1d69d3 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -1,5 +1,6 @@
 import os
 import shutil
+import zipfile
 from datetime import datetime
 
 from . import helper
@@ -204,4 +205,21 @@ def decode(src_dir, dest_dir, *, pool=None, options=None):
     _src_dir = os.path.join(src_dir, containers[-1])
     Decoder.decode(_src_dir, dest_dir, pool=pool, options=options)
     if containers_count == 2:
-        shutil.make_archive(os.path.join(dest_dir, 'dummy'), 'zip', os.path.join(src_dir, '0'))
+        pack_dummy(os.path.join(src_dir, '0'), os.path.join(dest_dir, 'dummy.zip'))
+
+
+def pack_dummy(src_dir, file_name):
+    # без времени файлов, иначе архив меняется при каждой разборке того же самого
+    with zipfile.ZipFile(file_name, 'w', zipfile.ZIP_DEFLATED) as archive:
+        for path, dirs, files in os.walk(src_dir):
+            dirs.sort()
+            for name in sorted(dirs + files):
+                full_name = os.path.join(path, name)
+                info = zipfile.ZipInfo(os.path.relpath(full_name, src_dir).replace(os.sep, '/'))
+                data = b''
+                if os.path.isdir(full_name):
+                    info.filename += '/'
+                else:
+                    with open(full_name, 'rb') as f:
+                        data = f.read()
+                archive.writestr(info, data, zipfile.ZIP_DEFLATED)
-- 
2.43.0


From 213fddfebb93376437ac8162c7c0a40a860d4417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 45/54] fix: elements of an includr_ page of an ordinary form
 are filed under include_, as everywhere else

Extraction failed: the elements of an area are looked for under the name with include_.
---
 src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index f1da6e9..7e28bf4 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -46,7 +46,8 @@ class Panel(FormElement):
             page_id = self.calc_id(path, page_name, None)
             elem_tree = dict(name=elem_data['name'], type=elem_data['type'])
             if self.auto_include:
-                elem_id = self.calc_id(path, page_name, name)
+                # в пути детей includr не используется.
+                elem_id = self.calc_id(path, page_name and page_name.replace('includr_', 'include_'), name)
                 parent = self.elements_tree[self._elements_tree_index[page_id]]
                 parent['child'].append(elem_tree)
             else:
@@ -440,7 +441,7 @@ class Panel(FormElement):
             result = []
             if self.auto_include:
                 for i, page in enumerate(self.elements_tree):
-                    page_id = '/'.join(_id + [page['name']])
+                    page_id = '/'.join(_id + [page['name'].replace('includr_', 'include_')])
                     if page['child']:
                         for elem in page['child']:
                             key = f"{page_id}/{elem['name']}"
-- 
2.43.0


From 5e018db0fa90dea3deff051c1934e7ce863ef570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 46/54] fix: an element of an ordinary form is built into the
 page under which it is

Its page was told by the number the page had in the form it was extracted from: in another form (a page that is an
area) or after pages were moved, added or removed, elements turned up on other pages.
---
 src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index 7e28bf4..f300f69 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -446,6 +446,7 @@ class Panel(FormElement):
                         for elem in page['child']:
                             key = f"{page_id}/{elem['name']}"
                             self.encode_element(page_id, elem, key, result)
+                            result[-1][-3][-5] = str(i)  # номер страницы в этой форме
                 self.anchored_elem_name_to_elem_id(result, path)
             else:
                 for elem in self.elements_tree:
-- 
2.43.0


From 938e66d16bc7f1f8b1dc4fddc6ada745b4316d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 47/54] fix: attributes added to an ordinary form that had none
 are built

They were dropped without a word.
---
 src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
index c65415c..ee6ff9b 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
@@ -176,7 +176,7 @@ class FormProps:
         try:
             result = []
             index_element_count = 0
-            if raw_data[index_element_count] == 'Дочерние элементы отдельно':
+            if raw_data[index_element_count] in ('Дочерние элементы отдельно', '0'):
                 if form.props:
                     for prop in form.props:
                         result.append(cls.encode(form, path, prop))
-- 
2.43.0


From 5ef6172f067d10056a91e97925888f522a0703d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:25 +0000
Subject: [PATCH 48/54] fix: a page of an ordinary form that is an area fits
 panels at any depth

Its elements referred to each other with a leading slash when the page was on a nested panel and without when it was on
the form itself, so a form that has the page on the other level could not be built.
---
 .../MetaDataObject/Form/FormElements27/Panel.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index f300f69..1752c27 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -182,9 +182,9 @@ class Panel(FormElement):
                     if int(elem_id) > 0:
                         try:
                             elem_raw_data[offset][j][1] = self.elements_index[elem_id][
-                                                          len(path):]  # нужно имя относительно панели
+                                                          len(path):].lstrip('/')  # нужно имя относительно панели
                         except KeyError:  # если такого индекса нет, то это сам элемент - но это не точно
-                            elem_raw_data[offset][j][1] = current_elem[len(path):]
+                            elem_raw_data[offset][j][1] = current_elem[len(path):].lstrip('/')
                 offset += 1
             # кто привязан к этому элементу
             for anchor_border in range(4):
@@ -195,7 +195,7 @@ class Panel(FormElement):
                     elem_id = anchor_data[1]
                     if int(elem_id) > 0:
                         try:
-                            elem_name = self.elements_index[elem_id][len(path):]
+                            elem_name = self.elements_index[elem_id][len(path):].lstrip('/')
                             anchor_data[1] = elem_name
                         except KeyError:
                             pass  # ошибка, привязан элемент с другой страницы - в интерфейсе такой возможности нет
@@ -492,7 +492,7 @@ class Panel(FormElement):
                             continue
                         else:
                             elem_raw_data[offset][j][1] = self.elements_index[
-                                _path + anchor_name]  # нужно имя относительно панели
+                                self.calc_id(_path, anchor_name.lstrip('/'))]  # нужно имя относительно панели
                     offset += 1
 
                 for anchor_border in range(4):
@@ -502,7 +502,7 @@ class Panel(FormElement):
                         anchor_data = elem_raw_data[offset]
                         anchor_name = anchor_data[1]
                         if not anchor_name_is_num(anchor_name):
-                            anchor_data[1] = self.elements_index[_path + anchor_name]
+                            anchor_data[1] = self.elements_index[self.calc_id(_path, anchor_name.lstrip('/'))]
                     # elem_raw_data[offset] = '0'
                     # del elem_raw_data[offset + 1: offset + 1 + count_anchor]
                     offset += 1
-- 
2.43.0


From 9e4f61833021f2a8affef0d22bd0b5f540822d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:14 +0000
Subject: [PATCH 49/54] fix: an ordinary form whose elements are not known is
 built as it was

---
 .../MetaDataObject/Form/FormElements27/FormElements27.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 5bff79c..f365b6c 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -102,6 +102,8 @@ class FormElements27:
             # if raw_data[index_element_count] == 'Дочерние элементы отдельно':
             # elements = helper.json_read(src_dir, f'{file_name}.elements802.json')
             elements = helper.json_read(src_dir, f'{file_name}.elem.json')
+            if not elements['data']:  # элементы не разобраны, форма сохранена как есть
+                return raw_data
             self.form.props = elements['props']
             self.form.elements_data = elements['data']
             self.form.elements_tree = elements['tree']
-- 
2.43.0


From ad13a98f5b872731827decbb3fd55a669480be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:26 +0000
Subject: [PATCH 50/54] fix: an area that several modules or forms have is the
 same whatever the order in which they are taken apart

---
 src/v8unpack/organizer_file.py      | 29 ++++++++++++++++++++++++-----
 src/v8unpack/organizer_form_elem.py | 12 ++++++++++--
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 7690778..1ee2eac 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -23,10 +23,12 @@ class OrganizerFile:
             helper.makedirs(dest_dir, exist_ok=True)  # файлы других версий должны остаться
         cls._unpack(src_dir, os.path.abspath(dest_dir), '', tasks_code_file, tasks_form_elem, index,
                     descent)
-        helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool,
-                           title=f'{"Раскладываем код по файлам":30}')
-        helper.run_in_pool(OrganizerFormElem.unpack, tasks_form_elem, pool=pool,
-                           title=f'{"Раскладываем элементы форм":30}')
+        areas = helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool, need_result=True,
+                                   title=f'{"Раскладываем код по файлам":30}')
+        cls.write_areas(areas, descent, cls.equal_code_file)
+        areas = helper.run_in_pool(OrganizerFormElem.unpack, tasks_form_elem, pool=pool, need_result=True,
+                                   title=f'{"Раскладываем элементы форм":30}')
+        cls.write_areas(areas, descent, OrganizerFormElem.equal_file)
         print(f'{"Организуем код - готово":30}: {datetime.now() - begin}')
 
     @classmethod
@@ -84,6 +86,7 @@ class OrganizerFile:
     @classmethod
     def unpack_code_file(cls, params):
         src_dir, path, file_name, dest_dir, index, descent = params
+        areas = []
         try:
             code_areas = OrganizerCode.unpack(params)
             for elem in code_areas:
@@ -98,7 +101,12 @@ class OrganizerFile:
                     if _file['area_type'] == 'includr':
                         continue
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
-                if helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
+                is_descent = helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0
+                if elem is not None:
+                    areas.append((os.path.join(path, file_name), len(areas), _file['dest_path'], _file['file_name'],
+                                  _file['data'], is_descent))
+                    continue
+                if is_descent:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
                         None, None, _file['data'], _file['dest_path'], _file['file_name'], descent,
                         cls.equal_code_file)
@@ -107,6 +115,7 @@ class OrganizerFile:
 
                 if descent_file_name:
                     helper.txt_write(_file['data'], descent_full_dest_path, descent_file_name)
+            return areas
         except Exception as err:
             raise ExtException(
                 parent=err,
@@ -114,6 +123,16 @@ class OrganizerFile:
                 action='unpack_code_file'
             )
 
+    @classmethod
+    def write_areas(cls, areas, descent, equal_method):
+        # область бывает в нескольких модулях (формах), останется из последнего по порядку имен, а не по времени разбора
+        for _, _, dest_path, file_name, data, is_descent in sorted(areas):
+            if is_descent:
+                dest_path, file_name = cls.unpack_get_descent_filename(
+                    None, None, data, dest_path, file_name, descent, equal_method)
+            if file_name:
+                helper.txt_write(data, dest_path, file_name)
+
     @classmethod
     def equal_binary_file(cls, src_path, src_file_name, src_data, near_descent_path, near_descent_file_name):
         with open(os.path.join(near_descent_path, near_descent_file_name), 'rb') as near_file:
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 84480ae..55ec240 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -19,7 +19,8 @@ class OrganizerFormElem:
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
         areas[None] = elements  # область может называться и root
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename)
+        return cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas,
+                                       unpack_get_descent_filename)
 
     @staticmethod
     def is_area(name):
@@ -112,6 +113,7 @@ class OrganizerFormElem:
 
     @classmethod
     def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename):
+        result = []
         try:
             root_path, root_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
             for elem in areas:
@@ -125,12 +127,18 @@ class OrganizerFormElem:
                 data = json.dumps(areas[elem], ensure_ascii=False, indent=2)
 
                 # файлы вне папки исходников не версионируются
-                if helper.is_inside(dest_path, dest_dir):
+                is_descent = helper.is_inside(dest_path, dest_dir)
+                if elem is not None:
+                    result.append((os.path.join(path, file_name), len(result), dest_path, dest_file_name, data,
+                                   is_descent))
+                    continue
+                if is_descent:
                     dest_path, dest_file_name = unpack_get_descent_filename(
                         None, None, data, dest_path, dest_file_name, descent, cls.equal_file)
 
                 if dest_file_name:
                     helper.txt_write(data, dest_path, dest_file_name)
+            return result
         except Exception as err:
             raise ExtException(
                 parent=err,
-- 
2.43.0


From 0bcd879078c803380aeb00052bf4032df15700f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 51/54] fix: a managed form whose layout is not known is built
 as it was

---
 .../MetaDataObject/Form/FormElements4/FormElements4.py      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
index 4df669a..c549a03 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
@@ -106,6 +106,12 @@ class FormElements4:
                 raise ExtException(message='Форма разобрана старым сборщиком (<0.16), разберите её новым сборщиком',
                                    action='Form9of.encode_elements')
 
+            if not any(elements.values()):
+                try:
+                    self.get_form_elem_index(raw_data)
+                except ExtException:
+                    return  # форма не разбирается, сохранена как есть
+
             self.form.commands = FormCommands.encode_list(self, src_dir, file_name, None, raw_data)
             self.form.props = FormProps.encode_list(self, src_dir, file_name, None, raw_data)
 
-- 
2.43.0


From c5f032cc5f652e1294e7399d221227e22a24e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:20 +0000
Subject: [PATCH 52/54] fix: indentation before a dynamic directive does not
 cut it, code before the comment is not lost

---
 src/v8unpack/organizer_code.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index aad744e..39087ce 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -17,6 +17,10 @@ class OrganizerCode:
             return area_type[9:-1]
         return None
 
+    @staticmethod
+    def get_indent(line):
+        return line[:len(line) - len(line.lstrip())]
+
     @classmethod
     def unpack(cls, params):
         src_dir, path, file_name, dest_dir, index, descent = params
@@ -31,8 +35,8 @@ class OrganizerCode:
                     _line = line.strip()
                     dynamic_directive_index = line.rfind(' //DynamicDirective')
                     if dynamic_directive_index >= 0:
-                        if line.find('&') >= 0:
-                            line = line[dynamic_directive_index + 1:]
+                        if _line.startswith('&'):
+                            line = cls.get_indent(line) + line[dynamic_directive_index + 1:]
                     if _line and _line[0] == '#':
                         if _line.startswith('#Область'):
                             area_type = cls.is_area(_line)
@@ -88,7 +92,7 @@ class OrganizerCode:
                     _line = line.strip()
                     if _line:
                         if _line.startswith('//DynamicDirective') and dynamic_directive:
-                            line = f'{dynamic_directive} {line}'
+                            line = f'{cls.get_indent(line)}{dynamic_directive} {line.lstrip()}'
                     data += line
                     if _line and _line[0] == '#':
                         if cls.is_area(_line):
-- 
2.43.0


From 411e40954b9aad319848f399a97064f713129c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:52 +0000
Subject: [PATCH 53/54] fix: a picture or help put where there was none ({}) is
 written as base64

---
 src/v8unpack/MetaDataObject/CommonPicture.py | 3 +--
 src/v8unpack/MetaObject/Configuration.py     | 3 +--
 src/v8unpack/MetaObject/__init__.py          | 7 ++++++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/CommonPicture.py b/src/v8unpack/MetaDataObject/CommonPicture.py
index 02654b2..db67971 100644
--- a/src/v8unpack/MetaDataObject/CommonPicture.py
+++ b/src/v8unpack/MetaDataObject/CommonPicture.py
@@ -1,5 +1,4 @@
 import os
-from base64 import b64decode, b64encode
 
 from .. import helper
 from ..MetaDataObject.core.Simple import Simple
@@ -40,7 +39,7 @@ class CommonPicture(Simple):
         except FileNotFoundError:
             bin_data = None
         if bin_data:
-            self.header['info'][0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
+            self._insert_b64_data(self.header['info'][0][2][0], bin_data)
         file_name = f'{self.header["uuid"]}.0'
         helper.brace_file_write(self.header['info'], dest_dir, file_name)
         self.file_list.append(file_name)
diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index ed4d088..2be1d04 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -1,5 +1,4 @@
 import os
-from base64 import b64encode
 
 from .. import helper
 from ..MetaObject import MetaObject
@@ -165,7 +164,7 @@ class Configuration(MetaObject):
                     bin_data = None
                 header = self.header.get(f'image_{elem}')
                 if header and len(header[0]) > 1 and bin_data:
-                    header[0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
+                    self._insert_b64_data(header[0][2][0], bin_data)
                 if header:
                     file_name = f'{self.header["uuid"]}.{self._images[elem]}'
                     helper.brace_file_write(header, dest_dir, file_name)
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 0c0b0df..8d473b5 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -427,6 +427,11 @@ class MetaObject:
             raise NotImplementedError('decode_html_data')
         return bin_data
 
+    @staticmethod
+    def _insert_b64_data(raw_data, bin_data):
+        # данных могло не быть совсем: {}
+        raw_data[0] = (raw_data[0] or '#base64:') + b64encode(bin_data).decode(encoding='utf-8')
+
     def _encode_html_data(self, src_dir, file_name, dest_dir, *, header_field='html', file_number=0, extension='html'):
         dest_file_name = f'{self.header["uuid"]}.{file_number}'
         try:
@@ -443,7 +448,7 @@ class MetaObject:
                 bin_data = None
         header = self.header.get(header_field)
         if header and len(header[0]) > 2 and bin_data:
-            header[0][3][0] += b64encode(bin_data).decode(encoding='utf-8')
+            self._insert_b64_data(header[0][3], bin_data)
         if header:
             self.file_list.append(dest_file_name)
             helper.brace_file_write(header, dest_dir, dest_file_name)
-- 
2.43.0


From 05463c18e55f5dd94c892ed0bab5faf3dcd4a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:23 +0000
Subject: [PATCH 54/54] fix: a form with no content of its own gets no empty
 entry, and keeps its help

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 5ccb3a0..f7ed76a 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -77,6 +77,8 @@ class FormCore(SimpleNameFolder):
             else:
                 self.decode_form0_from_file(_code_dir, file_name)
                 pass
+        else:
+            self.form.append([])
 
     def decode_form1(self, src_dir):
         try:
@@ -303,7 +305,7 @@ class FormCore(SimpleNameFolder):
             else:
                 helper.brace_file_write(self.encode_header(), dest_dir, self.header["uuid"])
                 self.file_list.append(self.header["uuid"])
-                if self.form:
+                if self.form and self.form[0]:
                     file_name = f'{self.header["uuid"]}.0'
                     helper.brace_file_write(self.form[0], dest_dir, file_name)
                     self.file_list.append(file_name)
-- 
2.43.0

