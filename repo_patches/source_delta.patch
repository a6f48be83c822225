From 8de58d70cef11736b23045fdd65a0d413f46f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 01/55] fix: count received, not requested, bytes when reading
 a Content-Length body

---
 ombott/request_pkg/body_mixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3f8b890..ed3347f 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -26,7 +26,7 @@ def _iter_body(read, buff_size, *, content_length):
         if not part:
             break
         yield part
-        rest_len -= part_size
+        rest_len -= len(part)
 
 
 def _iter_chunked(read, buff_size):
@@ -86,7 +86,8 @@ def _body_read(
         else partial(_iter_body, content_length=content_length)
     )
     body, body_size, is_temp_file = BytesIO(), 0, False
-    for part in body_iter(read, buff_size):
+    # a zero threshold means `everything goes to disk`, not `read nothing`
+    for part in body_iter(read, max(buff_size, 1)):
         body.write(part)
         if markup is not None:
             markup.parse(part)
-- 
2.43.0


From 6387d936f3900563cd63e9c6d71b9f276978d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 02/55] fix: count received bytes and allow short reads when
 decoding chunked bodies

---
 ombott/request_pkg/body_mixin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index ed3347f..6a56034 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -73,8 +73,11 @@ def _iter_chunked(read, buff_size):
             if not part:
                 raise parsing_err
             yield part
-            rest_len -= part_size
-        if read(2) != rn:
+            rest_len -= len(part)
+        end = read(2)
+        if len(end) == 1:  # short read
+            end += read(1)
+        if end != rn:
             raise parsing_err
 
 
-- 
2.43.0


From db9b2d9d78237bb3dccf63183be93782844578d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 03/55] fix: don't limit the chunk size line by a tiny read
 buffer

---
 ombott/request_pkg/body_mixin.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 6a56034..f8ee310 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -17,6 +17,9 @@ from .errors import RequestError, BodyParsingError, BodySizeError
 
 MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
 
+# chunk size line (with extensions) of this length is always accepted
+MIN_CHUNK_LINE_LIMIT = 4096
+
 
 def _iter_body(read, buff_size, *, content_length):
     rest_len = content_length
@@ -33,6 +36,8 @@ def _iter_chunked(read, buff_size):
     r, n, rn, sem = b'\r', b'\n', b'\r\n', b';'
     header_size_buff = []
     parsing_err = BodyParsingError()
+    # a legal size line may be longer than a (small) read buffer
+    max_line_len = max(buff_size, MIN_CHUNK_LINE_LIMIT)
     while True:
 
         # read header to get chunk size
@@ -43,7 +48,7 @@ def _iter_chunked(read, buff_size):
         while True:   # header[-2:] != rn:
             c = read(1)
             read_len += 1
-            if not c or read_len > buff_size:
+            if not c or read_len > max_line_len:
                 raise parsing_err
             # catch `\r\n`
             if seen_r and c == n:
-- 
2.43.0


From dbbe1bdb124248c19f1eb923e0ec15f50f5a677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 04/55] fix: accept the closing delimiter split between its two
 final hyphens

---
 ombott/request_pkg/multipart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 29b6f4e..2a9c5d3 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -90,13 +90,13 @@ class HeadersEaeter:
         return pos
 
     def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
         if chunk_start == HYPHEN:
             self.stopped = True
             return base + 1
-        raise UnexpectedBodyEndError(f'Last hyphen was expected, got (first 2 symbols slice): {chunk_start}')
+        raise UnexpectedBodyEndError(f'Last hyphen was expected, got: {chunk_start}')
 
     def _eat_lf(self, chunk: bytes, base: int) -> Optional[int]:
         chunk_start = chunk[base: base + 1]
-- 
2.43.0


From f79bcb4567da0dd9bcd8d8f87e7d4b38a8784611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 05/55] fix: ignore a multipart epilogue that arrives in a
 later chunk

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 2a9c5d3..56ca3e1 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -186,7 +186,7 @@ class BodyMarkuper:
 
     def iter_markup(self, chunk: bytes) -> Iterable[Tuple[str, Tuple[int, int]]]:
         if self.stopped:
-            raise StopMarkupException()
+            return  # epilogue
         cur_meth = self.cur_meth
         abs_start_section = self.abs_start_section
         start_next_sec = 0
-- 
2.43.0


From 16e4c86190c4886476aed76556c1ef5fe3e5d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 06/55] fix: find the end of multipart headers wherever a chunk
 boundary falls

---
 ombott/request_pkg/multipart.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 56ca3e1..4bd4b99 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -60,7 +60,7 @@ CRLFx2 = CRLF * 2
 CRLFx2_LEN = len(CRLFx2)
 
 
-end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)$')
+end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)\Z')
 
 
 class HeadersEaeter:
@@ -126,29 +126,14 @@ class HeadersEaeter:
 
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
+        shift = 0
         if expected is not None:
-            expected_len = len(expected)
-            chunk_start = chunk[base:expected_len]
-            if chunk_start == expected:
-                self.headers_end_expected = None
-                return base + expected_len - CRLFx2_LEN
-            chunk_start_len = len(chunk_start)
-            if not chunk_start_len:
-                return
-            if chunk_start_len < expected_len:
-                if expected.startswith(chunk_start):
-                    self.headers_end_expected = expected[chunk_start_len:]
-                    return
-                self.headers_end_expected = None
-
-            if expected == LF:  # we saw CRLFCR
-                invalid_sequence = CR + chunk_start[0:1]
-                # NOTE we don not catch all CRLF-malformed errors, but only obvious ones
-                # to stop doing useless work
-                raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
-            else:
-                assert expected_len >= 2  # (CR)LFCRLF or (CRLF)CRLF
-                self.headers_end_expected = None
+            # resume the search from the head of CRLFCRLF that ended the previous chunk
+            seen = CRLFx2[:-len(expected)]
+            shift = base - len(seen)
+            chunk = seen + chunk[base:]
+            base = 0
+            self.headers_end_expected = None
 
         assert self.headers_end_expected is None
 
@@ -158,7 +143,7 @@ class HeadersEaeter:
 
         end_found = s.start(1)
         if end_found >= 0:
-            return end_found
+            return end_found + shift
 
         end_head = s.group(2)
         if end_head is not None:
-- 
2.43.0


From 238cd27c74fe0b38ff2c14871935aa03b07d13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 07/55] fix: check the start of a multipart body on its first
 chunk only

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 4bd4b99..81c3563 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -220,7 +220,7 @@ class BodyMarkuper:
         self.abs_start_section = abs_start_section
 
     def _eat_start_boundary(self, chunk: bytes, base: int):
-        if self.trest is None:
+        if not self.abspos:  # the very first chunk
             chunk_start = chunk[base: base + 1]
             if not chunk_start:
                 return
-- 
2.43.0


From 3dafc092468423937f614f15fdb1b296ea4c38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 08/55] fix: report junk after a multipart delimiter wherever a
 chunk boundary falls

---
 ombott/request_pkg/multipart.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 81c3563..49c16dd 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -115,14 +115,16 @@ class HeadersEaeter:
         if chunk_start == CRLF:
             return base + 2
 
-        if len(chunk_start) == 1:
-            self.eat_meth = self._meth_map.get(chunk_start)
-        elif chunk_start == HYPHENx2:
+        if chunk_start == HYPHENx2:
             self.stopped = True
             return base + 2
 
-        if self.eat_meth is None:
-            raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
+        # one symbol only or something invalid
+        eat_meth = self._meth_map.get(chunk_start[:1])
+        if eat_meth is None:
+            raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start[:1]}')
+        self.eat_meth = eat_meth
+        return eat_meth(chunk, base + 1)
 
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
-- 
2.43.0


From 9c82c625ec8c611337203957f1edd01232201224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 09/55] fix: ignore Content-Length when loading a chunked form
 or JSON body

---
 ombott/request_pkg/body_mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index f8ee310..0fe5eb0 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -277,7 +277,8 @@ class BodyMixin:
         self._body.seek(0)
         read = self._body.read
         max_content_length = self.config.max_memfile_size
-        content_length = self.content_length
+        # chunked encoding overrides Content-Length
+        content_length = -1 if self.chunked else self.content_length
 
         if content_length > max_content_length:
             raise self._raise(BodySizeError(), RequestError)
-- 
2.43.0


From d2d971c1bf75bc1292a9f01dd6bc73bb82e691c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 10/55] fix: answer an undecodable JSON body with a client
 error, let JSON that is no object have no form fields

---
 ombott/request_pkg/body_mixin.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 0fe5eb0..9907f42 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -167,7 +167,11 @@ class BodyMixin:
             b = self._get_body_string()
             if not b:
                 return None
-            return json_mod.loads(b)
+            try:
+                return json_mod.loads(b)
+            except (ValueError, RecursionError):
+                err = RequestError('Invalid JSON')
+            self._raise(err, RequestError)
         return None
 
     @cache_in('environ[ ombott.request.post ]', read_only=True)
@@ -186,7 +190,9 @@ class BodyMixin:
         ctype = self.content_type
         if not ctype.startswith('multipart/'):
             if ctype.startswith('application/json'):
-                post.update(self.json)
+                data = self.json
+                if isinstance(data, dict):
+                    post.update(data)
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
-- 
2.43.0


From 76169f0db77d75f4ed7bc28da6b5c6b9dbf6f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 11/55] fix: answer an invalid Content-Length with a client
 error

---
 ombott/request_pkg/body_mixin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 9907f42..1a81d01 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -118,7 +118,11 @@ class BodyMixin:
         ''' The request body length as an integer. The client is responsible to
             set this header. Otherwise, the real length of the body is unknown
             and -1 is returned. In this case, :attr:`body` will be empty. '''
-        return int(self.environ.get('CONTENT_LENGTH') or -1)
+        try:
+            return int(self.environ.get('CONTENT_LENGTH') or -1)
+        except ValueError:
+            err = RequestError('Invalid Content-Length')
+        self._raise(err, RequestError)
 
     @cache_in('environ[ ombott.request.content_type ]', read_only=True)
     def content_type(self):
-- 
2.43.0


From 1b2d5a5c5308d9c08e329f778501fa40532de0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 12/55] fix: answer malformed multipart bodies with a client
 error and present no part of them

---
 ombott/request_pkg/body_mixin.py | 25 ++++++++++++++++---------
 ombott/request_pkg/multipart.py  | 26 +++++++++++++++++++-------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 1a81d01..2adc37e 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -186,7 +186,7 @@ class BodyMixin:
 
         """
         env = self.environ
-        files = env['ombott.request.files'] = self._forms_factory()
+        files = self._forms_factory()
         post = self._forms_factory()
 
         # We default to application/x-www-form-urlencoded for everything that
@@ -203,20 +203,24 @@ class BodyMixin:
                     setitem=post.__setitem__
                 )
             env['ombott.request.forms'] = post
+            env['ombott.request.files'] = files
             return post
 
-        forms = env['ombott.request.forms'] = self._forms_factory()
+        forms = self._forms_factory()
 
         body = self.body
         markup: MultipartMarkup = body.ombott_markup
         if markup is None:
-            # should never happen since we check content-type
-            # when reading body
-            raise BodyParsingError()
+            # no boundary in content-type
+            self._raise(BodyParsingError(), RequestError)
         elif markup.error is not None:
-            raise markup.error
+            self._raise(markup.error, RequestError)
         listified = set()
-        for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
+        try:
+            items = list(FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size))
+        except RequestError as err:
+            self._raise(err, RequestError)
+        for item in items:
             if item.filename:
                 it = FileUpload(
                     item.file, item.name,
@@ -236,6 +240,9 @@ class BodyMixin:
                 el.append(it)
             else:
                 post[key] = dct[key] = it
+        # nothing is presented until the whole form is known to be valid
+        env['ombott.request.forms'] = forms
+        env['ombott.request.files'] = files
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
@@ -261,9 +268,9 @@ class BodyMixin:
     def _body(self):
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
-        if mp is not None:
-            markup = MultipartMarkup(mp.group(1))
         try:
+            if mp is not None:
+                markup = MultipartMarkup(mp.group(1))
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 49c16dd..05bdaab 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -314,8 +314,10 @@ class MultipartMarkup:
             return
         try:
             self._parse(chunk)
-        except Exception as exc:
+        except BodyParsingError as exc:
             self.error = exc
+        except Exception as exc:
+            self.error = BodyParsingError(f'Malformed multipart/formdata: {exc!r}')
 
     def _parse(self, chunk: bytes):
         for name, start_end in self._markuper.iter_markup(chunk):
@@ -418,18 +420,18 @@ class FieldStorage:
         if has_read > max_read:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
-        headers_raw = src.read(sz).decode()
+        headers_raw = self._decode(src.read(sz))
         for header_raw in headers_raw.splitlines():
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             if header.name == 'Content-Disposition':
-                self.name = header.options['name']
+                self.name = header.options.get('name')
                 self.filename = header.options.get('filename')
             elif header.name == 'Content-Type':
                 self.ctype = header.value
 
         if self.name is None:
-            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {header_raw}')
+            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {headers_raw}')
 
         if self.filename is not None:
             self.file = BytesIOProxy(src, *data_section)
@@ -441,16 +443,26 @@ class FieldStorage:
                 if has_read > max_read:
                     raise BodySizeError('Max in-memory read limit exceed')
                 src.seek(start)
-                self.value = src.read(sz).decode()
+                self.value = self._decode(src.read(sz))
             else:
                 self.value = ''
         return has_read
 
+    @staticmethod
+    def _decode(raw: bytes) -> str:
+        try:
+            return raw.decode()
+        except UnicodeDecodeError as exc:
+            raise BodyParsingError(f'Malformed multipart/formdata: {exc}')
+
     @classmethod
     def parse_header(cls, s: str):
-        htype, rest = s.split(':', 1)
+        htype, colon, rest = s.partition(':')
+        if not colon:
+            raise BodyParsingError(f'Malformed multipart/formdata header: {s}')
         opt_iter = cls._patt.finditer(rest)
-        hvalue = next(opt_iter).group(1).strip()
+        hvalue = next(opt_iter, None)
+        hvalue = hvalue.group(1).strip() if hvalue else ''
         dct = {}
         for it in opt_iter:
             k = it.group(1).strip()
-- 
2.43.0


From 8a1aef44b6d3121e471fc8868ec563eb2afc9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 13/55] fix: parse quoted multipart header parameters as a
 whole, header names in any case, split headers at line breaks only

---
 ombott/request_pkg/multipart.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 05bdaab..16936a4 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -389,11 +389,13 @@ class Header(SimpleNamespace):
     name: str
     value: str
     options: Dict[str, str]
+    raw: str
 
 
 class FieldStorage:
 
-    _patt = re.compile('(.+?)(=(.+?))?(;|$)')
+    _patt = re.compile(r';\s*([^=;\s]+)\s*(?:=\s*("[^"]*"|[^;]*))?')
+    _eol_patt = re.compile(r'\r\n|\r|\n')
 
     name: str
     value: Optional[str]
@@ -421,7 +423,7 @@ class FieldStorage:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
         headers_raw = self._decode(src.read(sz))
-        for header_raw in headers_raw.splitlines():
+        for header_raw in self._eol_patt.split(headers_raw):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             if header.name == 'Content-Disposition':
@@ -458,19 +460,20 @@ class FieldStorage:
     @classmethod
     def parse_header(cls, s: str):
         htype, colon, rest = s.partition(':')
-        if not colon:
+        htype = htype.strip().title()  # header names are case-insensitive
+        if not colon or not htype:
             raise BodyParsingError(f'Malformed multipart/formdata header: {s}')
-        opt_iter = cls._patt.finditer(rest)
-        hvalue = next(opt_iter, None)
-        hvalue = hvalue.group(1).strip() if hvalue else ''
+        hvalue, sem, options = rest.partition(';')
         dct = {}
-        for it in opt_iter:
-            k = it.group(1).strip()
-            v = it.group(3)
+        for it in cls._patt.finditer(sem + options):
+            k, v = it.groups()
             if v is not None:
-                v = v.strip('"')
+                if len(v) > 1 and v[0] == v[-1] == '"':
+                    v = v[1:-1]
+                else:
+                    v = v.strip()
             dct[k.lower()] = v
-        return Header(name=htype, value=hvalue, options=dct)
+        return Header(name=htype, value=hvalue.strip(), options=dct, raw=rest.strip())
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From 18fe481b5f21ed39a9ad5751fd21f0465759882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 14/55] fix: treat a multipart part with an empty filename as
 the upload it is

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 2adc37e..621d441 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -221,7 +221,7 @@ class BodyMixin:
         except RequestError as err:
             self._raise(err, RequestError)
         for item in items:
-            if item.filename:
+            if item.file is not None:
                 it = FileUpload(
                     item.file, item.name,
                     item.filename, item.headers
-- 
2.43.0


From 896144f4ab7d25cfd7df94b6ec94a3ce3698aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 15/55] fix: give an upload its headers as text, so that
 content_type is the content type

---
 ombott/request_pkg/body_mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 621d441..933086d 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -224,7 +224,8 @@ class BodyMixin:
             if item.file is not None:
                 it = FileUpload(
                     item.file, item.name,
-                    item.filename, item.headers
+                    item.filename,
+                    {name: header.raw for name, header in item.headers.items()}
                 )
                 dct = files
             else:
-- 
2.43.0


From 983478425e613f8f42dd06fcb3ee01e215275d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 16/55] fix: collect repeated multipart names separately for
 text fields and uploads

---
 ombott/request_pkg/body_mixin.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 933086d..6c4c282 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -216,6 +216,16 @@ class BodyMixin:
         elif markup.error is not None:
             self._raise(markup.error, RequestError)
         listified = set()
+
+        def append(dct, key, value):
+            if key not in dct:
+                dct[key] = value
+            elif (id(dct), key) in listified:
+                dct[key].append(value)
+            else:
+                dct[key] = [dct[key], value]
+                listified.add((id(dct), key))
+
         try:
             items = list(FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size))
         except RequestError as err:
@@ -231,16 +241,8 @@ class BodyMixin:
             else:
                 it = item.value
                 dct = forms
-            key = item.name
-
-            if key in post:
-                el = post[key]
-                if key not in listified:
-                    el = post[key] = dct[key] = [el]
-                    listified.add(key)
-                el.append(it)
-            else:
-                post[key] = dct[key] = it
+            append(dct, item.name, it)
+            append(post, item.name, it)
         # nothing is presented until the whole form is known to be valid
         env['ombott.request.forms'] = forms
         env['ombott.request.files'] = files
-- 
2.43.0


From 3d48d3222689c37106fbd3b0dbcb3152efa10594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 17/55] fix: accept a quoted multipart boundary and a content
 type in any letter case

---
 ombott/request_pkg/body_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 6c4c282..c01e1ee 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -15,7 +15,9 @@ from .helpers import (
 from .errors import RequestError, BodyParsingError, BodySizeError
 
 
-MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
+MULTIPART_BOUNDARY_PATT = re.compile(
+    r'^multipart/[^;]+;(?:.*?;)?\s*boundary=(?:"([^"]+)"|([^;"]+))', re.I
+)
 
 # chunk size line (with extensions) of this length is always accepted
 MIN_CHUNK_LINE_LIMIT = 4096
@@ -273,7 +275,7 @@ class BodyMixin:
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         try:
             if mp is not None:
-                markup = MultipartMarkup(mp.group(1))
+                markup = MultipartMarkup(mp.group(1) or mp.group(2).strip())
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
-- 
2.43.0


From 58910f247d3c2c20d3cc71396c98d479f745ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 18/55] fix: reading zero bytes of an upload gives zero bytes

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 16936a4..ca433a6 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -360,7 +360,7 @@ class BytesIOProxy:
         max_sz = self._end - self._pos
         if max_sz <= 0:
             return b''
-        if sz is not None and sz > 0:
+        if sz is not None and sz >= 0:
             sz = min(sz, max_sz)
         else:
             sz = max_sz
-- 
2.43.0


From da927b4f6911974472a9fe4f417963628a143e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 19/55] fix: a body that was refused stays refused when it is
 read again

---
 ombott/request_pkg/body_mixin.py | 9 ++++++++-
 ombott/request_pkg/request.py    | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index c01e1ee..c0a7cb1 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -271,6 +271,11 @@ class BodyMixin:
 
     @cache_in('environ[ ombott.request.body ]', read_only=True)
     def _body(self):
+        env = self.environ
+        err = env.get('ombott.request.body_error')
+        if err is not None:
+            # the stream is broken or partly consumed, its rest is not the body
+            self._raise(err, RequestError)
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         try:
@@ -285,7 +290,9 @@ class BodyMixin:
                 markup=markup
             )
             body.ombott_markup = markup
-        except RequestError as err:
+        except RequestError as exc:
+            err = env['ombott.request.body_error'] = exc
+        if err is not None:
             self._raise(err, RequestError)
         self.environ['wsgi.input'] = body
         body.seek(0)
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index a3afd28..68eecad 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -49,7 +49,7 @@ class BaseRequest:
     def _on_env_changed(request, key, v):
         todelete = ()
         if key == 'wsgi.input':
-            todelete = ('forms', 'files', 'params', 'post', 'json', 'body')
+            todelete = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error')
         elif key == 'QUERY_STRING':
             todelete = ('query', 'params')
         elif key.startswith('HTTP_'):
-- 
2.43.0


From a16f9406016ee2bf022d2236ac7d2fe3de2ebdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 20/55] fix: raise a copy of the configured error response, not
 the shared object

---
 ombott/request_pkg/request.py |  4 +++-
 ombott/response.py            | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index 68eecad..4281e3a 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -41,7 +41,9 @@ class BaseRequest:
         for err_cls in (err.__class__, except_class):
             out_err = errors_map.get(err_cls)
             if out_err:
-                err = out_err
+                # the mapped response is shared by all requests, raising it would
+                # tie this request (traceback, context) to it
+                err = out_err.clone() if hasattr(out_err, 'clone') else out_err
                 break
         raise err
 
diff --git a/ombott/response.py b/ombott/response.py
index 1edafac..b272170 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -271,6 +271,18 @@ class HTTPResponse(BaseResponse, OmbottException):
     def __init__(self, body='', status=None, headers=None, **more_headers):
         super().__init__(body, status, headers, **more_headers)
 
+    def clone(self):
+        ''' Returns an independent copy, body included. '''
+        clone = self.__class__.__new__(self.__class__)
+        HTTPResponse.__init__(clone, self.body, self.status)
+        clone._headers.update(
+            (k, v[:] if isinstance(v, list) else v) for k, v in self._headers.items()
+        )
+        if self._cookies:
+            clone._cookies = SimpleCookie({k: v.copy() for k, v in self._cookies.items()})
+        clone.__dict__.update(self.__dict__)
+        return clone
+
     def apply(self, response):
         response._status_code = self._status_code
         response._status_line = self._status_line
@@ -291,6 +303,11 @@ class HTTPError(HTTPResponse):
         self.traceback = traceback
         super().__init__(body, status, **options)
 
+    def clone(self):
+        clone = super().clone()
+        clone.exception, clone.traceback = self.exception, self.traceback
+        return clone
+
 
 #: A dict to map HTTP status codes (e.g. 404) to phrases (e.g. 'Not Found')
 HTTP_CODES = httplib.responses
-- 
2.43.0


From 31511060c5fdb4b655d2e1adb49e5e5aee46b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 21/55] fix: don't take a CR in the request path for the
 wildcard marker

---
 ombott/router/radidict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 863bc77..e93598c 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -397,7 +397,7 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        if c == c0:
+                        if c == c0 and c != TOKEN:  # a wildcard is no literal
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-- 
2.43.0


From 8cca68de2293f903c5d06178d5548fc47de691ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 22/55] fix: call a handler with the wildcard names of the rule
 it was registered under

---
 ombott/router/radirouter.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 8905534..cc17f5e 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -6,13 +6,16 @@ from .parser import Parser
 
 
 class RouteMethod:
-    __slots__ = ('route', 'name', 'handler', 'meta')
+    __slots__ = ('route', 'name', 'handler', 'meta', 'params')
 
-    def __init__(self, route, name, handler, meta=None):
+    def __init__(self, route, name, handler, meta=None, params=None):
         self.route = route
         self.name = name
         self.handler = handler
         self.meta = meta
+        # wildcard names of the rule this handler was registered under
+        # (rules that differ in these names only share the route)
+        self.params = route.params if params is None else params
 
     def remove(self):
         self.route.remove_method(self.name)
@@ -110,14 +113,14 @@ class Route:
 
         return ''.join(ret)
 
-    def _set_methods(self, methods, handler, meta=None):
+    def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-            self._methods[meth] = RouteMethod(self, meth, handler, meta)
+            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None):
+    def set_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -133,11 +136,11 @@ class Route:
                 f'but there are already registered: `{registered_fullnames}`'
             )
 
-    def add_method(self, method, handler, meta=None):
+    def add_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
         self._raise_if_registered(method, handler)
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
         if isinstance(method, str):
@@ -316,7 +319,7 @@ class RadiRouter:
             return None, [404, 'Not Found', extra]
         try:
             meth = route[methods]
-            params = route.make_params_dict(extra['param_keys'], extra['param_values'])
+            params = route.make_params_dict(meth.params, extra['param_values'])
             return [meth, params, extra['hooks']], None
         except RouteMethodError:
             allowed = ",".join(sorted(route.methods))
@@ -373,6 +376,7 @@ class RadiRouter:
 
     def _add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
         route = Route(rule)
+        params = route.params
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
@@ -381,9 +385,9 @@ class RadiRouter:
             self.routes[route.pattern] = route
 
         if overwrite:
-            route.set_method(methods, handler, meta)
+            route.set_method(methods, handler, meta, params)
         else:
-            route.add_method(methods, handler, meta)
+            route.add_method(methods, handler, meta, params)
 
         if name:
             registered = self.named_routes.get(name)
-- 
2.43.0


From 2a043642a27d47dc6bb2f75216e45a56d8d45d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 23/55] fix: a registration rejected for its name leaves no
 route behind

---
 ombott/router/radirouter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index cc17f5e..1930fb1 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -378,6 +378,14 @@ class RadiRouter:
         route = Route(rule)
         params = route.params
         route_ = self._match(route.pattern, route.filters)
+        # a registration that is rejected must not leave anything behind,
+        # so raise before any changes
+        if not overwrite:
+            if route_:
+                route_._raise_if_registered(methods, handler)
+            registered = self.named_routes.get(name) if name else None
+            if registered and registered is not route_:
+                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
         if route_:
             route = route_
         else:
@@ -390,9 +398,6 @@ class RadiRouter:
             route.add_method(methods, handler, meta, params)
 
         if name:
-            registered = self.named_routes.get(name)
-            if not overwrite and registered and registered is not route:
-                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
             self.named_routes[name] = route
         return route
 
-- 
2.43.0


From 5b6667062d3fad94c20f0493766f7f88823be16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 24/55] fix: reject rules with a repeated wildcard name or a CR
 before they get into the tree

---
 ombott/router/radirouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 1930fb1..96cca04 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -1,7 +1,7 @@
 from enum import IntEnum
 from .radidict import RadiDict, DATA, HOOKS
 from .filter_factory import FilterFactory
-from .errors import RouteBuildError, RouteMethodError
+from .errors import RouteBuildError, RouteMethodError, RouteSyntaxError
 from .parser import Parser
 
 
@@ -185,6 +185,8 @@ class Route:
         filters = []
         filters_out = []
         anon_counter = 0
+        if '\r' in rule:
+            raise RouteSyntaxError(f'CR is reserved for wildcards, it is not allowed in {rule!r}')
         for part, param, filter, filter_args, filter_selector in cls.parser.iter_parse(rule):
             filter_selector = filter_selector or ''
             if not part:  # it is param or/and filter
@@ -192,6 +194,8 @@ class Route:
                 if not param:
                     param = f'{cls.anon_prefix}{anon_counter}'
                     anon_counter += 1
+                elif param in params:
+                    raise RouteSyntaxError(f'Wildcard name `{param}` is used twice in {rule}')
                 params.append(param)
                 h, f_out = cls.make_filter(filter, filter_args)
                 filters.append(h)
-- 
2.43.0


From b48aeed9726ae436a83b8ce3604cecb5091f9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 25/55] fix: don't install a route hook over the one with other
 filters

---
 ombott/router/radirouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 96cca04..dde42ba 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -339,7 +339,7 @@ class RadiRouter:
 
     def add_hook(self, rule, *args, **kwargs):
         route_pattern, params, filters, _, _ = self.parse_rule(rule)
-        route_hooks = self._match(route_pattern = route_pattern, get_hooks = True)
+        route_hooks = self._match(filters = filters, route_pattern = route_pattern, get_hooks = True)
         new_route_hooks = self.hook_installer(route_hooks, *args, **kwargs)
         if new_route_hooks is not None and new_route_hooks is not route_hooks:
             params = {name: [False, filter] for name, filter in zip(params, filters)}
-- 
2.43.0


From 9b8442d7fc9a9dee50948310d1a9aa2770aba9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 26/55] fix: match method names of a route in any letter case

---
 ombott/router/radirouter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index dde42ba..053b7ec 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -117,9 +117,14 @@ class Route:
         for meth in methods:
             self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None, params=None):
+    @staticmethod
+    def _method_names(method):
         if isinstance(method, str):
             method = [method]
+        return [m.upper() for m in method]
+
+    def set_method(self, method, handler, meta=None, params=None):
+        method = self._method_names(method)
         self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
@@ -137,24 +142,19 @@ class Route:
             )
 
     def add_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._method_names(method)
         self._raise_if_registered(method, handler)
         self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
-        if isinstance(method, str):
-            method = [method]
-        [self._methods.pop(m, None) for m in method]
+        [self._methods.pop(m, None) for m in self._method_names(method)]
 
     @property
     def methods(self):
         return dict(self._methods)
 
     def __getitem__(self, method):
-        if isinstance(method, str):
-            method = [method]
-        for name in method:
+        for name in self._method_names(method):
             meth = self._methods.get(name)
             if meth:
                 return meth
-- 
2.43.0


From abc93da87abf6de17402d8afe93f87a5b88aa975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 27/55] fix: removing a route or a hook removes nothing else,
 and all names of the route

---
 ombott/router/radidict.py   | 23 ++++++++++++++++-------
 ombott/router/radirouter.py | 28 +++++++++++++---------------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index e93598c..95144fc 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -345,14 +345,23 @@ class RadiDict:
         elif mismatch:
             return
 
-        if hooks_only and node[DATA] is not None:
-            node[HOOKS] = None
-            return
+        self._remove_item(stack, HOOKS if hooks_only else DATA)
+
+    def remove_exact(self, route_pattern):
+        ''' The same as `remove` but `*` has no special meaning. '''
+        node, mismatch, ptr, prm_idx, stack = self._match(route_pattern)
+        if not mismatch:
+            self._remove_item(stack, DATA)
 
+    def _remove_item(self, stack, item_idx):
+        ''' Drop the data or the hooks of the last node in the `stack`
+            and the nodes that keep nothing since then.
+        '''
         stack.reverse()
-        assert node is stack[0]
-        node[DATA] = None
-        node[PARAMS] = []
+        node = stack[0]
+        node[item_idx] = None
+        if item_idx == DATA:
+            node[PARAMS] = []
         key0_to_del = None
         for node in stack:
             if key0_to_del:
@@ -364,7 +373,7 @@ class RadiDict:
                 node[IDX] = node[IDX].replace(key0_to_del, '')
                 del node[OFFSET + kidx]
                 self._try_merge(node)
-            if not (node[DATA] or node[IDX]):
+            if not (node[DATA] or node[HOOKS] or node[IDX]):
                 key0_to_del = node[KEY][0]
             else:
                 break
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 053b7ec..6587f6c 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -283,24 +283,22 @@ class RadiRouter:
             else:
                 route_pattern = route.pattern
         elif name is not None:
-            route = self.named_routes.pop(name)
+            route = self.named_routes[name]
             route_pattern = route.pattern
 
-        self.radidict.remove(route_pattern)
-        if route:
-            del self.routes[route.pattern]
+        if not route and route_pattern.endswith('*'):
+            route_pattern = route_pattern[:-1]
+            patterns_to_del = {
+                pattern for pattern in self.routes
+                if pattern.startswith(route_pattern)
+            }
         else:
-            if route_pattern.endswith('*'):
-                route_pattern = route_pattern[:-1]
-                patterns_to_del = [
-                    pattern for pattern in self.routes
-                    if pattern.startswith(route_pattern)
-                ]
-                [self.routes.pop(pattern) for pattern in patterns_to_del]
-                self._remove_named_routers(set(patterns_to_del))
-            else:
-                self.routes.pop(route_pattern, None)
-                self._remove_named_routers({route_pattern})
+            patterns_to_del = {route_pattern}
+
+        for pattern in patterns_to_del:
+            self.radidict.remove_exact(pattern)
+            self.routes.pop(pattern, None)
+        self._remove_named_routers(patterns_to_del)
 
     def resolve(self, path, methods=None):
         """
-- 
2.43.0


From bfc02d394a13b059506b62b7fc24827980b46744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 28/55] fix: int and float wildcards don't match digits beyond
 the range of the type

---
 ombott/router/filter_factory.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index ac25aa1..b35e91f 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -26,12 +26,24 @@ def _rex(conf):
     return conf, f_in, None
 
 
+def _to_int(s):
+    try:
+        return int(s)
+    except ValueError:  # more digits than the interpreter converts
+        return None  # i.e. doesn't match
+
+
+def _to_float(s):
+    ret = float(s)
+    return ret if abs(ret) != float('inf') else None
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
-        'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', float, lambda x: str(float(x))),
+        'int':   lambda conf: (r'-?\d+', _to_int, lambda x: str(int(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', _to_float, lambda x: str(float(x))),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From 3bd48a858d42e4dfcf17f1924d169d5f757282d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 29/55] fix: build the URL of a float without an exponent

---
 ombott/router/filter_factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index b35e91f..faac877 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,4 +1,5 @@
 import re
+from decimal import Decimal
 
 
 class _RouteFilterExhaust:
@@ -38,12 +39,17 @@ def _to_float(s):
     return ret if abs(ret) != float('inf') else None
 
 
+def _float_to_str(x):
+    # without an exponent, since the filter doesn't match it
+    return f'{Decimal(str(float(x))):f}'
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', _to_int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', _to_float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', _to_float, _float_to_str),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From 6bd8a6e3218ca53b3c99dd7ab82e2240fcd84d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 30/55] fix: build URLs for wildcards that look ahead or match
 an empty text

---
 ombott/router/radirouter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 6587f6c..83431d2 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -75,6 +75,8 @@ class Route:
         pattern_out = self.pattern_out
 
         ret = []
+        url_len = 0
+        to_check = []
         pidx = 0
         args_idx = 0
         cidx = 0
@@ -89,6 +91,7 @@ class Route:
                 end += clen
                 clen = 0
                 ret.append(pattern_out[cidx:end])
+                url_len += end - cidx
             cidx = end + 1
 
             pname = params[pidx]
@@ -104,14 +107,19 @@ class Route:
             if f_out:
                 prt = f_out(prt)
             if f_in:
-                assert f_in(prt)[1]  # `pos` must be > 0 if match
+                to_check.append((f_in, url_len))
             ret.append(prt)
+            url_len += len(prt)
 
         if clen:
             end = cidx + clen
             ret.append(pattern_out[cidx:end])
 
-        return ''.join(ret)
+        url = ''.join(ret)
+        for f_in, pos in to_check:
+            # a filter may look at the text that follows
+            assert f_in(url[pos:])[0] is not None
+        return url
 
     def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-- 
2.43.0


From 7b492accd6e8035f5e9059a931bbe5d70619c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 31/55] fix: keep the state of parsing a rule to that parse

---
 ombott/router/parser.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ombott/router/parser.py b/ombott/router/parser.py
index 26efea7..36ab44c 100644
--- a/ombott/router/parser.py
+++ b/ombott/router/parser.py
@@ -11,16 +11,13 @@ class Parser:
         '{': '}'
     }
 
-    def __init__(self):
-        self._stream = None
-        self._rule = None
+    def __init__(self, rule=None):
+        self._stream = SymStream(rule) if rule is not None else None
+        self._rule = rule
 
     def iter_parse(self, rule):
-        self._rule = rule
-        self._stream = SymStream(rule)
-        yield from self._iter_parse()
-        self._rule = None
-        self._stream = None
+        # the parser object may be shared between threads
+        yield from self.__class__(rule)._iter_parse()
 
     def _iter_parse(self):
         '''
-- 
2.43.0


From 7952d6baf9bc2ef40ea193ab93adada5298099e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 32/55] fix: one filter object per filter spec, also if threads
 register rules at once

---
 ombott/router/filter_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index faac877..8ac6721 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -58,7 +58,7 @@ class FilterFactory:
     def make_filter(cls, filter: str, args: str):
         if not filter:
             return None, None
-        fkey = f'{filter}({args})'
+        fkey = (filter, args)
 
         handler_f_out = cls._filter_cache.get(fkey)
         if handler_f_out:
@@ -92,5 +92,5 @@ class FilterFactory:
                 if not tmp:
                     return None, 0, None
                 return tmp.group(), tmp.end(), None
-        cls._filter_cache[fkey] = [handler, f_out]
-        return handler, f_out
+        # equal filters must be identical
+        return cls._filter_cache.setdefault(fkey, (handler, f_out))
-- 
2.43.0


From 9309fd9b1e1fd568f96855e112a5f45445d6e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 33/55] fix: don't take a filter selector for text of the
 request path

---
 ombott/router/radidict.py   | 25 ++++++++++++++++++-------
 ombott/router/radirouter.py |  2 +-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 95144fc..1af172c 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -305,6 +305,13 @@ class RadiDict:
             mismatch = MismatchType.WHOLE
         return pnode, mismatch, i, param_idx, stack
 
+    @staticmethod
+    def selector_key(selector):
+        ''' What stands for the filter selector in patterns:
+            the text that no (decoded) request path contains.
+        '''
+        return f'\udc00{selector}\udc00'
+
     # ------------------- [interface methods] --------------------------
     def add(self, route_pattern, data, params = None, *, overwrite = False):
         if isinstance(params, (list, tuple)):
@@ -391,6 +398,8 @@ class RadiDict:
         look_back = []
         do_look_back = False
         selector = None
+        path = route
+        shift = 0  # position in the `path` minus position in the `route`
         i = 0
         while True:
             while i < L:
@@ -431,12 +440,14 @@ class RadiDict:
                             pnode = token_node
                             h = pnode[HOOKS]
                             if h:
-                                hooks.append([i, h])
+                                hooks.append([i + shift, h])
                             if selector is not None:
                                 look_back.append(
-                                    [route, pnode, i, L, params[:], hooks[:], False]
+                                    [route, pnode, i, L, params[:], hooks[:], False, shift]
                                 )
-                                route = str(selector) + route[i:]
+                                selector = self.selector_key(selector)
+                                shift += i - len(selector)
+                                route = selector + route[i:]
                                 i = 0
                                 L = len(route)
                                 selector = None
@@ -449,7 +460,7 @@ class RadiDict:
                 # regular logic
                 if idx[-1] == TOKEN:
                     look_back.append(
-                        [route, pnode, i, L, params[:], hooks[:], True]
+                        [route, pnode, i, L, params[:], hooks[:], True, shift]
                     )
                 pnode = pnode[OFFSET + kidx]
                 key = pnode[KEY]
@@ -458,7 +469,7 @@ class RadiDict:
                     i = key_end
                     h = pnode[HOOKS]
                     if h:
-                        hooks.append([i, h])
+                        hooks.append([i + shift, h])
                 else:
                     break  # while
 
@@ -476,7 +487,7 @@ class RadiDict:
                 # this is partial match => try look_back
 
             if look_back:
-                route, pnode, i, L, params, hooks, look_type = look_back.pop()
+                route, pnode, i, L, params, hooks, look_type, shift = look_back.pop()
                 do_look_back = look_type
             else:
                 return None if not allow_partial else (
@@ -484,7 +495,7 @@ class RadiDict:
                     dict(
                         param_values = params,
                         hooks = hooks,
-                        partial = route[:i]
+                        partial = path[:i + shift]
                     )
                 )
 
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 83431d2..163f288 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -196,7 +196,7 @@ class Route:
         if '\r' in rule:
             raise RouteSyntaxError(f'CR is reserved for wildcards, it is not allowed in {rule!r}')
         for part, param, filter, filter_args, filter_selector in cls.parser.iter_parse(rule):
-            filter_selector = filter_selector or ''
+            filter_selector = RadiDict.selector_key(filter_selector) if filter_selector else ''
             if not part:  # it is param or/and filter
                 part = '\r'
                 if not param:
-- 
2.43.0


From 2085c90b4b38674add4409c1022a34929d4f5ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 34/55] fix: a head request in lower case gets no body either

---
 ombott/ombott.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index bb71528..13aacab 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -387,7 +387,7 @@ class Ombott:
             # rfc2616 section 4.3
             if (
                 response._status_code in {100, 101, 204, 304}
-                or environ['REQUEST_METHOD'] == 'HEAD'
+                or environ['REQUEST_METHOD'].upper() == 'HEAD'
             ):
                 close = getattr(out, 'close', None)
                 if close:
-- 
2.43.0


From 4d0e7e264c258d15f66825b0ce7282620b502b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 35/55] fix: accept the anonymous wildcard `:` in the middle of
 a rule

---
 ombott/router/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/parser.py b/ombott/router/parser.py
index 36ab44c..d5b7929 100644
--- a/ombott/router/parser.py
+++ b/ombott/router/parser.py
@@ -62,7 +62,7 @@ class Parser:
         if first == ':':
             S.next()  # eat ':'
             if S.current is not None:
-                param = S.expect(fr'({py_name})?((?=/)|$)', group = 1) or None
+                param = S.expect(fr'((?:{py_name})?)((?=/)|$)', group = 1) or None
         else:
             assert first in self.param_delimiters
             dclose = self.param_delimiters_map[first]
-- 
2.43.0


From f30212fa756d1a0a7319086349f20106b200ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 36/55] fix: build the full path of any request path, also if
 it looks like a URL

---
 ombott/request_pkg/props_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index cce942c..8257a63 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -2,7 +2,6 @@ import base64
 from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
-    urljoin,
     SplitResult as UrlSplitResult
 )
 
@@ -103,7 +102,8 @@ class PropsMixin:
     def fullpath(self):
         """ Request path including :attr:`script_name` (if present). """
         appname = self._env_get(self.config.app_name_header, '/')
-        return urljoin(self.script_name, self.path[len(appname):].lstrip('/'))
+        # the path is text, not a reference to resolve (`//`, `:`, `[` have no meaning here)
+        return self.script_name + self.path[len(appname):].lstrip('/')
 
     @property
     def query_string(self):
-- 
2.43.0


From 1c21b35a7f371d52ed2dc2ed59c62587180ff70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 37/55] fix: start every request with a clean response, also
 one with an undecodable or absent path

---
 ombott/ombott.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 13aacab..f9fd892 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -259,16 +259,18 @@ class Ombott:
         response = self.response
         request = self.request
 
-        path = environ['ombott.raw_path'] = environ['PATH_INFO']
+        # init thread
+        environ['ombott.app'] = self
+        request.__init__(environ)
+        response.__init__()
+
+        path = environ['ombott.raw_path'] = environ.get('PATH_INFO', '')
         try:
             path = path.encode('latin1').decode('utf8')
         except UnicodeError:
             return HTTPError(400, 'Invalid path string. Expected UTF-8')
         environ['PATH_INFO'] = path
-        try:  # init thread
-            environ['ombott.app'] = self
-            request.__init__(environ)
-            response.__init__()
+        try:
             try:  # routing
                 self.emit('before_request')
                 route, kwargs, route_hooks = (None, None, None)
@@ -380,7 +382,7 @@ class Ombott:
             app_name = domain_map(environ.get('HTTP_X_FORWARDED_HOST') or environ.get('HTTP_HOST'))
             if app_name:
                 environ[config.app_name_header] = '/' + app_name
-                environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
+                environ["PATH_INFO"] = '/' + app_name + environ.get("PATH_INFO", '')
 
         try:
             out = self._cast(self._handle(environ))
-- 
2.43.0


From 3b6251cc9e1eacd46dc2e0b91465d998304cb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 38/55] fix: no 1xx response carries a body

---
 ombott/ombott.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index f9fd892..d479109 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -388,7 +388,8 @@ class Ombott:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
             if (
-                response._status_code in {100, 101, 204, 304}
+                response._status_code < 200
+                or response._status_code in {204, 304}
                 or environ['REQUEST_METHOD'].upper() == 'HEAD'
             ):
                 close = getattr(out, 'close', None)
-- 
2.43.0


From 7ee8dd2fa428427a3693e92fce752fc56dce3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 39/55] fix: the critical error page closes the output it
 replaces, has no body for HEAD and is JSON if requested

---
 ombott/ombott.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index d479109..1adc581 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -384,6 +384,7 @@ class Ombott:
                 environ[config.app_name_header] = '/' + app_name
                 environ["PATH_INFO"] = '/' + app_name + environ.get("PATH_INFO", '')
 
+        out = None
         try:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
@@ -413,9 +414,15 @@ class Ombott:
                     % (html_escape(repr(_e)), html_escape(format_exc()))
                 )
             environ['wsgi.errors'].write(err)
-            headers = [('Content-Type', 'text/html; charset=UTF-8')]
-            start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [tob(err)]
+            ctype = 'text/html; charset=UTF-8'
+            if self.request.is_json_requested:
+                ctype = 'application/json'
+                err = json.dumps(dict(body=err, exception=None, traceback=None))
+            start_response('500 INTERNAL SERVER ERROR', [('Content-Type', ctype)], sys.exc_info())
+            close = getattr(out, 'close', None)
+            if close:
+                close()
+            return [] if environ['REQUEST_METHOD'].upper() == 'HEAD' else [tob(err)]
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From 789dad785d98d4e439dac951278a4cfdeb01852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 40/55] fix: JSON error pages disclose the exception and
 traceback in debug mode only

---
 ombott/ombott.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 1adc581..728056f 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -221,10 +221,11 @@ class Ombott:
 
     def default_error_handler(self, res):
         if self.request.is_json_requested:
+            debug = self.config.debug
             ret = json.dumps(dict(
                 body = res.body,
-                exception = repr(res.exception),
-                traceback = res.traceback
+                exception = repr(res.exception) if debug else None,
+                traceback = res.traceback if debug else None
             ))
             self.response.headers['Content-Type'] = 'application/json'
         else:
-- 
2.43.0


From e738e562755abdaa77933f72f8c28ffe8737b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 41/55] fix: applying a response doesn't tie its headers and
 cookies to the request served

---
 ombott/response.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index b272170..5298d7e 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -287,9 +287,12 @@ class HTTPResponse(BaseResponse, OmbottException):
         response._status_code = self._status_code
         response._status_line = self._status_line
         response._headers.clear()
-        response._headers.update(self._headers)
+        # copies, since `self` may serve other requests as well
+        response._headers.update(
+            (k, v[:] if isinstance(v, list) else v) for k, v in self._headers.items()
+        )
         if self._cookies:
-            response._cookies = self._cookies
+            response._cookies = SimpleCookie({k: v.copy() for k, v in self._cookies.items()})
         response.body = self.body
 
 
-- 
2.43.0


From 6527a211e8dbb1dfbeb7dfafe181eaf65e95a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 42/55] fix: keep thread-local properties per instance

---
 ombott/common_helpers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 1c4c400..c39948a 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -72,11 +72,9 @@ def html_escape(string):
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
     def wrapper(cls):
-        local_store = None
         cls_init = cls.__init__
 
         def init_wrapper(self, *a, **kw):
-            nonlocal local_store
             local_store = getattr(self, store_name, None)
             if local_store is None:
                 local_store = threading.local()
@@ -86,13 +84,13 @@ def ts_props(*props, store_name=None):
 
         def make_prop(k):
             def fget(s):
-                return getattr(local_store, k)
+                return getattr(getattr(s, store_name), k)
 
             def fset(s, v):
-                return setattr(local_store, k, v)
+                return setattr(getattr(s, store_name), k, v)
 
             def fdel(s):
-                return delattr(local_store, k)
+                return delattr(getattr(s, store_name), k)
             doc = 'Local property: %s' % k
             return property(fget, fset, fdel, doc)
 
-- 
2.43.0


From a4af92abc205acc414afab15067191e197f62769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 43/55] fix: withhold forbidden entity headers in any letter
 case

---
 ombott/response.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 5298d7e..8cd3fa0 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -151,10 +151,10 @@ class BaseResponse:
         headers = self._headers.items()
         bad_headers = self.bad_headers.get(self._status_code)
         if bad_headers:
-            headers = (h for h in headers if h[0] not in bad_headers)
+            headers = [h for h in headers if h[0].title() not in bad_headers]
             need_ctype = False
         else:
-            need_ctype = 'Content-Type' not in self._headers
+            need_ctype = 'Content-Type' not in {name.title() for name in self._headers}
         out = [
             (name, val.encode('utf8').decode('latin1'))
             for (name, vals) in headers
-- 
2.43.0


From 6c841bb6ab6540dd8aee98dc696b75a1d1e00764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 44/55] fix: copy a response with multi-valued headers or
 several cookies

---
 ombott/response.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 8cd3fa0..f683404 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -95,10 +95,10 @@ class BaseResponse:
         ''' Returns a copy of self. '''
         cls = cls or BaseResponse
         assert issubclass(cls, BaseResponse)
-        copy = cls(status = self.status, headers = self.headers.copy().dict)
+        copy = cls(status = self.status)
+        copy.headers.update(self.headers.copy().dict)
         if self._cookies:
-            copy._cookies = SimpleCookie()
-            copy._cookies.load(self._cookies.output(header=''))
+            copy._cookies = SimpleCookie({k: v.copy() for k, v in self._cookies.items()})
         return copy
 
     def __iter__(self):
-- 
2.43.0


From ef6e3c0fac602fd539e5981e7f476867d816bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 45/55] fix: refuse malformed status lines, hand a native
 string to the server

---
 ombott/ombott.py   | 5 ++++-
 ombott/response.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 728056f..1b5c662 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -398,7 +398,10 @@ class Ombott:
                 if close:
                     close()
                 out = []
-            start_response(response._status_line, response.headerlist)
+            start_response(
+                response._status_line.encode('utf8').decode('latin1'),
+                response.headerlist
+            )
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
diff --git a/ombott/response.py b/ombott/response.py
index f683404..444d071 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -138,6 +138,8 @@ class BaseResponse:
         elif ' ' in status:
             status = status.strip()
             code = int(status.split()[0])
+            if not status.startswith(f'{code} ') or not status.isprintable():
+                raise ValueError(f'Malformed status line: {status!r}')
         else:
             raise ValueError('String status line without a reason phrase.')
         if not 100 <= code <= 999:
-- 
2.43.0


From d317d03e639351c5ca946888c88447d51d5b255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 46/55] fix: replace underscores in header names given as
 keyword arguments, as documented

---
 ombott/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 444d071..5c0e379 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -89,7 +89,7 @@ class BaseResponse:
 
         if more_headers:
             for name, value in more_headers.items():
-                self.headers.append(name, value)
+                self.headers.append(name.replace('_', '-'), value)
 
     def copy(self, cls=None):
         ''' Returns a copy of self. '''
-- 
2.43.0


From a677f98c5c71835ba18f3ab2cae759a074a10556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 47/55] fix: refuse control characters in cookie attributes

---
 ombott/response.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ombott/response.py b/ombott/response.py
index 5c0e379..d245f9a 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -10,6 +10,7 @@ from .common_helpers import (
     cookie_encode,
     parse_date,
     HeaderDict, HeaderProperty,
+    _hval,
 )
 from .errors import OmbottException
 
@@ -240,6 +241,12 @@ class BaseResponse:
                 value = http_date(value)
             self._cookies[name][key.replace('_', '-')] = value
 
+        try:
+            _hval(self._cookies[name].OutputString())
+        except ValueError:
+            del self._cookies[name]
+            raise
+
     def delete_cookie(self, key, **kwargs):
         ''' Delete a cookie. Be sure to use the same `domain` and `path`
             settings as used to create the cookie. '''
-- 
2.43.0


From d4c5cdf151c2fae258f28ea02c01087708e41d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 48/55] fix: a raised response object doesn't accumulate the
 frames of the requests it answered

---
 ombott/ombott.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 1b5c662..154e5ee 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -285,7 +285,8 @@ class Ombott:
             finally:
                 self.emit('after_request')
         except HTTPResponse as resp:
-            return resp
+            # the response may be shared, its traceback would keep the request alive
+            return resp.with_traceback(None)
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as err500:
@@ -352,7 +353,7 @@ class Ombott:
             except StopIteration:
                 out = ''; continue                               # -----------------^
             except HTTPResponse as rs:
-                first = rs
+                first = rs.with_traceback(None)
             except (KeyboardInterrupt, SystemExit, MemoryError):
                 raise
             except Exception as err500:
-- 
2.43.0


From 55a83a8ab21e841f6e0887c64a9b6a3b406b2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 49/55] fix: read cookie values as the UTF-8 text that was set

---
 ombott/request_pkg/helpers.py     |  2 ++
 ombott/request_pkg/props_mixin.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/helpers.py b/ombott/request_pkg/helpers.py
index acadd65..8bc119c 100644
--- a/ombott/request_pkg/helpers.py
+++ b/ombott/request_pkg/helpers.py
@@ -188,6 +188,8 @@ class CookieDict(dict):
         ''' Return the value as a unicode string, or the default. '''
         if encoding is None:
             encoding = self.input_encoding
+        if self._decoded:
+            return self.get(name, default)
         try:
             return self._fix(self[name], encoding)
         except (UnicodeError, KeyError):
diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 8257a63..3a7ad5e 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -52,8 +52,17 @@ class PropsMixin:
     def cookies(self):
         """ Cookies parsed into a :class:`CookieDict`. Signed cookies are NOT
             decoded. Use :meth:`get_cookie` if you expect signed cookies. """
-        cookies = SimpleCookie(self._env_get('HTTP_COOKIE', '')).values()
-        return self._cookie_factory((c.key, c.value) for c in cookies)
+        def to_text(pair):
+            # the server hands the bytes of the client over as latin1
+            try:
+                return pair.encode('latin1').decode('utf8')
+            except UnicodeError:
+                return pair
+
+        header = ';'.join(map(to_text, self._env_get('HTTP_COOKIE', '').split(';')))
+        cookies = self._cookie_factory((c.key, c.value) for c in SimpleCookie(header).values())
+        cookies._decoded = True
+        return cookies
 
     def get_cookie(self, key, default=None, secret=None):
         """ Return the content of a cookie. To read a `Signed Cookie`, the
-- 
2.43.0


From 2b613404ae23eeb1e67bca4a49f89d924d2353b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 50/55] fix: an empty cookie is not an absent one

---
 ombott/request_pkg/props_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 3a7ad5e..388d309 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -70,10 +70,12 @@ class PropsMixin:
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
         value = self.cookies.get(key)
-        if secret and value:
+        if value is None:
+            return default
+        if secret:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value or default
+        return value
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
-- 
2.43.0


From bed1cfc0a768f67d52023be4c2e21f8d7a974511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 51/55] fix: an illegal cookie in a request reads as absent
 instead of raising

---
 ombott/request_pkg/props_mixin.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 388d309..6f0fd61 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -1,5 +1,5 @@
 import base64
-from http.cookies import SimpleCookie
+from http.cookies import SimpleCookie, CookieError
 from urllib.parse import (
     quote as urlquote,
     SplitResult as UrlSplitResult
@@ -60,7 +60,17 @@ class PropsMixin:
                 return pair
 
         header = ';'.join(map(to_text, self._env_get('HTTP_COOKIE', '').split(';')))
-        cookies = self._cookie_factory((c.key, c.value) for c in SimpleCookie(header).values())
+        morsels = SimpleCookie()
+        try:
+            morsels.load(header)
+        except CookieError:
+            # ignore the illegal ones only
+            for pair in header.split(';'):
+                try:
+                    morsels.load(pair)
+                except CookieError:
+                    pass
+        cookies = self._cookie_factory((c.key, c.value) for c in morsels.values())
         cookies._decoded = True
         return cookies
 
-- 
2.43.0


From e694506900765884ef4df6d1ee9746c8de69391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 52/55] fix: refuse cookie names starting with $, which can't
 be read back

---
 ombott/response.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ombott/response.py b/ombott/response.py
index d245f9a..f311ba5 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -228,6 +228,9 @@ class BaseResponse:
         elif not isinstance(value, str):
             raise TypeError('Secret key missing for non-string Cookie.')
 
+        if name.startswith('$'):
+            raise ValueError('Cookie names starting with `$` are reserved (RFC 2965).')
+
         if len(value) > 4096:
             raise ValueError('Cookie value to long.')
 
-- 
2.43.0


From 6da7f2cf869b4d7b63c03fe45e032cf156f84330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 53/55] fix: parse HTTP dates without the local time zone

---
 ombott/common_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index c39948a..1d030a6 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -6,7 +6,7 @@ import pickle
 import hmac
 import hashlib
 import email.utils
-import time
+import calendar
 from . import errors
 
 
@@ -14,7 +14,7 @@ def parse_date(ims):
     """ Parse rfc1123, rfc850 and asctime timestamps and return UTC epoch. """
     try:
         ts = email.utils.parsedate_tz(ims)
-        return time.mktime(ts[:8] + (0,)) - (ts[9] or 0) - time.timezone
+        return calendar.timegm(ts[:6] + (0, 0, 0)) - (ts[9] or 0)
     except (TypeError, ValueError, IndexError, OverflowError):
         return None
 
-- 
2.43.0


From 11c53b5f55aa033d45375d94e6944c9146c02889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:21 +0000
Subject: [PATCH 54/55] fix: ignore an empty If-Modified-Since header

---
 ombott/static_stream.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index a797da1..705a499 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -102,8 +102,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
     headers['Last-Modified'] = email.utils.formatdate(stats.st_mtime, usegmt=True)
 
     ims = env_get('HTTP_IF_MODIFIED_SINCE')
-    if ims:
-        ims = parse_date(ims.split(";")[0].strip())
+    ims = parse_date(ims.split(";")[0].strip()) if ims else None
     if ims is not None and ims >= int(stats.st_mtime):
         headers['Date'] = email.utils.formatdate(time.time(), usegmt=True)
         return HTTPResponse(status=304, **headers)
-- 
2.43.0


From f113c44f2b86c44e02513d44324c6e3d31db965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 55/55] fix: a wildcard named self reaches the handler and
 builds URLs

---
 ombott/router/radirouter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 163f288..397771f 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -34,7 +34,8 @@ class RouteMethod:
     def __repr__(self):
         return '<{}:{} {}>'.format(self.route.rule, self.name, self.handler)
 
-    def __call__(self, *a, **kw):
+    def __call__(*a, **kw):  # a wildcard may be named `self`
+        self, *a = a
         return self.handler(*a, **kw)
 
 
@@ -63,7 +64,8 @@ class Route:
         self.pattern_out = pattern_out
         self.filters_out = filters_out
 
-    def url(self, *args, **kw):
+    def url(*args, **kw):  # a wildcard may be named `self`
+        self, *args = args
 
         params = self.params
         if not params:
-- 
2.43.0

