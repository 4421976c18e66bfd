From 5697fc32fa3ae561c8a6f46aafbda6bca631645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 01/32] fix: image_from_file returned uninitialised pixels when
 the file shrinks while it is read

---
 src/ppocr/image/image_from_file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c4bdf64..67f882d 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -105,6 +105,12 @@ namespace
             p += res;
         }
 
+        if (remaining) {
+            // end of file before the size given by fstat()
+            errno = 0;
+            throw_error(filename);
+        }
+
         return buf;
     }
 
-- 
2.43.0


From 8c1faf2f6734e8ba15b07c38b128296c9de65838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 02/32] fix: image_from_file refused one-pixel P1 and P4 files,
 which are 8 bytes long

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 67f882d..168ca25 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -131,7 +131,7 @@ namespace
             // ['0'-'9']+ '\n'                  # max value (when type != 1 or 4)
             // data
 
-            if (end - p < 9) {
+            if (end - p < 8) {
                 return false;
             }
 
-- 
2.43.0


From 94750ba4b31754ea2503ef816aad28f6186ef794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 03/32] fix: image_from_file read out of bounds when the row
 length of a P4 header overflows

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 168ca25..c28f9db 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -245,7 +245,7 @@ Image image_from_file(const char * filename, unsigned luminance)
     }
     // binary data (pbm)
     else if (header.type == '4') {
-        if (static_cast<std::size_t>(end - p) != (header.width + 7) / 8 * header.height) {
+        if (static_cast<std::size_t>(end - p) != (static_cast<std::size_t>(header.width) + 7) / 8 * header.height) {
             throw std::runtime_error(invalid_data_len);
         }
 
-- 
2.43.0


From 46dcda466d9133af4289af01b3226ded9301b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 04/32] fix: image_from_file refused complete P1/P3 files and
 accepted truncated ones

---
 src/ppocr/image/image_from_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c28f9db..6cb7a55 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -272,12 +272,14 @@ Image image_from_file(const char * filename, unsigned luminance)
             else if (*p == '0') {
                 *output++ = '-';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
             else if (*p == '1') {
                 *output++ = 'x';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
@@ -293,7 +295,7 @@ Image image_from_file(const char * filename, unsigned luminance)
         for (; p < end && (*p == ' ' || *p == '\n'); ++p) {
         }
 
-        if (p != end) {
+        if (p != end || compunt_counter != img_size) {
             throw std::runtime_error(invalid_data_len);
         }
     }
-- 
2.43.0


From f0a149a4a9df64b487a367554e7f3c2ef517c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 05/32] fix: read_img gave an image with missing pixels when
 the stream ends or its area overflows

---
 src/ppocr/loader2/image_io.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/loader2/image_io.cpp b/src/ppocr/loader2/image_io.cpp
index 309d962..52f819e 100644
--- a/src/ppocr/loader2/image_io.cpp
+++ b/src/ppocr/loader2/image_io.cpp
@@ -27,10 +27,16 @@ namespace ppocr { namespace loader2 {
 std::istream & read_img(std::istream & is, Image & img) {
     Bounds bnd;
     if (is >> bnd) {
+        auto const area = static_cast<unsigned long long>(bnd.width()) * bnd.height();
+        if (!area || area != bnd.area()) {
+            is.setstate(std::ios::failbit);
+            return is;
+        }
         std::unique_ptr<Pixel[]> p(new Pixel[bnd.area()]);
-        is.rdbuf()->snextc();
-        is.read(p.get(), bnd.area());
-        img = Image(bnd, std::move(p));
+        is.ignore(1);
+        if (is.read(p.get(), bnd.area())) {
+            img = Image(bnd, std::move(p));
+        }
     }
     return is;
 }
-- 
2.43.0


From 8ee4f9ff7a8df3742d059060e03c6c699c829695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 06/32] fix: a glyph file that ends inside a record was loaded
 as a shorter library

---
 main/normalize_glyphs.cpp           |  2 +-
 src/ppocr/loader2/glyphs_loader.cpp | 17 ++++++++++++-----
 src/ppocr/utils/read_file.hpp       |  2 +-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/main/normalize_glyphs.cpp b/main/normalize_glyphs.cpp
index 517b261..dac158a 100644
--- a/main/normalize_glyphs.cpp
+++ b/main/normalize_glyphs.cpp
@@ -50,7 +50,7 @@ int main(int ac, char **av)
 
         file >> glyphs;
 
-        if (!file.eof()) {
+        if (!file.eof() || file.bad()) {
             std::cerr << av[i] << ": read error\n";
             return 5;
         }
diff --git a/src/ppocr/loader2/glyphs_loader.cpp b/src/ppocr/loader2/glyphs_loader.cpp
index 8db5621..bdefe14 100644
--- a/src/ppocr/loader2/glyphs_loader.cpp
+++ b/src/ppocr/loader2/glyphs_loader.cpp
@@ -33,10 +33,11 @@ std::istream & operator>>(std::istream& is, Views & views) {
     if (!(is >> n)) {
         return is;
     }
-    unsigned i = 0;
-    views.resize(n);
-    while (i < n && (is >> views[i])) {
-        ++i;
+    views.clear();
+    View view;
+    while (n && (is >> view)) {
+        views.push_back(view);
+        --n;
     }
     return is;
 }
@@ -50,7 +51,13 @@ std::istream & operator>>(std::istream& is, Glyph & glyph) {
 
 std::istream & operator>>(std::istream& is, Glyphs & glyphs) {
     Glyph glyph;
-    while (is >> glyph) {
+    while ((is >> std::ws).peek() != std::istream::traits_type::eof()) {
+        is >> glyph;
+        // the end of the stream is expected between two glyphs only
+        if (!is.good()) {
+            is.setstate(std::ios::badbit);
+            break;
+        }
         glyphs.push_back({std::move(glyph.img), glyph.views});
     }
     return is;
diff --git a/src/ppocr/utils/read_file.hpp b/src/ppocr/utils/read_file.hpp
index 082c652..9807a46 100644
--- a/src/ppocr/utils/read_file.hpp
+++ b/src/ppocr/utils/read_file.hpp
@@ -36,7 +36,7 @@ void check_read_file(char const * filename, Fn reader) {
 
     reader(file);
 
-    if (!file.eof()) {
+    if (!file.eof() || file.bad()) {
         throw std::runtime_error(std::string(filename) + " : read error: "
         + (errno ? strerror(errno) : "not eof"));
     }
-- 
2.43.0


From fefee00d7f79ecce344817e326ede76c8f147d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 07/32] fix: Probabilities wrote through a null pointer when
 its allocation failed

---
 src/ppocr/ocr2/probabilities.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/probabilities.hpp b/src/ppocr/ocr2/probabilities.hpp
index 5ecbb75..80351f6 100644
--- a/src/ppocr/ocr2/probabilities.hpp
+++ b/src/ppocr/ocr2/probabilities.hpp
@@ -20,6 +20,7 @@
 #define PPOCR_SRC_OCR2_PROBABILITIES_HPP
 
 #include <cstdlib>
+#include <new>
 #include <utility>
 
 namespace ppocr { namespace ocr2 {
@@ -39,7 +40,11 @@ struct Probabilities
     : data(static_cast<Probability*>(
         aligned_alloc(alignof(Probability), sz * sizeof(Probability))))
     , current(data)
-    {}
+    {
+        if (!data && sz) {
+            throw std::bad_alloc();
+        }
+    }
 
     Probabilities(Probabilities const &) = delete;
     Probabilities& operator=(Probabilities const &) = delete;
-- 
2.43.0


From 9807768ed7c3416c4559d611e58e0fbc47ec34fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 08/32] fix: a cached feature context counted as computed after
 its computation failed

---
 src/ppocr/strategies/utils/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/utils/context.hpp b/src/ppocr/strategies/utils/context.hpp
index 970f878..44de6e0 100644
--- a/src/ppocr/strategies/utils/context.hpp
+++ b/src/ppocr/strategies/utils/context.hpp
@@ -25,8 +25,8 @@ struct cache_context : Ctx
     {
         Ctx& ctx = *this;
         if (!is_loaded) {
-            is_loaded = true;
             ctx.compute(img);
+            is_loaded = true;
         }
         return ctx.value();
     }
-- 
2.43.0


From 4af29606436ab7d768e90effab51fb714314197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 09/32] fix: a feature row was left half-added when memory ran
 out

---
 src/ppocr/loader2/datas_loader.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/loader2/datas_loader.hpp b/src/ppocr/loader2/datas_loader.hpp
index 006d748..cacc869 100644
--- a/src/ppocr/loader2/datas_loader.hpp
+++ b/src/ppocr/loader2/datas_loader.hpp
@@ -143,6 +143,11 @@ struct Data
         this->data_.values.push_back(Strategy::load(img, img90, ctx));
     }
 
+    /// \pre n <= size()
+    void truncate(size_t n) {
+        this->data_.values.erase(this->data_.values.begin() + n, this->data_.values.end());
+    }
+
     value_type const & operator[](size_t i) const {
         return data_.values[i];
     }
@@ -215,9 +220,16 @@ struct Datas : private Data<Strategies>...
     void load(Image const & img) {
         auto img90 = img.rotate90();
         ctx.reset();
-        (..., static_cast<Data<Strategies>&>(*this).load(
-            img, img90, static_cast<typename Strategies::ctx_type&>(ctx)
-        ));
+        auto const row = this->size();
+        try {
+            (..., static_cast<Data<Strategies>&>(*this).load(
+                img, img90, static_cast<typename Strategies::ctx_type&>(ctx)
+            ));
+        }
+        catch (...) {
+            (..., static_cast<Data<Strategies>&>(*this).truncate(row));
+            throw;
+        }
     }
 
     bool lt(size_t i1, size_t i2) const {
-- 
2.43.0


From 6894f04e73d6fdd7017d03456d90e80ed4d4e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 10/32] fix: a truncated feature table was loaded with missing
 rows and features

---
 src/ppocr/defined_loader.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index e3d6f15..f216bbd 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -198,20 +198,22 @@ namespace details_ {
         std::size_t data_sz_;
 
         void operator()() const {
-            if (this->is_) {
+            if (this->is_.good()) {
                 std::istream::sentry(this->is_);
             }
+            else {
+                this->is_.setstate(std::ios::badbit);
+            }
         }
 
         template<class Strategy, class... Strategies>
         void operator()(loader2::Data<Strategy> & data, loader2::Data<Strategies> & ... other) const {
             typename loader2::Data<Strategy>::container_type cont;
 
-            if (this->is_) {
-                cont.resize(this->data_sz_);
-                for (auto & x : cont) {
-                    this->read(x);
-                }
+            // values are followed by a space: at the end of the stream, the last one may be cut
+            for (std::size_t n = this->data_sz_; n && this->is_.good(); --n) {
+                cont.emplace_back();
+                this->read(cont.back());
             }
 
             data = loader2::Data<Strategy>(std::move(cont));
@@ -229,9 +231,9 @@ namespace details_ {
         void read(std::vector<T> & cont) const {
             std::size_t sz;
             if (this->is_ >> sz) {
-                cont.resize(sz);
-                for (auto & x : cont) {
-                    this->is_ >> x;
+                for (; sz && this->is_.good(); --sz) {
+                    cont.emplace_back();
+                    this->is_ >> cont.back();
                 }
             }
         }
@@ -255,13 +257,15 @@ namespace details_ {
 
     template<class... Strategies>
     std::istream & operator>>(std::istream & is, DefaultDatas<Strategies...> & datas) {
-        std::size_t sz;
+        std::size_t sz = 0;
         is >> sz;
         using loader2::Data;
         struct Tuple : Data<Strategies>... {} t;
         details_::ReadApplyData read{is, sz};
         read(static_cast<Data<Strategies>&>(t)...);
-        datas = PpOcrDatas(static_cast<Data<Strategies>&&>(t)...);
+        if (!is.bad()) {
+            datas = PpOcrDatas(static_cast<Data<Strategies>&&>(t)...);
+        }
         return is;
     }
 }
-- 
2.43.0


From 4aae53f796d48ece3f8cd13adf04b4285f99933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 11/32] fix: an empty word in a word list made Dictionary read
 out of bounds

---
 src/ppocr/spell/dictionary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index dc3cfd7..42f35a7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -42,7 +42,9 @@ Dictionary::Dictionary(std::vector<std::string> const & words)
         for (uint32_t c; (c = *it); ++it) {
             new_word.push_back(c);
         }
-        uwords.push_back(std::move(new_word));
+        if (!new_word.empty()) {
+            uwords.push_back(std::move(new_word));
+        }
     }
 
     std::sort(uwords.begin(), uwords.end());
-- 
2.43.0


From aa9f0f8b7d08028317d5459b4f2aab3956fbe619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 12/32] fix: the UTF-8 iterators read beyond a string that ends
 inside a sequence

---
 src/ppocr/utils/utf.hpp | 47 ++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/ppocr/utils/utf.hpp b/src/ppocr/utils/utf.hpp
index 951aae1..7874db8 100644
--- a/src/ppocr/utils/utf.hpp
+++ b/src/ppocr/utils/utf.hpp
@@ -47,17 +47,20 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
-                    this->ucode = ((this->ucode & 0x1F) << 6)|(source[0] & 0x3F);
-                    source += 1;
+                    this->ucode = this->ucode & 0x1F;
+                    this->append_next(6, 0x3F);
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
-                    this->ucode = ((this->ucode & 0x0F) << 12)|((source[0] & 0x3F) << 6)|(source[1] & 0x3F);
-                    source += 2;
+                    this->ucode = this->ucode & 0x0F;
+                    this->append_next(6, 0x3F);
+                    this->append_next(6, 0x3F);
                 break;
                 case 0xF:
-                    this->ucode = ((this->ucode & 0x07) << 18)|((source[0] & 0x3F) << 12)|((source[1] & 0x3F) << 6)|(source[2] & 0x3F);
-                    source += 3;
+                    this->ucode = this->ucode & 0x07;
+                    this->append_next(6, 0x3F);
+                    this->append_next(6, 0x3F);
+                    this->append_next(6, 0x3F);
                 break;
                 // these should never happen on valid UTF8
                 case 8: case 9: case 0x0A: case 0x0B:
@@ -75,6 +78,16 @@ namespace ppocr { namespace utf {
 
         uint8_t const * pos() const
         { return this->source; }
+
+    private:
+        // a sequence cut by the end of the string does not continue beyond it
+        void append_next(unsigned shift, uint8_t mask)
+        {
+            this->ucode = (this->ucode << shift) | (*source & mask);
+            if (*source) {
+                ++source;
+            }
+        }
     };
 
     class UTF8Iterator
@@ -102,17 +115,17 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
-                    this->ucode = (this->ucode << 8) | source[0];
-                    source += 1;
+                    this->append_next(8, 0xFF);
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
-                    this->ucode = (this->ucode << 16) | (source[0] << 8) | source[1];
-                    source += 2;
+                    this->append_next(8, 0xFF);
+                    this->append_next(8, 0xFF);
                 break;
                 case 0xF:
-                    this->ucode = (this->ucode << 24) | (source[0] << 16) | (source[1] << 8) | source[2];
-                    source += 3;
+                    this->append_next(8, 0xFF);
+                    this->append_next(8, 0xFF);
+                    this->append_next(8, 0xFF);
                 break;
                 // these should never happen on valid UTF8
                 default: //case 8: case 9: case 0x0A: case 0x0B:
@@ -130,6 +143,16 @@ namespace ppocr { namespace utf {
 
         uint8_t const * pos() const
         { return this->source; }
+
+    private:
+        // a sequence cut by the end of the string does not continue beyond it
+        void append_next(unsigned shift, uint8_t mask)
+        {
+            this->ucode = (this->ucode << shift) | (*source & mask);
+            if (*source) {
+                ++source;
+            }
+        }
     };
 } }
 
-- 
2.43.0


From 55caae2b9ab3db75b0e4b74baf3d63699b3eba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 13/32] fix: a truncated or inconsistent dictionary was loaded
 as another dictionary

---
 src/ppocr/spell/dictionary.cpp | 35 ++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index 42f35a7..71256c8 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -91,12 +91,43 @@ std::istream& operator>>(std::istream& is, Dictionary & dict)
     unsigned sz;
     bool terminal;
     char e1, e2, e3, e4;
-    while (is >> c >> e1 >> pos >> e2 >> sz >> e3 >> terminal >> e4) {
-        if (e1 != ' ' || e2 != ' ' || e3 != ' ' || e4 != '\n') {
+    while (is.good() && is.peek() != std::istream::traits_type::eof()) {
+        if (!(is >> c >> e1 >> pos >> e2 >> sz >> e3 >> terminal >> e4)
+         || e1 != ' ' || e2 != ' ' || e3 != ' ' || e4 != '\n'
+        ) {
             throw std::runtime_error("bad format");
         }
         nodes.emplace_back(c, pos, sz, terminal);
     }
+
+    if (is.bad()) {
+        return is;
+    }
+
+    // breadth-first layout: the children of a node follow those of the previous node
+    std::size_t first_child = nodes.empty() ? 0 : nodes[0].relative_pos();
+    auto check_children = [&nodes](std::size_t first, std::size_t n) {
+        if (first > nodes.size() || n > nodes.size() - first) {
+            throw std::runtime_error("bad format");
+        }
+        for (auto p = nodes.begin() + first; n > 1; --n, ++p) {
+            if (p[0].get() >= p[1].get()) {
+                throw std::runtime_error("bad format");
+            }
+        }
+    };
+    check_children(0, first_child);
+    for (std::size_t i = 0; i < nodes.size(); ++i) {
+        if (first_child <= i || nodes[i].relative_pos() != first_child - i) {
+            throw std::runtime_error("bad format");
+        }
+        check_children(first_child, nodes[i].size());
+        first_child += nodes[i].size();
+    }
+    if (first_child != nodes.size()) {
+        throw std::runtime_error("bad format");
+    }
+
     dict = Dictionary(std::move(nodes));
     return is;
 }
-- 
2.43.0


From fec13cc713c4d8115e401393323f77ef1961e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 14/32] fix: the terminator of an ocr2 word of 4n bytes was
 written over the next word or out of bounds

---
 src/ppocr/ocr2/glyphs.cpp | 10 +++++-----
 src/ppocr/ocr2/glyphs.hpp |  8 ++++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 68fba9d..8381b5e 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -68,7 +68,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         std::vector<unsigned> reindex(word_map.size());
         for (auto & p : word_map) {
             reindex[p.second] = buf_word_sz;
-            buf_word_sz += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned) + 1;
+            buf_word_sz += Glyphs::packed_size(p.first.size());
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
         for (auto & views : glyphs) {
@@ -81,10 +81,10 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         auto buf = buf_word.get();
         for (auto & p : word_map) {
             *buf = p.first.size();
-            ++buf;
-            std::copy(p.first.begin(), p.first.end(), reinterpret_cast<char*>(buf));
-            reinterpret_cast<char*>(buf)[p.first.size()] = 0;
-            buf += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned);
+            auto str = reinterpret_cast<char*>(buf + 1);
+            std::copy(p.first.begin(), p.first.end(), str);
+            str[p.first.size()] = 0;
+            buf += Glyphs::packed_size(p.first.size());
         }
     }
 
diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c2e7149..1991721 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -74,14 +74,18 @@ struct Glyphs : std::vector<Views> {
                 }
                 break;
             }
-            i += (this->get_word_(i).size() + sizeof(unsigned) * 2 - 1) / sizeof(unsigned);
+            i += packed_size(this->get_word_(i).size());
         }
         return no_index;
     }
 
 private:
     std::unique_ptr<unsigned[]> buf_word;
-    unsigned buf_word_sz;
+    unsigned buf_word_sz = 0;
+
+    /// number of elements of buf_word for the length, the characters and the terminator of a word
+    static unsigned packed_size(std::size_t word_sz)
+    { return static_cast<unsigned>(word_sz / sizeof(unsigned) + 2); }
 
     string const & get_word_(unsigned i) const
     { return *reinterpret_cast<string const *>(this->buf_word.get() + i); }
-- 
2.43.0


From e679b524961a83cd17a21553ac938daf719c83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 15/32] fix: Glyphs::word_index_of found words that merely
 start with the searched one

---
 src/ppocr/ocr2/glyphs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 1991721..9316c37 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -67,7 +67,8 @@ struct Glyphs : std::vector<Views> {
     unsigned word_index_of(std::string_view s) const {
         unsigned i = 0;
         while (i < this->buf_word_sz) {
-            auto r = s.compare(0, s.size(), this->get_word_(i).data(), s.size());
+            auto const & word = this->get_word_(i);
+            auto r = s.compare(std::string_view(word.data(), word.size()));
             if (r <= 0) {
                 if (r == 0) {
                     return i;
-- 
2.43.0


From 7f5159ced40d109631b92bcd039503cec09c0d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 16/32] fix: a glyph file that ends inside a record was loaded
 as a glyph index with invented words

---
 src/ppocr/ocr2/glyphs.cpp | 44 ++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 8381b5e..3c0292c 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -34,32 +34,45 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
     std::string word;
     constexpr auto limit_max = std::numeric_limits<std::streamsize>::max();
 
-    while (is.ignore(limit_max, '\n')) {
-        unsigned n;
-        if (!(is >> n)) {
-            break;
-        }
+    Glyphs loaded;
+
+    while ((is >> std::ws).peek() != std::istream::traits_type::eof()) {
+        unsigned n = 0;
+        is.ignore(limit_max, '\n') >> n;
+        is.ignore(limit_max, '\n');
+
         Views views;
-        views.resize(n);
 
-        unsigned i = 0;
-        while (i < n && (is >> word >> font).ignore(limit_max, '\n')) {
+        while (n && (is >> word >> font).ignore(limit_max, '\n')) {
+            View view;
+
             auto it_word = word_map.find(word);
             if (it_word == word_map.end()) {
                 it_word = word_map.emplace(std::move(word), word_map.size()).first;
             }
-            views[i].word = it_word->second;
+            view.word = it_word->second;
 
             auto it_font = font_map.find(font);
             if (it_font == font_map.end()) {
                 it_font = font_map.emplace(std::move(font), font_map.size()).first;
             }
-            views[i].font = it_font->second;
+            view.font = it_font->second;
 
-            ++i;
+            views.push_back(view);
+            --n;
         }
 
-        glyphs.push_back(std::move(views));
+        // truncated record
+        if (!is.good() || views.empty()) {
+            is.setstate(std::ios::badbit);
+            return is;
+        }
+
+        loaded.push_back(std::move(views));
+    }
+
+    if (is.bad()) {
+        return is;
     }
 
     std::unique_ptr<unsigned[]> buf_word;
@@ -71,7 +84,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             buf_word_sz += Glyphs::packed_size(p.first.size());
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
-        for (auto & views : glyphs) {
+        for (auto & views : loaded) {
             for (View & v : views) {
                 v.word = reindex[v.word];
             }
@@ -88,8 +101,9 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         }
     }
 
-    glyphs.buf_word = std::move(buf_word);
-    glyphs.buf_word_sz = buf_word_sz;
+    loaded.buf_word = std::move(buf_word);
+    loaded.buf_word_sz = buf_word_sz;
+    glyphs = std::move(loaded);
 
     return is;
 }
-- 
2.43.0


From f3995a33257ce55295ceca0bd1fe6f90bb810915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 17/32] fix: a replacement without text took the text of
 another line

---
 src/ppocr/ocr2/replacement.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/ppocr/ocr2/replacement.cpp b/src/ppocr/ocr2/replacement.cpp
index 56c7298..f973c74 100644
--- a/src/ppocr/ocr2/replacement.cpp
+++ b/src/ppocr/ocr2/replacement.cpp
@@ -23,18 +23,19 @@
 std::istream& ppocr::ocr2::operator>>(std::istream& is, Replacements& replacements) {
     using char_traits = std::char_traits<char>;
     Replacement rep;
-    while (is) {
-        is >> rep.pattern;
-        auto c = is.rdbuf()->sgetc();
-        if (!char_traits::eq_int_type(c, char_traits::eof())) {
-            if (!char_traits::eq(char_traits::to_char_type(c), '\n')) {
-                is >> rep.replace;
-            }
-            else {
-                rep.replace.clear();
-            }
+    while (is >> rep.pattern) {
+        rep.replace.clear();
+        // the replacement is on the same line, or empty
+        while (is.good() && (is.peek() == ' ' || is.peek() == '\t')) {
+            is.ignore();
         }
-        if (is) {
+        auto c = is.good() ? is.peek() : char_traits::eof();
+        if (!char_traits::eq_int_type(c, char_traits::eof())
+         && c != '\n' && c != '\r'
+        ) {
+            is >> rep.replace;
+        }
+        if (!is.bad()) {
             replacements.push_back(rep);
         }
     }
-- 
2.43.0


From fba8caa14b498e8213db9bdd199739cf453941c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 18/32] fix: replace_words never ended when a replacement
 contains its pattern

---
 src/ppocr/ocr2/replacement.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppocr/ocr2/replacement.hpp b/src/ppocr/ocr2/replacement.hpp
index 928beac..2fdf868 100644
--- a/src/ppocr/ocr2/replacement.hpp
+++ b/src/ppocr/ocr2/replacement.hpp
@@ -38,9 +38,13 @@ std::istream & operator >> (std::istream & is, Replacements & replacements);
 
 inline void replace_words(std::string & result, Replacements const & replacements) {
     for (Replacement const & rep : replacements) {
+        if (rep.pattern.empty()) {
+            continue;
+        }
         std::string::size_type pos = 0;
         while ((pos = result.find(rep.pattern, pos)) != std::string::npos) {
             result.replace(pos, rep.pattern.size(), rep.replace);
+            pos += rep.replace.size();
         }
     }
 }
-- 
2.43.0


From 4c2e6750620aadefd0e1cfdffbab59f7460dc2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 19/32] fix: the incomplete last entry of a word-line file was
 dropped or loaded with a cut attribute

---
 src/ppocr/ocr2/word_lines.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/word_lines.cpp b/src/ppocr/ocr2/word_lines.cpp
index ea3d983..c7a438f 100644
--- a/src/ppocr/ocr2/word_lines.cpp
+++ b/src/ppocr/ocr2/word_lines.cpp
@@ -41,7 +41,12 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, WWordsLines& wwords_line
 {
     WWordLines wwl;
     std::string s;
-    while (is >> s >> wwl.wlines) {
+    while (is >> s) {
+        // truncated entry
+        if (!(is >> wwl.wlines) || !is.good()) {
+            is.setstate(std::ios::badbit);
+            break;
+        }
         if (s.size() <= 8) {
             memcpy(wwl.str_data, s.data(), s.size());
             wwl.str_len = static_cast<uint16_t>(s.size());
-- 
2.43.0


From 1cbee871c6b05d631050066a41a033426d4145b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 20/32] fix: make_trie_dictionary ignored every word file after
 the first and unreadable ones

---
 main/make_trie_dictionary.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index af6c3a9..e1b9bf6 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -34,20 +34,24 @@ int main(int ac, char ** av) {
         return 1;
     }
 
-    std::ifstream file;
     std::vector<std::string> words;
 
     for (int i = 1; i < ac; ++i) {
-        file.open(av[i]);
+        std::ifstream file(av[i]);
         if (!file) {
             std::cerr << av[i] << ": " << strerror(errno) << std::endl;
-            continue;
+            return 2;
         }
 
         std::string s;
         while (std::getline(file, s)) {
             words.push_back(s);
         }
+
+        if (!file.eof() || file.bad()) {
+            std::cerr << av[i] << ": read error\n";
+            return 5;
+        }
     }
 
     std::cout << spell::Dictionary(std::move(words));
-- 
2.43.0


From be7fa03f3c5cef669d95ac80471f65cfbbd992b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 21/32] fix: write_glyphs ignored a read error in the text file

---
 main/write_glyphs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 363d387..c3e430a 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -90,6 +90,9 @@ static void load_file(
     if (file >> s) {
         throw_error(imagefilename, textfilename, fontname, "Box character not found");
     }
+    if (file.bad()) {
+        throw_error(imagefilename, textfilename, fontname, "Read error");
+    }
 }
 
 }
-- 
2.43.0


From 1dd3429b3a16bd1fac7fa9dddaf6e637fba38eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 22/32] fix: write_datas accepted a glyph file that ends inside
 a record or cannot be read to its end

---
 main/write_datas.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index de12784..cbdf33a 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -46,16 +46,23 @@ int main(int ac, char **av)
         }
 
         Image img;
-        unsigned n;
-        while (loader2::read_img(file, img) >> n) {
-            file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-            while (n--) {
+        while ((file >> std::ws).peek() != std::ifstream::traits_type::eof()) {
+            unsigned n = 0;
+            loader2::read_img(file, img) >> n;
+            do {
                 file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+            } while (file.good() && n--);
+
+            // truncated record
+            if (!file.good()) {
+                file.setstate(std::ios::badbit);
+                break;
             }
+
             datas.load(img);
         }
 
-        if (!file.eof()) {
+        if (!file.eof() || file.bad()) {
             std::cout << '[' << file.rdbuf() << "]\n";
             std::cerr << av[1] << ": read error\n";
             return 5;
-- 
2.43.0


From fd9a8bfa9f0aaa2a401f7765a8c731568af5d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 23/32] fix: the tools ended successfully although their output
 could not be written

---
 main/make_trie_dictionary.cpp | 5 +++++
 main/normalize_glyphs.cpp     | 5 +++++
 main/ocr2_extract_text.cpp    | 5 +++++
 main/show_glyphs.cpp          | 5 +++++
 main/write_datas.cpp          | 5 +++++
 main/write_glyphs.cpp         | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index e1b9bf6..5c73bbb 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -55,4 +55,9 @@ int main(int ac, char ** av) {
     }
 
     std::cout << spell::Dictionary(std::move(words));
+
+    if (!std::cout.flush()) {
+        std::cerr << "write error\n";
+        return 6;
+    }
 }
diff --git a/main/normalize_glyphs.cpp b/main/normalize_glyphs.cpp
index dac158a..2ce7267 100644
--- a/main/normalize_glyphs.cpp
+++ b/main/normalize_glyphs.cpp
@@ -91,4 +91,9 @@ int main(int ac, char **av)
 
     std::cerr << "Glyphs: " << glyphs.size() << std::endl;
     std::cout << glyphs;
+
+    if (!std::cout.flush()) {
+        std::cerr << "write error\n";
+        return 6;
+    }
 }
diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f46b225..03c2097 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -194,4 +194,9 @@ int main(int ac, char **av)
       << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty()? ambiguous.size() :1)
       << std::endl
     ;
+
+    if (!std::cout.flush()) {
+        std::cerr << "write error\n";
+        return 6;
+    }
 }
diff --git a/main/show_glyphs.cpp b/main/show_glyphs.cpp
index 9dcedbb..f00ecfb 100644
--- a/main/show_glyphs.cpp
+++ b/main/show_glyphs.cpp
@@ -65,4 +65,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; ++i_ac) {
         load_file(av[i_ac], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << "write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index cbdf33a..5cf860f 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -70,4 +70,9 @@ int main(int ac, char **av)
     }
 
     std::cout << datas;
+
+    if (!std::cout.flush()) {
+        std::cerr << "write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index c3e430a..8ce3812 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -120,4 +120,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; i_ac += 3) {
         load_file(av[i_ac], av[i_ac+1], av[i_ac+2], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << "write error\n";
+        return 6;
+    }
 }
-- 
2.43.0


From feea57e3fdddfddc7861f2e1f5ace77ba5b79ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 24/32] fix: filter_by_lines read and wrote out of bounds when
 the first character reaches lowest

MinMaxBox left the first box out of its maxima, and started them at 0: with a
single character below the first rows, or a first character lower than all
others, the histogram is too small or its size wraps around.
---
 src/ppocr/ocr2/filter_by_lines.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9019647..7a24bd0 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -74,15 +74,17 @@ namespace {
     struct MinMaxBox
     {
         unsigned min_top;
-        unsigned max_top = 0;
+        unsigned max_top;
         unsigned min_bottom;
-        unsigned max_bottom = 0;
+        unsigned max_bottom;
 
         using iterator = std::vector<ppocr::Box>::const_iterator;
 
         MinMaxBox(iterator first, iterator last)
         : min_top(first->top())
+        , max_top(first->top())
         , min_bottom(first->bottom())
+        , max_bottom(first->bottom())
         {
             while (++first != last) {
                 min_top = std::min(min_top, first->top());
-- 
2.43.0


From 7c08f4ba8b20624fe6e849086a0457e185cedc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 25/32] fix: comparing two zones of less than 1% of the border
 divided by zero

---
 src/ppocr/strategies/proportionality_zone.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index 4eb53dc..9ed8794 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -70,7 +70,11 @@ unsigned proportionality_zone::relationship_type::compute(const value_type& a, c
     unsigned const total = std::inner_product(
         a.begin(), a.end(), b.begin(), 0u
       , std::plus<unsigned>()
-      , [](unsigned a, unsigned b) { return a*100/(a+b); }
+      , [](unsigned a, unsigned b) {
+            // a zone that is less than 1% of the border counts for 0%
+            unsigned long long const sum = 0ull + a + b;
+            return sum ? static_cast<unsigned>(a * 100ull / sum) : 50u;
+        }
     ) / a.size();
     return utils::compute_relationship(total, 50u, 100u);
 }
-- 
2.43.0


From c3ffe7d5aabcb4aab943a40024401fe231641f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 26/32] fix: extract_text6 and extract_text8 ended successfully
 although their output could not be written

---
 main/extract_text6.cpp | 5 +++++
 main/extract_text8.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/main/extract_text6.cpp b/main/extract_text6.cpp
index 5cf7fb5..fdd8cef 100644
--- a/main/extract_text6.cpp
+++ b/main/extract_text6.cpp
@@ -880,4 +880,9 @@ int main(int ac, char **av)
       << "\n ## result3: " << (result3)
       << std::endl
     ;
+
+    if (!std::cout.flush()) {
+        std::cerr << "write error\n";
+        return 6;
+    }
 }
diff --git a/main/extract_text8.cpp b/main/extract_text8.cpp
index bde535b..492d435 100644
--- a/main/extract_text8.cpp
+++ b/main/extract_text8.cpp
@@ -781,4 +781,9 @@ int main(int ac, char **av)
       << "\n ## result3: " << (result3)
       << std::endl
     ;
+
+    if (!std::cout.flush()) {
+        std::cerr << "write error\n";
+        return 6;
+    }
 }
-- 
2.43.0


From 9202fd937fcde864200909d62b3f01a27d2cc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:33 +0000
Subject: [PATCH 27/32] fix: extract_text6 and extract_text8 read a null name
 when a glyph has none

---
 main/extract_text6.cpp | 4 ++++
 main/extract_text8.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/main/extract_text6.cpp b/main/extract_text6.cpp
index fdd8cef..415bcb1 100644
--- a/main/extract_text6.cpp
+++ b/main/extract_text6.cpp
@@ -43,6 +43,7 @@
 #include <algorithm>
 #include <chrono>
 #include <map>
+#include <stdexcept>
 #include <numeric>
 
 #include <cstring>
@@ -754,6 +755,9 @@ int main(int ac, char **av)
     }
 
     for (auto & glyph : glyphs) {
+        if (glyph.views.empty()) {
+            throw std::runtime_error("glyph without name");
+        }
         glyph.views.erase(std::unique(
             glyph.views.begin(), glyph.views.end(),
             [](loader2::View const & v1, loader2::View const & v2) { return v1.word == v2.word; }
diff --git a/main/extract_text8.cpp b/main/extract_text8.cpp
index 492d435..626ad94 100644
--- a/main/extract_text8.cpp
+++ b/main/extract_text8.cpp
@@ -44,6 +44,7 @@
 #include <algorithm>
 #include <chrono>
 #include <map>
+#include <stdexcept>
 
 #include <cstring>
 #include <cerrno>
@@ -603,6 +604,9 @@ int main(int ac, char **av)
     }
 
     for (auto & glyph : glyphs) {
+        if (glyph.views.empty()) {
+            throw std::runtime_error("glyph without name");
+        }
         glyph.views.erase(std::unique(
             glyph.views.begin(), glyph.views.end(),
             [](loader2::View const & v1, loader2::View const & v2) { return v1.word == v2.word; }
-- 
2.43.0


From 0ef3c280b2090393860cce504e2c028c3ec17ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:54 +0000
Subject: [PATCH 28/32] fix: extract_text6 read and wrote out of bounds for a
 feature value beyond its range

---
 main/extract_text6.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/extract_text6.cpp b/main/extract_text6.cpp
index 415bcb1..d4ddee8 100644
--- a/main/extract_text6.cpp
+++ b/main/extract_text6.cpp
@@ -340,7 +340,7 @@ struct compute_image_data_type
         int interval = this->get_interval<FirstStrategy>();
         cat.resize(interval + 1);
         for (auto x : this->get<FirstStrategy>()) {
-            ++cat[x / ocr_div];
+            ++cat.at(x / ocr_div);
         }
         int d = interval/10 + 1;
         std::partial_sum(begin(cat), end(cat), begin(cat));
-- 
2.43.0


From 8fe77f86475e1da2b6a6189203c7f57ab9241a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:28 +0000
Subject: [PATCH 29/32] fix: extract_text8 read out of bounds and gave other
 glyphs' names when merging equal rows

---
 main/extract_text8.cpp      | 58 ++++++++++++-------------------------
 src/ppocr/utils/reindex.hpp |  2 +-
 2 files changed, 19 insertions(+), 41 deletions(-)

diff --git a/main/extract_text8.cpp b/main/extract_text8.cpp
index 626ad94..ee73441 100644
--- a/main/extract_text8.cpp
+++ b/main/extract_text8.cpp
@@ -43,6 +43,7 @@
 #include <iomanip>
 #include <algorithm>
 #include <chrono>
+#include <iterator>
 #include <map>
 #include <stdexcept>
 
@@ -631,52 +632,29 @@ int main(int ac, char **av)
             return datas.get<strategy1>()[i1] < datas.get<strategy1>()[i2];
         });
 
-        std::vector<index_type *> duplicate;
         {
+            auto const lt = [](loader2::View const & v1, loader2::View const & v2) { return v1.word < v2.word; };
             auto first = indexes.begin();
             auto last = indexes.end();
-            std::vector<loader2::View> views;
+            auto out = first;
             while (first != last) {
-                auto eq = [](loader2::View const & v1, loader2::View const & v2) { return v1.word == v2.word; };
-                auto lt = [](loader2::View const & v1, loader2::View const & v2) { return v1.word <  v2.word; };
-                auto pos = std::find_if(
-                    first+1, last, [&](unsigned i1) { return datas_eq(datas, i1, *first); }
-                );
-                if (++first != pos) {
-                    for (; first != pos; ++first) {
-                        duplicate.emplace_back(&*first);
-                        views.resize(glyphs[*first].views.size() + glyphs[*(first-1)].views.size());
-                        views.erase(std::unique(
-                            views.begin(),
-                            std::set_union(
-                                std::make_move_iterator(glyphs[*first].views.begin()),
-                                std::make_move_iterator(glyphs[*first].views.end()),
-                                std::make_move_iterator(glyphs[*(first-1)].views.begin()),
-                                std::make_move_iterator(glyphs[*(first-1)].views.end()),
-                                views.begin(), lt
-                            ), eq
-                        ), views.end());
-                        std::swap(glyphs[*first].views, views);
-                    }
+                // the next rows that are equal to this one
+                auto const i = *first;
+                while (++first != last && datas_eq(datas, *first, i)) {
+                    loader2::Views views;
+                    std::set_union(
+                        std::make_move_iterator(glyphs[i].views.begin()),
+                        std::make_move_iterator(glyphs[i].views.end()),
+                        std::make_move_iterator(glyphs[*first].views.begin()),
+                        std::make_move_iterator(glyphs[*first].views.end()),
+                        std::back_inserter(views), lt
+                    );
+                    glyphs[i].views = std::move(views);
                 }
+                *out++ = i;
             }
-        }
-        std::cout << " ## duplicate.size(): " << (duplicate.size()) << std::endl;
-        if (!duplicate.empty()) {
-            auto first = duplicate.begin() + 1;
-            std::copy(
-                std::copy_if(
-                    duplicate.front() + 1, duplicate.back(), duplicate.front() + 1,
-                    [&](unsigned & i) {
-                        bool ret = *first != &i;
-                        while (*first < &i) {
-                            ++first;
-                        }
-                        return ret;
-                    }
-                ),
-                &indexes.back(), duplicate.back()
-            );
+            std::cout << " ## duplicate.size(): " << (last - out) << std::endl;
+            indexes.erase(out, last);
         }
 
         utils::reindex(indexes, glyphs);
diff --git a/src/ppocr/utils/reindex.hpp b/src/ppocr/utils/reindex.hpp
index 3c263a2..a3aea9d 100644
--- a/src/ppocr/utils/reindex.hpp
+++ b/src/ppocr/utils/reindex.hpp
@@ -28,7 +28,7 @@ namespace utils {
 template<class Index, class T>
 void reindex(std::vector<Index> const & indexes, std::vector<T> & cont) {
     std::vector<T> new_cont;
-    new_cont.resize(cont.size());
+    new_cont.resize(indexes.size());
     auto it = new_cont.begin();
     for (auto i : indexes) {
         *it = std::move(cont[i]);
-- 
2.43.0


From 5664c6626fe7c336c3b5c45b4afc617bc398910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:16 +0000
Subject: [PATCH 30/32] fix: buffers for a glyph image of 2^31 pixels or more
 were too small (area * 2 overflowed)

---
 src/ppocr/ocr2/image_context.hpp          | 2 +-
 src/ppocr/strategies/utils/count_zone.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ppocr/ocr2/image_context.hpp b/src/ppocr/ocr2/image_context.hpp
index 65d4f18..b54b905 100644
--- a/src/ppocr/ocr2/image_context.hpp
+++ b/src/ppocr/ocr2/image_context.hpp
@@ -56,7 +56,7 @@ private:
 
 
     void reserve(Bounds const & bnd) {
-        auto const new_sz = bnd.area() * 2;
+        auto const new_sz = std::size_t(bnd.area()) * 2;
         this->img_.release().release();
         if (new_sz > this->capacity_sz_) {
             this->data_.reset(new ppocr::Pixel[new_sz]);
diff --git a/src/ppocr/strategies/utils/count_zone.hpp b/src/ppocr/strategies/utils/count_zone.hpp
index 5eba428..4c12d95 100644
--- a/src/ppocr/strategies/utils/count_zone.hpp
+++ b/src/ppocr/strategies/utils/count_zone.hpp
@@ -105,7 +105,7 @@ namespace ppocr { namespace strategies { namespace utils
 
         void alloc(unsigned count_zone)
         {
-            _buffer.alloc_and_init_to_zero(count_zone * 4);
+            _buffer.alloc_and_init_to_zero(std::size_t(count_zone) * 4);
             _count_zone = count_zone;
         }
 
@@ -160,7 +160,7 @@ namespace ppocr { namespace strategies { namespace utils
 
         unsigned* data(unsigned d) const
         {
-            return _buffer.data() + _count_zone * d;
+            return _buffer.data() + std::size_t(_count_zone) * d;
         }
     };
 
@@ -180,7 +180,7 @@ namespace ppocr { namespace strategies { namespace utils
 
     inline void count_zone_fn::compute(const Image& img)
     {
-        unsigned* mirror = _buffer.alloc_and_init_to_zero(img.area() * 2 + 2);
+        unsigned* mirror = _buffer.alloc_and_init_to_zero(std::size_t(img.area()) * 2 + 2);
         unsigned* const stack = mirror + img.area();
 
         unsigned count_zone = 1;
-- 
2.43.0


From 8f4c8f06e8e1d4a696d4d72d36e7fb5fac6633e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:16 +0000
Subject: [PATCH 31/32] fix: the proportionality of an image divided by zero
 when width + height overflows

---
 src/ppocr/strategies/proportionality.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality.cpp b/src/ppocr/strategies/proportionality.cpp
index 3d4c77f..6d1963c 100644
--- a/src/ppocr/strategies/proportionality.cpp
+++ b/src/ppocr/strategies/proportionality.cpp
@@ -19,10 +19,14 @@
 #include "ppocr/strategies/proportionality.hpp"
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
 
 namespace ppocr { namespace strategies {
 
 proportionality::value_type proportionality::load(Image const & img, Image const & /*img90*/, ctx_type& /*ctx*/)
-{ return img.width() * 100 / (img.width() + img.height()); }
+{
+    std::uint64_t const width = img.width();
+    return static_cast<value_type>(width * 100 / (width + img.height()));
+}
 
 } }
-- 
2.43.0


From 5ae5aa8c11ad90328179b40bfa880a628ded0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 32/32] fix: extract_text read an unknown character that came
 back differently from its first occurrence

---
 main/extract_text6.cpp | 4 +---
 main/extract_text8.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/main/extract_text6.cpp b/main/extract_text6.cpp
index d4ddee8..76de17b 100644
--- a/main/extract_text6.cpp
+++ b/main/extract_text6.cpp
@@ -643,7 +643,6 @@ void compute_image(
     if (o.tmp_probabilities.empty()) {
         o.result2 += '_';
         o.ambiguous.push_back({});
-        cache_element.second.push_back({"_"});
     }
     else if (o.tmp_probabilities[0].prob >= 1/* && tmp_probabilities.size() == 1*/) {
         o.result2 += get_word(o.tmp_probabilities[0]);
@@ -665,7 +664,6 @@ void compute_image(
         if (o.probabilities.empty()) {
             o.result2 += '_';
             o.ambiguous.push_back({});
-            cache_element.second.push_back({"_"});
         }
         else {
             auto prob_limit = o.probabilities.front().prob;
@@ -817,7 +815,7 @@ int main(int ac, char **av)
         auto it = compute_image_data.sorted_img.find(img_word);
         if (it != compute_image_data.sorted_img.end()) {
             compute_image_data.result1 += it->second.first;
-            compute_image_data.result2 += it->second.second.front();
+            compute_image_data.result2 += it->second.second.empty() ? "_" : it->second.second.front();
             compute_image_data.ambiguous.push_back(it->second.second);
             compute_image_data.result1 += ' ';
             compute_image_data.result2 += ' ';
diff --git a/main/extract_text8.cpp b/main/extract_text8.cpp
index ee73441..45c0208 100644
--- a/main/extract_text8.cpp
+++ b/main/extract_text8.cpp
@@ -475,7 +475,6 @@ void compute_image(
     if (o.tmp_probabilities.empty()) {
         o.result2 += '_';
         o.ambiguous.push_back({});
-        cache_element.second.push_back({"_"});
     }
     else if (o.tmp_probabilities[0].prob >= 1/* && tmp_probabilities.size() == 1*/) {
         o.result2 += get_word(o.tmp_probabilities[0]);
@@ -497,7 +496,6 @@ void compute_image(
         if (o.probabilities.empty()) {
             o.result2 += '_';
             o.ambiguous.push_back({});
-            cache_element.second.push_back({"_"});
         }
         else {
             auto prob_limit = o.probabilities.front().prob;
@@ -696,7 +694,7 @@ int main(int ac, char **av)
         auto it = compute_image_data.sorted_img.find(img_word);
         if (it != compute_image_data.sorted_img.end()) {
             compute_image_data.result1 += it->second.first;
-            compute_image_data.result2 += it->second.second.front();
+            compute_image_data.result2 += it->second.second.empty() ? "_" : it->second.second.front();
             compute_image_data.ambiguous.push_back(it->second.second);
             compute_image_data.result1 += ' ';
             compute_image_data.result2 += ' ';
-- 
2.43.0

