From 01cf415e24150e6b53eb8d4bcb547c10de6f774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 01/44] fix: converting an empty CSV field or JSON leaf to a
 number returned an uninitialised value

---
 source/parser/csv.hpp  | 4 ++--
 source/parser/json.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d3a9eaf..880f625 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -120,7 +120,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
@@ -380,7 +380,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            T t;
+            T t{};
             _tc.template operator()<T>(s, t);
             ret[i] = t;
         }
diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 0f1f32a..d2faea2 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -590,7 +590,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
-- 
2.43.0


From 6d56b2df29eef3c2e40f647b194cdeef1e49a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 02/44] fix: CSV ignored an unterminated last row and failed on
 files without newline

---
 source/parser/csv.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 880f625..5c3d8f5 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -661,6 +661,13 @@ public:
             std::count(std::istream_iterator<char>(file), 
                 std::istream_iterator<char>(), '\n'));
         file.clear();
+
+        // The last line is a row even if it is not newline terminated.
+        if (file.seekg(-1, std::ios::end) && file.peek() != '\n')
+        {
+            ++_rows_amount;
+        }
+        file.clear();
         file.seekg(0);
 
         // Get first two lines.
@@ -730,10 +737,14 @@ public:
      */
     CSVRow operator[](std::size_t idx)
     {
-        // Manage row saved in cache.
-        if (_row_cache.idx() == idx) return _row_cache;
+        if (_rows_amount == 0)
+        {
+            throw std::runtime_error("operator[] failed: empty CSV file");
+        }
         // Handle overflow with a circular indexing.
         idx = idx % _rows_amount; 
+        // Manage row saved in cache.
+        if (_row_cache.idx() == idx) return _row_cache;
 
         auto file = std::ifstream{_fn};
         // file.seekg(_row_header._line.size() + 1);
@@ -889,7 +900,7 @@ public:
 
     SizeType entries_amount() const override
     {
-        return rows_size() - 1;
+        return rows_size() == 0 ? 0 : rows_size() - 1;
     }
 
     SizeType feature_size() const override
-- 
2.43.0


From 0026f960f986136c1d15a77aecb92dccdd6cac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 03/44] fix: CSV begin()..end() skipped the last row, iterator
 could not move back from the end

---
 source/parser/csv.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 5c3d8f5..6f7c0e7 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -587,6 +587,7 @@ private:
         if (_req_row_idx < _row._idx) 
         {
             _row._idx = 0;
+            _stream.clear();
             _stream.seekg(0);
             std::getline(_stream, _row._line);
         }
@@ -771,12 +772,12 @@ public:
     }
     
     /**
-     * \brief Get the last CSVIterator.
+     * \brief Get the past-the-end CSVIterator: one position after the last row.
      * \return CSVIterator
      */
     CSVIterator end()
     { 
-        return CSVIterator{_fn, _rows_amount - 1, _cols_amount, _types, 
+        return CSVIterator{_fn, std::max<std::size_t>(_rows_amount, 1), _cols_amount, _types,
                            _separator}; 
     }
 
-- 
2.43.0


From 842b50e02084bcc4a9424bc6c0b909b112c93166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 04/44] fix: CSVRow index access threw on an empty last field

---
 source/parser/csv.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 6f7c0e7..f4f284e 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -290,6 +290,13 @@ public:
             i++;
         }
 
+        // A line that is empty or ends with the separator has a last empty
+        // field that is not extracted by getline.
+        if (i == idx && (_line.empty() || _line.back() == _separator))
+        {
+            return CSVField{std::string{}, _types.at(idx), idx};
+        }
+
         throw std::runtime_error("CSV bad format: fields missing");
     }
 
-- 
2.43.0


From eb41caba2018a0a97f27ef76f374c9f5bc087d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 05/44] fix: assigning a CSVField overwrote the column type of
 its CSV

---
 source/parser/csv.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index f4f284e..1710d29 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -69,6 +69,7 @@ public:
         if (_type == TypeChecker::Type::AUTO)
         {
             _type = _tc(_field);
+            type = _type;
         }
     }
 
@@ -139,7 +140,7 @@ public:
 
 private:
     std::string _field;     ///< CSV field string.
-    TypeChecker::Type& _type;            ///< CSV field type.
+    TypeChecker::Type _type;             ///< CSV field type.
     std::size_t _col_index; ///> CSV field column index.
 };
 
-- 
2.43.0


From 3240984531f778984c9bd39a8d6eec653420dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 06/44] fix: copies of a CSV referred to the types list of the
 copied object

---
 source/parser/csv.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 1710d29..e9a5ea6 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -710,6 +710,32 @@ public:
         file.close();
     }
 
+    /**
+     * \brief Construct a new CSV object by copy.
+     * \param obj Object to copy.
+     * The rows of the copy refer to the types list of the copy.
+     */
+    CSV(const CSV& obj)
+        : DatasetParser(obj)
+        , _fn{obj._fn}
+        , _types{obj._types}
+        , _row_header{obj._row_header._line, obj._row_header._idx,
+                      obj._cols_amount, _types, obj._separator}
+        , _row_cache{obj._row_cache._line, obj._row_cache._idx,
+                     obj._cols_amount, _types, obj._separator}
+        , _cols_amount{obj._cols_amount}
+        , _rows_amount{obj._rows_amount}
+        , _separator{obj._separator}
+        , _labels_idx{obj._labels_idx}
+    { }
+
+    /**
+     * \brief Assignment operator.
+     * \param obj Object to assign.
+     * \return CSV& The updated object.
+     */
+    CSV& operator=(const CSV& obj) = default;
+
     /**
      * \brief Destroy the CSV object.
      */
-- 
2.43.0


From 14df1ab2fe351cfb13d55cc87c024940169dcb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 07/44] fix: one-hot encoding misplaced the inputs when labels
 are not the last columns

An input column after a label column kept its original position, so it was
overwritten by the one-hot vectors (or written past the end of the entry).
---
 source/parser/parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/parser/parser.hpp b/source/parser/parser.hpp
index 57502ae..a82906a 100644
--- a/source/parser/parser.hpp
+++ b/source/parser/parser.hpp
@@ -245,14 +245,16 @@ public:
                 {
                     auto row = entry(row_idx);
 
-                    // Copy the input.
+                    // Copy the input, leaving out the label columns.
+                    SizeType input_idx = 0;
                     for (SizeType col_idx = 0; col_idx < feature_size();
                          ++col_idx)
                     {
                         if (label_indexes.find(
                             col_idx) == label_indexes.end())
                         {
-                            ret[row_idx * entry_size + col_idx] = row[col_idx];
+                            ret[row_idx * entry_size + input_idx++]
+                                = row[col_idx];
                         }
                     }
 
-- 
2.43.0


From ccc93d99380972a018e5482d716babe69a576cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 08/44] fix: truncated MNIST files were read as data, and made
 later reads fail

A short header was used uninitialised, a record beyond the end of the file was
returned as zeros, and the error state it left in the stream turned every later
read into zeros too. An empty dataset divided by zero.
---
 source/parser/mnist.hpp | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 558d760..44a7cb0 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -72,9 +72,12 @@ static inline std::uint32_t& uint32_endian_order(std::uint32_t& i)
  */
 static inline uint32_t read_uint32_endian_order(std::ifstream& ifs)
 {
-    std::uint32_t ret;
+    std::uint32_t ret = 0;
     char* buf = reinterpret_cast<char*>(&ret);
-    ifs.read(buf, 4);
+    if (!ifs.read(buf, 4))
+    {
+        throw std::runtime_error("Data malformed: unexpected end of header");
+    }
     uint32_endian_order(ret);
     return ret;
 }
@@ -370,10 +373,16 @@ public:
      */
     MnistImage image(std::size_t idx)
     {
-        idx = idx % _size;
+        idx = _wrap(idx);
+        _image_ifs.clear();
         _image_ifs.seekg(static_cast<std::int64_t>(
             IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
-        return MnistImage{_image_ifs, idx};
+        auto ret = MnistImage{_image_ifs, idx};
+        if (!_image_ifs)
+        {
+            throw std::runtime_error("Images malformed: unexpected end of data");
+        }
+        return ret;
     }
 
     /**
@@ -383,10 +392,16 @@ public:
      */
     MnistLabel label(std::size_t idx)
     {
-        idx = idx % _size;
+        idx = _wrap(idx);
+        _label_ifs.clear();
         _label_ifs.seekg(static_cast<std::int64_t>(
             LABEL_HEADER_SIZE + idx), _label_ifs.beg);
-        return MnistLabel{_label_ifs, idx};
+        auto ret = MnistLabel{_label_ifs, idx};
+        if (!_label_ifs)
+        {
+            throw std::runtime_error("Labels malformed: unexpected end of data");
+        }
+        return ret;
     }
 
     /**
@@ -424,6 +439,20 @@ public:
     }
 
 private:
+    /**
+     * \brief Wrap an index in the range of the dataset entries.
+     * \param idx The index to wrap.
+     * \return std::size_t The index modulo the amount of entries.
+     */
+    std::size_t _wrap(std::size_t idx) const
+    {
+        if (_size == 0)
+        {
+            throw std::runtime_error("Data malformed: the dataset is empty");
+        }
+        return idx % _size;
+    }
+
     /**
      * \brief Check if the Mnist file stream is malformed in relation to the
      * number to compare.
-- 
2.43.0


From 9a5cd9a990469d35d945f1d88bb37a13f90d42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 09/44] fix: truncated CIFAR files were read as data, and made
 later reads fail

---
 source/parser/cifar.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 59a5089..a5fb884 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -484,12 +484,18 @@ public:
     CifarImage image(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(
             static_cast<std::int64_t>(
                 (idx * (height() * width() * channels() + _label_offset))
                 + _label_offset),
             _batch_ifs.beg);
-        return CifarImage{_batch_ifs, idx, _order};
+        auto ret = CifarImage{_batch_ifs, idx, _order};
+        if (!_batch_ifs)
+        {
+            throw std::runtime_error("Images malformed: unexpected end of data");
+        }
+        return ret;
     }
 
     /**
@@ -500,10 +506,16 @@ public:
     CifarLabel label(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(static_cast<std::int64_t>(
             idx * (height() * width() * channels() + _label_offset)),
             _batch_ifs.beg);
-        return CifarLabel{_batch_ifs, idx, _dataset};
+        auto ret = CifarLabel{_batch_ifs, idx, _dataset};
+        if (!_batch_ifs)
+        {
+            throw std::runtime_error("Labels malformed: unexpected end of data");
+        }
+        return ret;
     }
 
     /**
-- 
2.43.0


From 6649b9fd5399fae1b43b72f1f7d918d03f120c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 10/44] fix: perceived brightness multiplied the green and blue
 terms

The result exceeded the range of a pixel for most colours.
---
 source/parser/cifar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index a5fb884..8d8f723 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -68,7 +68,7 @@ enum class CifarShapeOrder
 static std::uint8_t perception_brightness(
     std::uint8_t r, std::uint8_t g, std::uint8_t b)
 {
-    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 * b * 0.07);
+    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 + b * 0.07);
 }
 
 /**
-- 
2.43.0


From 7bfedfe97cc67a1e41ef01c11376a160f13d6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 11/44] fix: reading JSON mishandled empty lists and dicts and
 never ended on malformed text

"[]" was read as a list of one item and "{}" swallowed what follows. A missing
bracket or quote made the reader loop or recurse forever, using uninitialised
characters; it is now reported. A document also consumed the comma after it.
---
 source/parser/json.hpp | 102 +++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 60 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index d2faea2..f09fef7 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1488,31 +1488,24 @@ inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
 {
-    char c;
-    os.read(&c, 1);
-    if (c == '\"')
+    if (os.peek() == '\"')
     {
+        os.get();
         obj._type = TypeChecker::Type::STRING;
-        std::getline(os, obj._val, '\"');
-        if (!os.eof())
+        if (!std::getline(os, obj._val, '\"') || os.eof())
         {
-            os.read(&c, 1);
-            if (c != ',') os.seekg(-1, os.cur);
+            throw std::runtime_error("JSON malformed: unterminated string");
         }
     }
     else
     {
-        os.seekg(-1, os.cur);
-        std::getline(os, obj._val, ',');
-        auto obj_val_len = obj._val.size();
-        auto pos_square = obj._val.find(']');
-        auto pos_bracket = obj._val.find('}');
-        auto pos = std::min(pos_square, pos_bracket);
-        if (pos != std::string::npos)
+        obj._val.clear();
+        while (os.good())
         {
-            obj._val = obj._val.substr(0, pos);
-            if (!os.eof()) os.seekg(-1, os.cur); // ','
-            os.seekg(-long(obj_val_len - pos), os.cur);
+            auto c = os.peek();
+            if (c == std::istream::traits_type::eof()
+                || c == ',' || c == ']' || c == '}') break;
+            obj._val += static_cast<char>(os.get());
         }
         obj._type = obj._tc(obj._val);
     }
@@ -1537,33 +1530,28 @@ inline std::ostream& operator<<(std::ostream& os, const JsonList& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonList& obj)
 {
-    char c;
-    os.read(&c, 1);
+    if (os.get() != '[')
+    {
+        throw std::runtime_error("JSON malformed: list expected");
+    }
+    if (os.peek() == ']')
+    {
+        os.get();
+        return os;
+    }
 
-    std::string more_items;
     while (true) {
-        std::getline(os, more_items, ']');
-        os.seekg(-long(more_items.size() + 1), os.cur);
         JsonItem ji;
         os >> ji;
         obj._list.push_back(ji);
 
-        os.read(&c, 1);
-        if (c == ']')
-        {
-            break;
-        }
-        else
+        auto c = os.get();
+        if (c == ']') break;
+        if (c != ',')
         {
-            os.seekg(-1, os.cur);
+            throw std::runtime_error("JSON malformed: unterminated list");
         }
     }
-
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
     return os;
 }
 
@@ -1585,39 +1573,36 @@ inline std::ostream& operator<<(std::ostream& os, const JsonDict& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonDict& obj)
 {
-    char c;
-    os.read(&c, 1);
+    if (os.get() != '{')
+    {
+        throw std::runtime_error("JSON malformed: dict expected");
+    }
+    if (os.peek() == '}')
+    {
+        os.get();
+        return os;
+    }
 
-    std::string more_items;
     while (true)
     {
-        std::getline(os, more_items, '}');
-        os.seekg(-long(more_items.size() + 1), os.cur);
-        os.read(&c, 1);
         std::string key;
-        std::getline(os, key, '\"');
-        os.read(&c, 1);
+        if (os.get() != '\"' || !std::getline(os, key, '\"') || os.eof()
+            || os.get() != ':')
+        {
+            throw std::runtime_error("JSON malformed: key expected");
+        }
 
         JsonItem ji;
         os >> ji;
         obj._map[key] = ji;
 
-        os.read(&c, 1);
-        if (c == '}')
+        auto c = os.get();
+        if (c == '}') break;
+        if (c != ',')
         {
-            break;
-        }
-        else
-        {
-            os.seekg(-1, os.cur);
+            throw std::runtime_error("JSON malformed: unterminated dict");
         }
     }
-
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
     return os;
 }
 
@@ -1629,10 +1614,7 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
-    char c;
-    os.read(&c, 1);
-    os.seekg(-1, os.cur);
-    switch(c)
+    switch(os.peek())
     {
         case '[':
         {
-- 
2.43.0


From 8be530b8debbeb699f9de045ee63fbae0264c8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 12/44] fix: comparing an empty JsonItem dereferenced a null
 pointer

---
 source/parser/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index f09fef7..8c7e415 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1712,6 +1712,7 @@ inline bool JsonDict::operator==(const JsonDict& rhs) const
 
 inline bool JsonItem::operator==(const JsonItem& rhs) const
 {
+    if (!_value || !rhs._value) return !_value && !rhs._value;
     return *_value == *rhs._value;
 }
 
-- 
2.43.0


From 5b0e90976935507862c62ff08d93521b73a3eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 13/44] fix: an empty value was written to JSON as nothing, so
 that [""] became []

---
 source/parser/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 8c7e415..e0a849b 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1475,7 +1475,7 @@ inline std::istream& operator>>(std::istream& os, JsonObject& obj)
 
 inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 {
-    if (obj._type == TypeChecker::Type::STRING)
+    if (obj._type == TypeChecker::Type::STRING || obj._val.empty())
     {
         os << "\"" << obj._val << "\"";
     }
-- 
2.43.0


From 928d5a17c45dd0bf7383efc01c1bb81e4b539744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 14/44] fix: a matrix dataset kept entries of an incomplete
 last sequence it has no data for

---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b1ea7ea..0f8802c 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -174,7 +174,8 @@ public:
         }
         _sequence_amount = _feature_amount 
             / std::max(_sequence_size, SizeType(1));
-        _dataset_size = _sequence_amount * _sequence_size * _feature_size;
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
 
         // Init indexes set.
-- 
2.43.0


From dc7e1932da741fb9476d17e6da9518f3942c62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 15/44] fix: setting the sequence size of an empty dataset, or
 to zero, divided by zero

---
 source/data/dataset.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 0f8802c..1c66d62 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -341,9 +341,10 @@ public:
     void sequence_size(SizeType s)
     {
         _sequence_size = std::min(s, _feature_amount);
-        _sequence_amount = _feature_amount / _sequence_size;
-        _dataset_size = _sequence_size * _sequence_amount * _feature_size;
-        _feature_amount = _dataset_size / _feature_size;
+        _sequence_amount = _feature_amount
+            / std::max(_sequence_size, SizeType(1));
+        _feature_amount = _sequence_size * _sequence_amount;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
     }
     const SizeType& sequence_size() const { return _sequence_size; };
-- 
2.43.0


From fe078d152d50e4c23b3582b3344d15ff2ecebd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 16/44] fix: splitting an empty dataset converted a
 not-a-number to an index

---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 1c66d62..b6e0424 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -580,7 +580,8 @@ public:
         if (perc < 0.0) perc = 0.0;
         auto to = static_cast<SizeType>(perc
             * static_cast<NumType>(_feature_amount)
-            / static_cast<NumType>(_sequence_size)) * _sequence_size;
+            / static_cast<NumType>(std::max(_sequence_size, SizeType(1))))
+            * _sequence_size;
         return SplitDataset(subdata(0, to), subdata(to, _feature_amount));
     }
 
-- 
2.43.0


From 83b892310317637c0453869c8ae4a76f8b8b19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 17/44] fix: min-max normalization of a constant column gave
 not-a-number

---
 source/data/dataset.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b6e0424..6c3ede9 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -637,6 +637,8 @@ public:
 
     Dataset<T>& min_max_normalization()
     {
+        if (empty()) return *this;
+
         std::vector<T> min_vec(static_cast<std::size_t>(_feature_size));
         std::vector<T> max_vec(static_cast<std::size_t>(_feature_size));
 
@@ -663,9 +665,10 @@ public:
         {
             for (std::size_t col = 0; col < _feature_size; ++col)
             {
-                _data[row * _feature_size + col]
-                    = (_data[row * _feature_size + col] - min_vec[col])
-                        / (max_vec[col] - min_vec[col]);
+                auto range = max_vec[col] - min_vec[col];
+                auto& value = _data[row * _feature_size + col];
+                value = range == T(0)
+                    ? T(0) : (value - min_vec[col]) / range;
             }
         }
         return *this;
-- 
2.43.0


From 65c25fbe3e0791d53f737c166867fff50d2ac574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 18/44] fix: the convolutional layer never added its biases

---
 source/dnn/convolutional.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index b1302d1..5bea8f2 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -106,6 +106,12 @@ const std::vector<NumType>& ConvolutionalLayer::forward(
         _shared_fields->input_shape().shape(),
         _weights.data(), _kernel_shape, _n_filters, _stride, _padding);
 
+    // Add the bias of each filter.
+    for (SizeType i = 0; i < _output_activations.size(); ++i)
+    {
+        _output_activations[i] += _biases[i % _n_filters];
+    }
+
     return FeedforwardLayer::forward(_output_activations);
 }
 
-- 
2.43.0


From c16b275b041ce15bc9e6959ea5f07dddc9105163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 19/44] fix: the convolutional layer did not accumulate the
 bias gradients

---
 source/dnn/convolutional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index 5bea8f2..1c3b64d 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -135,7 +135,7 @@ const std::vector<NumType>& ConvolutionalLayer::backward(
                 sum += gradients[r * step + c * _n_filters + f];
             }
         }
-        _bias_gradients[f] = sum;
+        _bias_gradients[f] += sum;
     }
 
     /*
-- 
2.43.0


From 07013c5acfcb69d9e53bbc46dfa8788280416a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 20/44] fix: max pooling sent the gradient of a window's first
 element to element zero

---
 source/dnn/max_pooling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/max_pooling.cpp b/source/dnn/max_pooling.cpp
index 438d6ff..ab7e7cb 100644
--- a/source/dnn/max_pooling.cpp
+++ b/source/dnn/max_pooling.cpp
@@ -72,7 +72,8 @@ const std::vector<NumType>& MaxPoolingLayer::backward(
 
             NumType max = src[row * static_cast<int64_t>(src_step)
                               + col + static_cast<int64_t>(c)];
-            int64_t max_row = 0, max_col = 0;
+            int64_t max_row = row * static_cast<int64_t>(src_step);
+            int64_t max_col = col + static_cast<int64_t>(c);
             for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
-- 
2.43.0


From 741f6938adc6128c4469d7929d0fccc97a506267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 21/44] fix: average pooling dropped the gradient of a window's
 first element

---
 source/dnn/avg_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/avg_pooling.cpp b/source/dnn/avg_pooling.cpp
index 22956ce..062814a 100644
--- a/source/dnn/avg_pooling.cpp
+++ b/source/dnn/avg_pooling.cpp
@@ -71,7 +71,7 @@ const std::vector<NumType>& AveragePoolingLayer::backward(
                 + dst_coord.col * src_shape.channels()
                 + c] / static_cast<NumType>(k_shape.width() * k_shape.height());
 
-            for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
+            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
                 auto col_k = k_i % k_shape.width();
-- 
2.43.0


From 3489011b02f64f756958dc6eca330efd381b07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 22/44] fix: dropout inference did not update the layer output,
 predictions were stale

---
 source/dnn/dropout.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dropout.hpp b/source/dnn/dropout.hpp
index 915284f..646e835 100644
--- a/source/dnn/dropout.hpp
+++ b/source/dnn/dropout.hpp
@@ -70,7 +70,8 @@ public:
         const std::vector<NumType>& inputs) override
     {
         _last_input = inputs.data();
-        return FeedforwardLayer::forward(inputs);
+        _output_activations = inputs;
+        return FeedforwardLayer::forward(_output_activations);
     }
 
     /**
-- 
2.43.0


From 28d9ced4840f5508c3285b7dd595f4e3d3bc9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 23/44] fix: the runs of a graph visited a layer before some of
 the layers it depends on

---
 source/dnn/dlgraph.cpp | 144 ++++++++++++++++++-----------------------
 source/dnn/dlgraph.hpp |   8 +++
 2 files changed, 71 insertions(+), 81 deletions(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 3c95613..334c654 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -380,95 +380,17 @@ std::vector<SizeType> DLGraph::loss_layers_idx() const
 
 std::vector<DLGraph::Arc> DLGraph::training_forward_run() const
 {
-    std::vector<DLGraph::Arc> ret;
-    std::vector<SizeType> layers_idx(_input_layers_idx);
-    std::vector<SizeType> done_list;
-    while(!layers_idx.empty())
-    {
-        auto curr_layers_idx = layers_idx;
-        layers_idx.clear();
-        for (auto from_layer_idx: curr_layers_idx)
-        {
-            for (const auto& to_layer_idx: training_forward(from_layer_idx))
-            {
-                DLGraph::Arc arc;
-                arc.from = _layers[from_layer_idx];
-                arc.to   = _layers[to_layer_idx];
-                ret.push_back(arc);
-
-                done_list.push_back(from_layer_idx);
-                if (DLMath::index_of(curr_layers_idx, to_layer_idx) == -1
-                    && DLMath::index_of(done_list, to_layer_idx) == -1
-                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)
-                {
-                    layers_idx.push_back(to_layer_idx);
-                }
-            }
-        }
-    }
-    return ret;
+    return _run(_training_forward_graph, _input_layers_idx);
 }
 
 std::vector<DLGraph::Arc> DLGraph::forward_run() const
 {
-    std::vector<DLGraph::Arc> ret;
-    std::vector<SizeType> layers_idx(_input_layers_idx);
-    std::vector<SizeType> done_list;
-    while(!layers_idx.empty())
-    {
-        auto curr_layers_idx = layers_idx;
-        layers_idx.clear();
-        for (auto from_layer_idx: curr_layers_idx)
-        {
-            for (const auto& to_layer_idx: forward(from_layer_idx))
-            {
-                DLGraph::Arc arc;
-                arc.from = _layers[from_layer_idx];
-                arc.to   = _layers[to_layer_idx];
-                ret.push_back(arc);
-
-                done_list.push_back(from_layer_idx);
-                if (DLMath::index_of(curr_layers_idx, to_layer_idx) == -1
-                    && DLMath::index_of(done_list, to_layer_idx) == -1
-                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)
-                {
-                    layers_idx.push_back(to_layer_idx);
-                }
-            }
-        }
-    }
-    return ret;
+    return _run(_forward_graph, _input_layers_idx);
 }
 
 std::vector<DLGraph::Arc> DLGraph::backward_run() const
 {
-    std::vector<DLGraph::Arc> ret;
-    std::vector<SizeType> layers_idx(_loss_layers_idx);
-    std::vector<SizeType> done_list;
-    while(!layers_idx.empty())
-    {
-        auto curr_layers_idx = layers_idx;
-        layers_idx.clear();
-        for (auto from_layer_idx: curr_layers_idx)
-        {
-            for (const auto& to_layer_idx: backward(from_layer_idx))
-            {
-                DLGraph::Arc arc;
-                arc.from = _layers[from_layer_idx];
-                arc.to   = _layers[to_layer_idx];
-                ret.push_back(arc);
-
-                done_list.push_back(from_layer_idx);
-                if (DLMath::index_of(curr_layers_idx, to_layer_idx) == -1
-                    && DLMath::index_of(done_list, to_layer_idx) == -1
-                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)
-                {
-                    layers_idx.push_back(to_layer_idx);
-                }
-            }
-        }
-    }
-    return ret;
+    return _run(_backward_graph, _loss_layers_idx);
 }
 
 SizeType DLGraph::size() const
@@ -524,4 +446,64 @@ void DLGraph::_compute_output_layers()
     }
 }
 
+std::vector<DLGraph::Arc> DLGraph::_run(
+    const Graph<std::shared_ptr<Layer>>& graph,
+    const std::vector<SizeType>& roots_idx) const
+{
+    // Layers reached from the roots, in breadth-first order.
+    std::vector<SizeType> reached(roots_idx);
+    for (std::size_t i = 0; i < reached.size(); ++i)
+    {
+        for (const auto& to_layer_idx: graph.successors(reached[i]))
+        {
+            if (DLMath::index_of(reached, to_layer_idx) == -1)
+            {
+                reached.push_back(to_layer_idx);
+            }
+        }
+    }
+
+    // Arcs, where a layer comes after all the layers it depends on. If there
+    // is a cycle, the first layer that is left is taken.
+    std::vector<DLGraph::Arc> ret;
+    std::vector<SizeType> done_list;
+    while (done_list.size() < reached.size())
+    {
+        auto next = reached.cend();
+        for (auto it = reached.cbegin(); it != reached.cend(); ++it)
+        {
+            if (DLMath::index_of(done_list, *it) != -1) continue;
+            if (next == reached.cend()) next = it;
+
+            bool ready = true;
+            for (const auto& from_layer_idx: graph.predecessors(*it))
+            {
+                if (from_layer_idx != *it
+                    && DLMath::index_of(reached, from_layer_idx) != -1
+                    && DLMath::index_of(done_list, from_layer_idx) == -1)
+                {
+                    ready = false;
+                    break;
+                }
+            }
+            if (ready)
+            {
+                next = it;
+                break;
+            }
+        }
+
+        for (const auto& from_layer_idx: graph.predecessors(*next))
+        {
+            if (DLMath::index_of(reached, from_layer_idx) == -1) continue;
+            DLGraph::Arc arc;
+            arc.from = _layers[from_layer_idx];
+            arc.to   = _layers[*next];
+            ret.push_back(arc);
+        }
+        done_list.push_back(*next);
+    }
+    return ret;
+}
+
 } // namespace EdgeLearning
diff --git a/source/dnn/dlgraph.hpp b/source/dnn/dlgraph.hpp
index 7a49504..8bf9ce1 100644
--- a/source/dnn/dlgraph.hpp
+++ b/source/dnn/dlgraph.hpp
@@ -230,6 +230,14 @@ private:
     void _compute_input_layers();
     void _compute_output_layers();
 
+    /**
+     * \brief Arcs from the roots in dependency order: the arcs to a layer are
+     * adjacent and come after the arcs to each layer it depends on.
+     */
+    std::vector<Arc> _run(
+        const Graph<std::shared_ptr<Layer>>& graph,
+        const std::vector<SizeType>& roots_idx) const;
+
     std::vector<std::shared_ptr<Layer>> _layers;
     Graph<std::shared_ptr<Layer>> _forward_graph;
     Graph<std::shared_ptr<Layer>> _training_forward_graph;
-- 
2.43.0


From 485e8c15dc0f3b06704fa959b98f843180039d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 24/44] fix: the gradient of a layer that feeds several layers
 was the one of the last only

---
 source/dnn/model.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a575b10..a260a9f 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -218,9 +218,19 @@ void Model::step(const std::vector<NumType>& input,
     {
         loss_layer->backward(not_used);
     }
-    for (const auto& backward_arc: _state.backward_run)
+    const auto& run = _state.backward_run;
+    for (std::size_t i = 0; i < run.size();)
     {
-        backward_arc.to->backward(backward_arc.from->last_input_gradient());
+        // The gradient of a layer is the sum over the layers it feeds.
+        const auto& to = run[i].to;
+        auto gradients = run[i].from->last_input_gradient();
+        for (++i; i < run.size() && run[i].to == to; ++i)
+        {
+            DLMath::arr_sum(
+                gradients.data(), gradients.data(),
+                run[i].from->last_input_gradient().data(), gradients.size());
+        }
+        to->backward(gradients);
     }
 }
 
-- 
2.43.0


From 58a22e9def53c4abdc4e07f18c8d81fd4713cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:42 +0000
Subject: [PATCH 25/44] fix: a layer added to a graph without arcs was neither
 an input nor an output layer

---
 source/dnn/dlgraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 334c654..22dd5df 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -88,6 +88,8 @@ void DLGraph::add_node(std::shared_ptr<Layer> layer)
     }
 
     _layers.push_back(layer);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 void DLGraph::add_edge(std::shared_ptr<Layer> from, std::shared_ptr<Layer> to)
@@ -189,8 +191,12 @@ void DLGraph::add_arc_backward(
 
 void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
 {
+    if (index_of(*layer) != -1) return;
+
     add_node(layer);
     _loss_layers_idx.push_back(_layers.size() - 1);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 bool DLGraph::has_training_forward(std::size_t layer_idx) const
-- 
2.43.0


From b05ba56bede0e9632a59112704cb5afef8035ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:42 +0000
Subject: [PATCH 26/44] fix: an assigned model listed layers that its graph
 does not contain

---
 source/dnn/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a260a9f..5dc9c57 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -62,6 +62,9 @@ void swap(Model& lop, Model& rop)
     using std::swap;
     swap(lop._shared_fields, rop._shared_fields);
     swap(lop._state, rop._state);
+    // The graph clones its layers when it is assigned.
+    lop._state.update();
+    rop._state.update();
 }
 
 void Model::create_back_arc(
-- 
2.43.0


From 965058731d1ab0d259f1a50a9788753292cafe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:33 +0000
Subject: [PATCH 27/44] fix: the alpha of an ELU layer was not dumped nor
 loaded

---
 source/dnn/activation.cpp | 18 ++++++++++++++++++
 source/dnn/activation.hpp |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/source/dnn/activation.cpp b/source/dnn/activation.cpp
index 8509aa1..e8ae70b 100644
--- a/source/dnn/activation.cpp
+++ b/source/dnn/activation.cpp
@@ -130,6 +130,24 @@ const std::vector<NumType>& EluLayer::backward(
                     gradients.data(), size);
     return ActivationLayer::backward(_input_gradients);
 }
+
+Json EluLayer::dump() const
+{
+    Json out = ActivationLayer::dump();
+
+    Json others;
+    others["alpha"] = _alpha;
+    out[dump_fields.at(DumpFields::OTHERS)] = others;
+    return out;
+}
+
+void EluLayer::load(const Json& in)
+{
+    ActivationLayer::load(in);
+
+    _alpha = in.at(dump_fields.at(DumpFields::OTHERS))
+        .at("alpha").as<NumType>();
+}
 // =============================================================================
 
 // ================================ Softmax ====================================
diff --git a/source/dnn/activation.hpp b/source/dnn/activation.hpp
index fe73ccb..2cbd04d 100644
--- a/source/dnn/activation.hpp
+++ b/source/dnn/activation.hpp
@@ -143,6 +143,8 @@ public:
         const std::vector<NumType>& inputs) override;
     const std::vector<NumType>& backward(
         const std::vector<NumType>& gradients) override;
+    [[nodiscard]] Json dump() const override;
+    void load(const Json& in) override;
 private:
     NumType _alpha;
 };
-- 
2.43.0


From 524602fc99d8d1a15144815ffeac029a86447afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 28/44] fix: Adam mixed the moments and the timestamp of all
 the parameters

---
 source/dnn/adam_optimizer.cpp | 34 ++++++++++++++++++++++------------
 source/dnn/adam_optimizer.hpp | 16 +++++++++++++---
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/source/dnn/adam_optimizer.cpp b/source/dnn/adam_optimizer.cpp
index 0d84a63..dcb704c 100644
--- a/source/dnn/adam_optimizer.cpp
+++ b/source/dnn/adam_optimizer.cpp
@@ -35,43 +35,53 @@ AdamOptimizer::AdamOptimizer(
     , _beta_1{beta_1}
     , _beta_2{beta_2}
     , _epsilon{epsilon}
-    , _m{0.0}
-    , _v{0.0}
-    , _t{1}
+    , _moments{}
 { }
 
 void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
 {
     SizeType param_count = layer_to.param_count();
+    if (param_count == 0) return;
+
+    // The moments belong to the parameters, that clones of a layer share.
+    auto& moments = _moments[&layer_to.param(0)];
+    if (moments.m.size() != param_count)
+    {
+        moments.m.assign(param_count, NumType{0.0});
+        moments.v.assign(param_count, NumType{0.0});
+        moments.t = 1;
+    }
+    auto m_correction = 1 - std::pow(_beta_1, moments.t);
+    auto v_correction = 1 - std::pow(_beta_2, moments.t);
+
     for (SizeType i = 0; i < param_count; ++i)
     {
         NumType& param    = layer_to.param(i);
         NumType& gradient = layer_from.gradient(i);
+        NumType& m        = moments.m[i];
+        NumType& v        = moments.v[i];
 
         // beta 1 - Momentum optimizer.
-        _m = _beta_1 * _m + (1 - _beta_1) * gradient;
+        m = _beta_1 * m + (1 - _beta_1) * gradient;
 
         // beta 2 - RMSProp optimizer.
-        _v = _beta_2 * _v + (1 - _beta_2) * (gradient * gradient);
+        v = _beta_2 * v + (1 - _beta_2) * (gradient * gradient);
 
         // bias correction.
-        auto m_corrected = _m / (1 - std::pow(_beta_1, _t));
-        auto v_corrected = _v / (1 - std::pow(_beta_2, _t));
+        auto m_corrected = m / m_correction;
+        auto v_corrected = v / v_correction;
 
         param -= _eta * (m_corrected / (std::sqrt(v_corrected) + _epsilon));
 
-        ++_t;
-
         // Reset the gradient accumulated again in the next training epoch.
         gradient = NumType{0.0};
     }
+    ++moments.t;
 }
 
 void AdamOptimizer::reset()
 {
-    _t = 1;
-    _m = 0;
-    _v = 0;
+    _moments.clear();
 }
 
 } // namespace EdgeLearning
diff --git a/source/dnn/adam_optimizer.hpp b/source/dnn/adam_optimizer.hpp
index f362c19..9e74bb6 100644
--- a/source/dnn/adam_optimizer.hpp
+++ b/source/dnn/adam_optimizer.hpp
@@ -31,6 +31,9 @@
 
 #include "optimizer.hpp"
 
+#include <map>
+#include <vector>
+
 
 namespace EdgeLearning {
 
@@ -82,9 +85,16 @@ private:
     NumType _beta_2;  ///< \brief Exponential decay for the second moment.
     NumType _epsilon; ///< \brief A value near to zero.
 
-    NumType _m;  ///< \brief The first moment (momentum optimizer algorithm).
-    NumType _v;  ///< \brief The second moment (RMSProp optimizer algorithm).
-    SizeType _t; ///< \brief Incremental timestamp (temperature).
+    /// \brief State of the algorithm for the parameters of a layer.
+    struct Moments
+    {
+        std::vector<NumType> m; ///< \brief The first moment (momentum).
+        std::vector<NumType> v; ///< \brief The second moment (RMSProp).
+        SizeType t{1};          ///< \brief Incremental timestamp (temperature).
+    };
+
+    /// \brief State of each layer, identified by its first parameter.
+    std::map<const NumType*, Moments> _moments;
 };
 
 } // namespace EdgeLearning
-- 
2.43.0


From 86e9aea9981ab7c6e80bbae86797a18c96915496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 29/44] fix: parallel training updated the parameters that
 running steps were reading

---
 source/middleware/fnn.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 4aaacd0..94c539d 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -103,10 +103,11 @@ public:
                     std::cout << "step " << i << std::endl;
                 }
 
-                for (auto& f: futures) {
-                    Model m = f.get();
-                    model.train(o, m);
-                }
+                // The parameters are shared: update them when all is done.
+                std::vector<Model> models;
+                models.reserve(futures.size());
+                for (auto& f: futures) models.push_back(f.get());
+                for (auto& m: models) model.train(o, m);
             }
         }
     }
@@ -147,10 +148,11 @@ public:
                     i += batch_size;
                 }
 
-                for (auto& f: futures) {
-                    Model m = f.get();
-                    model.train(o, m);
-                }
+                // The parameters are shared: update them when all is done.
+                std::vector<Model> models;
+                models.reserve(futures.size());
+                for (auto& f: futures) models.push_back(f.get());
+                for (auto& m: models) model.train(o, m);
             }
         }
     }
-- 
2.43.0


From 521fc6679296b1df554c775e42571ca33d40a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 30/44] fix: batch parallel training applied updates of batches
 without entries

---
 source/middleware/fnn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 94c539d..534a944 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -129,7 +129,8 @@ public:
                 model.reset_score();
 
                 std::vector<BetterThreads::Future<Model>> futures;
-                for (SizeType t = 0; t < tm.concurrency(); ++t)
+                for (SizeType t = 0; t < tm.concurrency()
+                                     && i < data.size(); ++t)
                 {
                     futures.push_back(tm.enqueue(
                         [&, batch_size](SizeType idx)
-- 
2.43.0


From 90b7262cf0c02f45bb703ab263758e40bd640c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 31/44] fix: the tasks of dense_1_thread_opt raced on the input
 gradients

---
 source/dnn/dlmath.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9c24244..c255e93 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -1889,11 +1889,21 @@ public:
                     {
                         weight_gradients[(out_idx * input_size) + j] +=
                             gradients[out_idx] * last_input[j];
-                        input_gradients[j] +=
-                            gradients[out_idx] * weights[(out_idx * input_size) + j];
                     }
                 }, i));
         }
+        // Each task writes only its own elements.
+        for (SizeType j = 0; j < input_size; ++j)
+        {
+            futures.push_back(tm.enqueue(
+                [&](SizeType in_idx) {
+                    for (SizeType k = 0; k < output_size; ++k)
+                    {
+                        input_gradients[in_idx] +=
+                            gradients[k] * weights[(k * input_size) + in_idx];
+                    }
+                }, j));
+        }
         for (auto& f: futures) f.get();
         return input_gradients;
     }
-- 
2.43.0


From 966034a2977342faa66240fda9b160f3c659d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 32/44] fix: the recurrent layer derived the tanh of its hidden
 state twice

---
 source/dnn/recurrent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 073d064..9eaf5db 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -285,7 +285,8 @@ const std::vector<NumType>& RecurrentLayer::backward(
             case HiddenActivation::TanH:
             default:
             {
-                DLMath::tanh_1<NumType>(
+                // The hidden state already is the tanh.
+                DLMath::tanh_1_opt<NumType>(
                     next_hidden_state.data(), 
                     _hidden_state.data() + curr_hs_idx * _hidden_size, 
                     _hidden_size);
-- 
2.43.0


From 26aed5bbd2e33f82b651049acbaeed7c1adfb48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 33/44] fix: the recurrent layer lost the initial hidden state
 that a step depends on

---
 source/dnn/recurrent.cpp | 13 +++++++++++--
 source/dnn/recurrent.hpp |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 9eaf5db..c611e98 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -124,6 +124,11 @@ const std::vector<NumType>& RecurrentLayer::forward(
 
     auto *tmp_mul = new NumType[_hidden_size];
 
+    // The last time step overwrites the initial hidden state.
+    _initial_hidden_state.assign(
+        _hidden_state.begin(),
+        _hidden_state.begin() + static_cast<std::int64_t>(_hidden_size));
+
     // Loop the time sequences.
     for (SizeType t = 0; t < _time_steps; ++t)
     {
@@ -146,7 +151,8 @@ const std::vector<NumType>& RecurrentLayer::forward(
          * h(t+1) += W_hh * h(t) + b_h
          */
         DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
-            _hidden_state.data() + curr_hs_idx * _hidden_size, 
+            t == 0 ? _initial_hidden_state.data()
+                   : _hidden_state.data() + curr_hs_idx * _hidden_size,
             _hidden_size, _hidden_size);
         DLMath::arr_sum<NumType>(
             _hidden_state.data() + next_hs_idx * _hidden_size,
@@ -314,13 +320,16 @@ const std::vector<NumType>& RecurrentLayer::backward(
         }
 
         // Weight gradient hidden to hidden.
+        const NumType* prev_hidden_state = t_idx == 0
+            ? _initial_hidden_state.data()
+            : _hidden_state.data() + prev_hs_idx * _hidden_size;
         for (SizeType i = 0; i < _hidden_size; ++i)
         {
             for (SizeType j = 0; j < _hidden_size; ++j)
             {
                 _weights_h_to_h_gradients[(i * _hidden_size) + j] += 
                     next_hidden_state[i] 
-                    * _hidden_state[(SizeType(prev_hs_idx) * _hidden_size) + j];
+                    * prev_hidden_state[j];
             }
         }
 
diff --git a/source/dnn/recurrent.hpp b/source/dnn/recurrent.hpp
index 9c51d22..a82bd39 100644
--- a/source/dnn/recurrent.hpp
+++ b/source/dnn/recurrent.hpp
@@ -158,6 +158,8 @@ private:
     SizeType _hidden_size;
 
     std::vector<NumType> _hidden_state;
+    /// \brief Hidden state before the last forward. Size: _hidden_size.
+    std::vector<NumType> _initial_hidden_state;
     SizeType _time_steps;
 
     // == Layer parameters ==
-- 
2.43.0


From 533cd3f6cd8248bbc01189a4943150d4bb6d085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 34/44] fix: the recurrent layer computed tanh for any hidden
 activation

---
 source/dnn/recurrent.cpp | 62 +++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index c611e98..60d1501 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -166,24 +166,23 @@ const std::vector<NumType>& RecurrentLayer::forward(
         // Calculate hidden activations.
         switch (_hidden_activation)
         {
-            // TODO: to test.
-            // case Activation::ReLU:
-            // {
-            //     /*
-            //      * Compute the relu of the new hidden state.
-            //      * h(t+1) = relu(h(t+1))
-            //      */ 
-            //     DLMath::relu<NumType>(
-            //         _hidden_state.data() + next_hs_idx * _hidden_size,
-            //         _hidden_state.data() + next_hs_idx * _hidden_size, 
-            //         _hidden_size);
-            //     break;
-            // }
-            // case Activation::Linear:
-            // {
-            //     // Linear activation disables non-linear function.
-            //     break;
-            // }
+            case HiddenActivation::ReLU:
+            {
+                /*
+                 * Compute the relu of the new hidden state.
+                 * h(t+1) = relu(h(t+1))
+                 */
+                DLMath::relu<NumType>(
+                    _hidden_state.data() + next_hs_idx * _hidden_size,
+                    _hidden_state.data() + next_hs_idx * _hidden_size,
+                    _hidden_size);
+                break;
+            }
+            case HiddenActivation::Linear:
+            {
+                // Linear activation disables non-linear function.
+                break;
+            }
             case HiddenActivation::TanH:
             default:
             {
@@ -274,20 +273,19 @@ const std::vector<NumType>& RecurrentLayer::backward(
         // Calculate gradient of hidden activation and put in next_hidden_state.
         switch (_hidden_activation)
         {
-            // TODO: to test.
-            // case Activation::ReLU:
-            // {
-            //     DLMath::relu_1<NumType>(next_hidden_state.data(), 
-            //         _hidden_state.data() + curr_hs_idx * _hidden_size, 
-            //         _hidden_size);
-            //     break;
-            // }
-            // case Activation::Linear:
-            // {
-            //     std::fill(next_hidden_state.begin(), next_hidden_state.end(),
-            //         NumType{1.0});
-            //     break;
-            // }
+            case HiddenActivation::ReLU:
+            {
+                DLMath::relu_1<NumType>(next_hidden_state.data(),
+                    _hidden_state.data() + curr_hs_idx * _hidden_size,
+                    _hidden_size);
+                break;
+            }
+            case HiddenActivation::Linear:
+            {
+                std::fill(next_hidden_state.begin(), next_hidden_state.end(),
+                    NumType{1.0});
+                break;
+            }
             case HiddenActivation::TanH:
             default:
             {
-- 
2.43.0


From 90a0042524e2c28600d810322a81e2cc4536b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 35/44] fix: a second fit with another batch size scaled the
 gradients with the first

---
 source/dnn/loss.cpp       | 6 ++++++
 source/dnn/loss.hpp       | 6 ++++++
 source/middleware/fnn.hpp | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/source/dnn/loss.cpp b/source/dnn/loss.cpp
index 5b30ebf..470d615 100644
--- a/source/dnn/loss.cpp
+++ b/source/dnn/loss.cpp
@@ -53,6 +53,12 @@ void LossLayer::set_target(const std::vector<NumType>& target)
     _target = target;
 }
 
+void LossLayer::batch_size(SizeType batch_size)
+{
+    _inv_batch_size = NumType{1.0}
+        / static_cast<NumType>(std::max(batch_size, SizeType{1}));
+}
+
 NumType LossLayer::accuracy() const
 {
     return static_cast<NumType>(_correct) 
diff --git a/source/dnn/loss.hpp b/source/dnn/loss.hpp
index 2b0220e..61b9c3b 100644
--- a/source/dnn/loss.hpp
+++ b/source/dnn/loss.hpp
@@ -115,6 +115,12 @@ public:
      */
     void set_target(const std::vector<NumType>& target);
 
+    /**
+     * \brief Setter of the batch size that scales the loss gradients.
+     * \param batch_size SizeType The amount of entries of a batch.
+     */
+    void batch_size(SizeType batch_size);
+
     /**
      * \brief Calculate and return the accuracy until the last forward
      * iteration.
diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 534a944..f022153 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -222,6 +222,10 @@ public:
                 _m.create_loss_edge(output_layer, loss_layer);
             }
         }
+        for (const auto& loss_layer: _m.loss_layers())
+        {
+            loss_layer->batch_size(batch_size);
+        }
 
         // Train.
         _m.init(MapInit<Framework::EDGE_LEARNING, IT>::type,
-- 
2.43.0


From 7c589e65f31d151801e96e48a70e5b24736a03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:19 +0000
Subject: [PATCH 36/44] fix: a dropout layer between convolution or pooling
 layers lost the shape of its input

---
 source/middleware/fnn.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index f022153..8989e1a 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -318,6 +318,8 @@ private:
                 auto layer = _m.template add_layer<DropoutLayer>(
                     layer_name, input_shape.size(),
                     ld.setting().drop_probability());
+                // Dropping values out keeps the shape of the input.
+                layer->input_shape(input_shape);
                 return layer;
             }
             case LayerType::Dense:
-- 
2.43.0


From 3a86037ee280de91562b29e50dd8b7000981a062 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:55:38 +0000
Subject: [PATCH 37/44] fix: type inference exhausted the stack with texts of
 many thousand characters

---
 source/parser/csv.hpp          |  1 +
 source/parser/type_checker.hpp | 80 ++++++++++++++++++++++++++++------
 2 files changed, 68 insertions(+), 13 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index e9a5ea6..7597e5f 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -31,6 +31,7 @@
 
 #include "parser.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <string>
 #include <sstream>
diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 1376eaa..6237a70 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -32,29 +32,83 @@
 #include <string>
 #include <sstream>
 #include <vector>
-#include <regex>
 
 namespace EdgeLearning {
 
 /**
- * \brief Regex to detect float values in string.
+ * \brief Skip the decimal digits of a string.
+ * \param s   The string.
+ * \param pos The position from which to start.
+ * \return std::size_t The position of the first character that is not a digit.
  */
-const std::regex _float_regex   { "^[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?$" };
+inline std::size_t _skip_digits(const std::string& s, std::size_t pos)
+{
+    while (pos < s.size() && s[pos] >= '0' && s[pos] <= '9') ++pos;
+    return pos;
+}
+
+/**
+ * \brief Skip the sign of a string.
+ * \param s   The string.
+ * \param pos The position of the sign, if there is one.
+ * \return std::size_t The position after the sign.
+ */
+inline std::size_t _skip_sign(const std::string& s, std::size_t pos)
+{
+    return pos < s.size() && (s[pos] == '-' || s[pos] == '+') ? pos + 1 : pos;
+}
+
+/**
+ * \brief Detect float values: [-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?
+ * The functions do not use std::regex: its recursion exhausts the stack with
+ * texts of many thousand characters.
+ */
+inline bool _match_float(const std::string& s)
+{
+    std::size_t begin = _skip_sign(s, 0);
+    std::size_t pos = _skip_digits(s, begin);
+    if (pos < s.size() && s[pos] == '.')
+    {
+        begin = pos + 1;
+        pos = _skip_digits(s, begin);
+    }
+    if (pos == begin) return false;
+    if (pos < s.size() && (s[pos] == 'e' || s[pos] == 'E'))
+    {
+        begin = _skip_sign(s, pos + 1);
+        pos = _skip_digits(s, begin);
+        if (pos == begin) return false;
+    }
+    return pos == s.size();
+}
 
 /**
- * \brief Regex to detect int values in string.
+ * \brief Detect int values: [-+]?(0|[1-9][0-9]*)
  */
-const std::regex _integer_regex { "^[-+]?(0|[1-9][0-9]*)$" };
+inline bool _match_integer(const std::string& s)
+{
+    const std::size_t begin = _skip_sign(s, 0);
+    const std::size_t pos = _skip_digits(s, begin);
+    return pos == s.size() && pos != begin
+        && (s[begin] != '0' || pos == begin + 1);
+}
 
 /**
- * \brief Regex to detect bool values in string.
+ * \brief Detect bool values: true|false
  */
-const std::regex _boolean_regex { "^(true|false)$" };
+inline bool _match_boolean(const std::string& s)
+{
+    return s == "true" || s == "false";
+}
 
 /**
- * \brief Regex to detect strings
+ * \brief Detect strings of one line between quotes: ".*"
  */
-const std::regex _string_regex  { "^\".*\"$" };
+inline bool _match_string(const std::string& s)
+{
+    return s.size() >= 2 && s.front() == '"' && s.back() == '"'
+        && s.find_first_of("\n\r") == std::string::npos;
+}
 
 /**
  * \brief Convert a string in the templated type T and put the result in the
@@ -273,19 +327,19 @@ public:
             return TypeChecker::Type::NONE;
         }
 
-        if (std::regex_match(field, _string_regex))
+        if (_match_string(field))
         {
             return TypeChecker::Type::STRING;
         }
-        else if (std::regex_match(field, _boolean_regex))
+        else if (_match_boolean(field))
         {
             return TypeChecker::Type::BOOL;
         }
-        else if (std::regex_match(field, _integer_regex))
+        else if (_match_integer(field))
         {
             return TypeChecker::Type::INT;
         }
-        else if (std::regex_match(field, _float_regex))
+        else if (_match_float(field))
         {
             return TypeChecker::Type::FLOAT;
         }
-- 
2.43.0


From 1da30336905f58feff7f01d64e1ecea1447999c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:55:38 +0000
Subject: [PATCH 38/44] fix: a negative text converted to an unsigned type was
 wrapped instead of rejected

---
 source/parser/type_checker.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 6237a70..d01207a 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -31,6 +31,7 @@
 
 #include <string>
 #include <sstream>
+#include <type_traits>
 #include <vector>
 
 namespace EdgeLearning {
@@ -124,6 +125,13 @@ inline bool convert(const std::string &s, T& ref)
 {
     std::stringstream ss{s};
     ss >> ref;
+    if (std::is_unsigned<T>::value && ref != T{}
+        && s.find('-') != std::string::npos)
+    {
+        // The stream wraps a negative number in the range of the type.
+        ref = T{};
+        return false;
+    }
     return !ss.fail() && ss.eof();
 }
 
-- 
2.43.0


From 14ddfb82e1ae3f4a434cd071e01f1d9c42236078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:50 +0000
Subject: [PATCH 39/44] fix: reading deeply nested JSON text exhausted the
 stack

---
 source/parser/json.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index e0a849b..0ded556 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1614,6 +1614,20 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
+    // Each nested list or dict takes a share of the stack: reject the texts
+    // that nest so many of them to exhaust it.
+    constexpr std::size_t max_depth = 1000;
+    thread_local std::size_t depth = 0;
+    struct Nesting
+    {
+        Nesting() { ++depth; }
+        ~Nesting() { --depth; }
+    } nesting;
+    if (depth > max_depth)
+    {
+        throw std::runtime_error("JSON malformed: too many nested items");
+    }
+
     switch(os.peek())
     {
         case '[':
-- 
2.43.0


From 44d572239fe677b60bc68394d53afe57d0682ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:43 +0000
Subject: [PATCH 40/44] fix: Adam gave a new layer the moments of a destroyed
 one at the same address

---
 source/dnn/adam_optimizer.cpp | 2 +-
 source/dnn/adam_optimizer.hpp | 6 ++++--
 source/dnn/layer.hpp          | 9 +++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/dnn/adam_optimizer.cpp b/source/dnn/adam_optimizer.cpp
index dcb704c..7558ece 100644
--- a/source/dnn/adam_optimizer.cpp
+++ b/source/dnn/adam_optimizer.cpp
@@ -44,7 +44,7 @@ void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
     if (param_count == 0) return;
 
     // The moments belong to the parameters, that clones of a layer share.
-    auto& moments = _moments[&layer_to.param(0)];
+    auto& moments = _moments[layer_to.handle()];
     if (moments.m.size() != param_count)
     {
         moments.m.assign(param_count, NumType{0.0});
diff --git a/source/dnn/adam_optimizer.hpp b/source/dnn/adam_optimizer.hpp
index 9e74bb6..d0b0ada 100644
--- a/source/dnn/adam_optimizer.hpp
+++ b/source/dnn/adam_optimizer.hpp
@@ -32,6 +32,7 @@
 #include "optimizer.hpp"
 
 #include <map>
+#include <memory>
 #include <vector>
 
 
@@ -93,8 +94,9 @@ private:
         SizeType t{1};          ///< \brief Incremental timestamp (temperature).
     };
 
-    /// \brief State of each layer, identified by its first parameter.
-    std::map<const NumType*, Moments> _moments;
+    /// \brief State of each layer, that the copies of the layer share.
+    std::map<std::weak_ptr<const Layer::Fields>, Moments,
+             std::owner_less<>> _moments;
 };
 
 } // namespace EdgeLearning
diff --git a/source/dnn/layer.hpp b/source/dnn/layer.hpp
index c95c009..e0c7a48 100644
--- a/source/dnn/layer.hpp
+++ b/source/dnn/layer.hpp
@@ -267,6 +267,15 @@ public:
     [[nodiscard]] std::string const& name() const noexcept
     { return _shared_fields->name(); }
 
+    /**
+     * \brief Getter of a handle of the state that the copies of a layer share.
+     * Handles of a layer and of its copies are equivalent by owner, and a
+     * handle is never equivalent to one of a layer created later.
+     * \return std::weak_ptr<const Fields> The handle.
+     */
+    [[nodiscard]] std::weak_ptr<const Fields> handle() const noexcept
+    { return _shared_fields; }
+
     /**
      * \brief Getter of input_shape class field.
      * \return The size of the layer input.
-- 
2.43.0


From 54c3ae55672f08f7e8d7e2a8db3609d204922faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:13 +0000
Subject: [PATCH 41/44] fix: do not keep a run-time network whose layers were
 refused

---
 source/middleware/nn.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/middleware/nn.hpp b/source/middleware/nn.hpp
index b7cc2d4..8f2e34b 100644
--- a/source/middleware/nn.hpp
+++ b/source/middleware/nn.hpp
@@ -283,9 +283,18 @@ public:
             throw std::runtime_error("LossType and InitType not recognized");
         }
 
-        for (const auto& l: _layers)
+        try
         {
-            _model_ptr->add(l);
+            for (const auto& l: _layers)
+            {
+                _model_ptr->add(l);
+            }
+        }
+        catch (...)
+        {
+            // A network without some of its layers must not be used.
+            _model_ptr.reset();
+            throw;
         }
     }
 
-- 
2.43.0


From 12f2b177f4b3ac76e33eb1e0ee5d5dc449c74254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:59 +0000
Subject: [PATCH 42/44] fix: reject the normalization of columns that a dataset
 does not have

---
 source/data/dataset.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 6c3ede9..8b204d7 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -624,6 +624,15 @@ public:
             std::iota(idx_vec.begin(), idx_vec.end(), 0);
         }
 
+        for (const auto& col: idx_vec)
+        {
+            if (col >= _feature_size && !empty())
+            {
+                throw std::runtime_error(
+                    "normalization error: column index out of range");
+            }
+        }
+
         for (std::size_t row = 0; row < _feature_amount; ++row)
         {
             for (const auto& col: idx_vec)
-- 
2.43.0


From ad31182d9b34edf83e2a9e3b99228d18134dae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:59 +0000
Subject: [PATCH 43/44] fix: normalize columns whose range exceeds the largest
 value

---
 source/data/dataset.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 8b204d7..4db9e79 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -676,8 +676,12 @@ public:
             {
                 auto range = max_vec[col] - min_vec[col];
                 auto& value = _data[row * _feature_size + col];
-                value = range == T(0)
-                    ? T(0) : (value - min_vec[col]) / range;
+                if (range == T(0)) value = T(0);
+                else if (std::isfinite(range))
+                    value = (value - min_vec[col]) / range;
+                // The range exceeds the largest value of the type.
+                else value = (value / 2 - min_vec[col] / 2)
+                    / (max_vec[col] / 2 - min_vec[col] / 2);
             }
         }
         return *this;
-- 
2.43.0


From b1f23a723c7ccb948b0528f1e625a3d69e68e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:46 +0000
Subject: [PATCH 44/44] fix: predict from the input part of the entries of a
 labelled dataset

The label columns were passed to the network too, which read them as
further inputs, beyond the end of the weights.
---
 source/middleware/fnn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 8989e1a..a93a517 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -241,7 +241,7 @@ public:
 
         for (std::size_t i = 0; i < data.size(); ++i)
         {
-            auto res = _m.predict(data.entry(i));
+            auto res = _m.predict(data.input(i));
             std::copy(res.begin(), res.end(),
                       ret.begin() + long(i * output_size));
         }
-- 
2.43.0

